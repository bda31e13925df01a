------------------------------ MODULE Launcher ------------------------------
(***************************************************************************)
(* The launcher: how the environment and a sequence of options become a    *)
(* configuration, what is refused, which pipelines run, and where, how     *)
(* secured and as what their data arrive.  NewTracePipeline and            *)
(* NewMetricsPipeline are the same machine entered with a configuration.   *)
(*                                                                         *)
(* Endpoints are the names of backends, "D" (the public default, out of    *)
(* reach) or "" (disabled).                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT HeaderKeys     \* the headers in use
TokenKey == "lightstep-access-token"

VARIABLES c,            \* the configuration so far
          w,            \* the surroundings: mode, trust, cert, host, handler
          phase,        \* "config", "run", "down", "end"
          pend,         \* spans recorded and not delivered
          tot, got      \* measurements recorded and delivered
lnVars == <<c, w, phase, pend, tot, got>>

Range(s) == {s[i] : i \in 1..Len(s)}
\* a map given as a sequence of pairs; the last of equal keys counts
AsMap(s) == [k \in {s[i].k : i \in 1..Len(s)} |->
               s[CHOOSE i \in 1..Len(s) : s[i].k = k /\ \A j \in i + 1..Len(s) : s[j].k # k].v]
Over(f, g) == g @@ f    \* g takes precedence
Nonempty(f) == [k \in {x \in DOMAIN f : f[x] # ""} |-> f[k]]
Absent == [x \in {} |-> ""]

\* ---- settings ----
Default == [sep |-> "D", sins |-> FALSE, svc |-> "", ver |-> "unknown", hd |-> Absent, mep |-> "D", mins |-> FALSE,
            tempo |-> "cumulative", men |-> TRUE, bin |-> TRUE, libs |-> <<"all:stable">>, log |-> "info",
            props |-> <<"b3">>, period |-> "30s", ra |-> Absent, er |-> Absent, osvc |-> "", tok |-> "", bad |-> FALSE, tls |-> "nil"]

\* common to the environment and the options
Set(x, e) ==
  CASE e.k = "service"         -> [x EXCEPT !.svc = e.s]
    [] e.k = "version"         -> [x EXCEPT !.ver = e.s]
    [] e.k = "span-endpoint"   -> [x EXCEPT !.sep = e.s]
    [] e.k = "span-insecure"   -> [x EXCEPT !.sins = e.b]
    [] e.k = "metric-endpoint" -> [x EXCEPT !.mep = e.s]
    [] e.k = "metric-insecure" -> [x EXCEPT !.mins = e.b]
    [] e.k = "headers"         -> [x EXCEPT !.hd = Over(@, AsMap(e.m))]
    [] e.k = "tempo"           -> [x EXCEPT !.tempo = e.s]
    [] e.k = "metrics"         -> [x EXCEPT !.men = e.b]
    [] e.k = "builtins"        -> [x EXCEPT !.bin = e.b]
    [] e.k = "libs"            -> [x EXCEPT !.libs = e.l]
    [] e.k = "log"             -> [x EXCEPT !.log = e.s]
    [] e.k = "props"           -> [x EXCEPT !.props = e.l]
    [] e.k = "period"          -> [x EXCEPT !.period = e.s]
    [] OTHER                   -> x
FromEnv(x, e) ==
  CASE e.bad                -> [x EXCEPT !.bad = TRUE]
    [] e.k = "resource"     -> [x EXCEPT !.er = AsMap(e.m)]
    [] e.k = "otel-service" -> [x EXCEPT !.osvc = e.s]
    [] e.k = "token"        -> [x EXCEPT !.tok = e.s]
    [] OTHER                -> Set(x, e)
FromOpt(x, e) ==
  CASE e.k = "resource" -> [x EXCEPT !.ra = AsMap(e.m)]
    [] e.k = "token"    -> [x EXCEPT !.hd = Over(@, TokenKey :> e.s)]
    [] OTHER            -> Set(x, e)

Env(e) == phase = "config" /\ c' = FromEnv(c, e) /\ UNCHANGED <<w, phase, pend, tot, got>>
Opt(e) == phase = "config" /\ c' = FromOpt(c, e) /\ UNCHANGED <<w, phase, pend, tot, got>>
\* a pipeline is given its configuration directly
Pipe(e) == /\ phase = "config"
           /\ c' = [Default EXCEPT !.sep = e.ep, !.mep = e.ep, !.sins = e.ins, !.mins = e.ins, !.hd = AsMap(e.hd), !.ra = AsMap(e.res),
                      !.period = e.period, !.props = e.props, !.bin = e.bin, !.libs = e.libs, !.tempo = e.tempo, !.tls = e.tls]
           /\ UNCHANGED <<w, phase, pend, tot, got>>

\* ---- what the settings mean ----
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
Headers == LET h == IF w.mode = "launch" /\ At(c.hd, TokenKey) = "" /\ c.tok # "" THEN Over(c.hd, TokenKey :> c.tok) ELSE c.hd
           IN [k \in HeaderKeys |-> At(h, k)]
EnvResource == IF c.osvc # "" THEN Over(c.er, "service.name" :> c.osvc) ELSE c.er
Resource ==
  IF w.mode # "launch" THEN c.ra
  ELSE LET own == ("telemetry.sdk.name" :> "launcher") @@ ("telemetry.sdk.language" :> "go") @@ ("telemetry.distro.name" :> "lightstep")
           svc == IF c.svc # "" THEN "service.name" :> c.svc ELSE Absent
           ver == IF c.ver # "" THEN "service.version" :> c.ver ELSE Absent
           app == Nonempty(c.ra)
           host == IF At(EnvResource, "host.name") # "" \/ At(app, "host.name") # "" THEN Absent ELSE "host.name" :> w.host
       IN Over(Over(Over(Over(Over(EnvResource, own), svc), ver), app), host)
Versions == {"telemetry.sdk.version", "telemetry.distro.version"}
IsResource(r) ==
  LET f == AsMap(r) IN
  /\ Len(r) = Cardinality(DOMAIN f)
  /\ [k \in DOMAIN f \ Versions |-> f[k]] = Resource
  /\ IF w.mode = "launch"
     THEN /\ Versions \subseteq DOMAIN f
          /\ \E v \in {f[k] : k \in Versions} : v # "" /\ \A k \in Versions : f[k] = v
     ELSE Versions \cap DOMAIN f = {}

TraceFormats == {"b3", "tracecontext", "ottrace"}
Formats == TraceFormats \cup {"baggage"}
Chosen == SelectSeq(c.props, LAMBDA p : p \in Formats)

Shorts == {"100ms", "200ms", "0.1s"}
Longs == {"30s", "1h", ""}
GoodPeriod == c.period \in Shorts \cup Longs
Cumulative == {"", "cumulative", "Cumulative"}
Delta == {"delta", "DELTA"}
Stateless == {"stateless", "lowmemory", "Stateless", "LowMemory"}
GoodTempo == c.tempo \in Cumulative \cup Delta \cup Stateless

\* pipelines asked for, and those that run
WantTrace == w.mode = "trace" \/ (w.mode = "launch" /\ c.sep # "")
WantMetric == w.mode = "metric" \/ (w.mode = "launch" /\ c.mep # "" /\ c.men)
TraceOK == WantTrace /\ Chosen # <<>>
MetricOK == WantMetric /\ GoodPeriod /\ GoodTempo

NoService == c.svc = "" /\ At(Resource, "service.name") = ""
NoToken == Headers[TokenKey] = "" /\ "D" \in {c.sep, c.mep}
\* the complaints that must be made, in order
Complaints ==
  IF w.mode = "launch" /\ (c.bad \/ NoService \/ NoToken)
  THEN {}
  ELSE {t \o m : t \in (IF WantTrace /\ ~TraceOK THEN {<<"props">>} ELSE {<<>>}),
                 m \in (IF WantMetric /\ ~GoodPeriod THEN {<<"period">>} ELSE {}) \cup
                       (IF WantMetric /\ ~GoodTempo THEN {<<"tempo">>} ELSE {}) \cup
                       (IF WantMetric /\ ~MetricOK THEN {} ELSE {<<>>})}
Refused == w.mode = "launch" /\ (c.bad \/ NoService \/ NoToken)

Host == "otel_launcher_go/host"
Runtime == "otel-launcher-go/runtime"
Cpu == "otel_launcher_go/cputime"
Scopes(lib) ==
  CASE lib \in {"all", "all:", "all:stable"}             -> {Host, Runtime, Cpu}
    [] lib \in {"host", "host:", "host:stable"}          -> {Host}
    [] lib \in {"runtime", "runtime:", "runtime:stable"} -> {Runtime}
    [] lib \in {"cputime", "cputime:", "cputime:stable"} -> {Cpu}
    [] OTHER -> {}
Builtins == IF c.bin THEN UNION {Scopes(c.libs[i]) : i \in 1..Len(c.libs)} ELSE {}
Unknown == IF c.bin THEN Cardinality({i \in 1..Len(c.libs) : Scopes(c.libs[i]) = {}}) ELSE 0

\* ---- configuring ----
Configured(fatal, debug, same, builtin) ==
  /\ phase = "config"
  /\ IF Refused
     THEN /\ fatal # <<>>
          /\ c.bad => "env" \in Range(fatal)
          /\ ~c.bad => fatal[1] = (IF NoService THEN "service" ELSE "token")
     ELSE fatal \in Complaints
  /\ w.mode = "launch" => (debug <=> c.log = "debug") \/ c.bad
  /\ same               \* the caller's maps are left alone
  /\ ~Refused => builtin = (IF w.handler /\ MetricOK THEN Unknown ELSE 0)
  /\ phase' = "run"
  /\ UNCHANGED <<c, w, pend, tot, got>>

\* ---- connections ----
Endpoint(sig) == IF sig = "span" THEN c.sep ELSE c.mep
Insecure(sig) == IF sig = "span" THEN c.sins ELSE c.mins
\* plaintext only where asked for
Security(sig) == IF Insecure(sig) \/ c.tls = "insecure" THEN "plain" ELSE "tls"
\* and a certificate that does not convince is not accepted
Accepts(sig) == CASE Security(sig) = "plain" -> TRUE
                  [] c.tls = "skip" -> TRUE
                  [] c.tls = "ca" -> w.cert = "good"
                  [] OTHER -> w.cert = "good" /\ w.trust = "sys"
Wanted == (IF WantTrace THEN {"span"} ELSE {}) \cup (IF WantMetric THEN {"metric"} ELSE {})
Running == (IF TraceOK THEN {"span"} ELSE {}) \cup (IF MetricOK THEN {"metric"} ELSE {})
Conn(srv, sec, ok) ==
  /\ c.bad \/ \E s \in Wanted : Endpoint(s) = srv /\ Security(s) = sec /\ Accepts(s) = ok
  /\ UNCHANGED lnVars

\* ---- propagation ----
Propagate(inj, ext, win, other) ==
  LET f == IF TraceOK THEN Range(Chosen) ELSE {}
      t == IF TraceOK THEN SelectSeq(Chosen, LAMBDA p : p \in TraceFormats) ELSE <<>>
  IN /\ Range(inj) = f /\ Range(ext) = f /\ other = <<>>
     /\ win = (IF t = <<>> THEN "none" ELSE t[Len(t)])
     /\ UNCHANGED lnVars

\* ---- data ----
Names == {"c", "u", "h", "g", "ac", "au", "ag"}
TempoOf(n) ==
  CASE n \in {"g", "ag"} -> "none"
    [] n \in {"u", "au"} -> "cum"
    [] n \in {"c", "h"} -> IF c.tempo \in Cumulative THEN "cum" ELSE "delta"
    [] n = "ac" -> IF c.tempo \in Delta THEN "delta" ELSE "cum"
TypeOf(n) == CASE n \in {"g", "ag"} -> "gauge" [] n = "h" -> "hist" [] OTHER -> "sum"
Record(e) ==
  /\ phase = "run"
  /\ pend' = pend \cup Range(e.spans)
  /\ tot' = [n \in Names |->
       CASE n \in {"g", "ag"} -> [v |-> e[n], cnt |-> 0]
         [] n = "h" -> [v |-> tot[n].v + e.h, cnt |-> tot[n].cnt + 1]
         [] OTHER -> [v |-> tot[n].v + e[n], cnt |-> 0]]
  /\ UNCHANGED <<c, w, phase, got>>

Take(g, it) ==
  [g EXCEPT ![it.n] = IF it.tempo = "delta" THEN [v |-> @.v + it.v, cnt |-> @.cnt + it.cnt, seen |-> TRUE]
                                            ELSE [v |-> it.v, cnt |-> it.cnt, seen |-> TRUE]]
GoodItem(g, it) ==
  /\ it.n \in Names /\ it.tempo = TempoOf(it.n) /\ it.type = TypeOf(it.n)
  /\ it.mono = (it.n \in {"c", "ac"})
  \* nothing twice, nothing taken back
  /\ it.n \in {"c", "h", "ac"} =>
       LET n == Take(g, it)[it.n] IN /\ n.v <= tot[it.n].v /\ n.v >= g[it.n].v
                                     /\ it.n = "h" => n.cnt <= tot.h.cnt /\ n.cnt >= g.h.cnt
RECURSIVE TakeAll(_, _, _)
TakeAll(g, its, i) ==
  IF i > Len(its) THEN [ok |-> TRUE, g |-> g]
  ELSE IF ~GoodItem(g, its[i]) THEN [ok |-> FALSE, g |-> g]
  ELSE TakeAll(Take(g, its[i]), its, i + 1)
Request(e) ==
  /\ phase \in {"run", "down"}
  /\ e.sig \in Running
  /\ e.srv = Endpoint(e.sig) /\ e.sec = Security(e.sig) /\ Accepts(e.sig)
  /\ e.enc = "gzip"
  /\ [k \in HeaderKeys |-> At(AsMap(e.hd), k)] = Headers
  /\ \A i \in 1..Len(e.res) : IsResource(e.res[i])
  /\ e.sig = "metric" => c.period \in Shorts \/ phase = "down"
  /\ Range(e.spans) \subseteq pend /\ Len(e.spans) = Cardinality(Range(e.spans))
  /\ pend' = pend \ Range(e.spans)
  /\ Range(e.scopes) \subseteq Builtins
  /\ LET t == TakeAll(got.m, e.items, 1)
     IN /\ t.ok
        /\ got' = [m |-> t.g, sc |-> got.sc \cup Range(e.scopes)]
  /\ UNCHANGED <<c, w, phase, tot>>
\* metrics arrived without shutting down
Tick == "metric" \in Running /\ c.period \in Shorts /\ UNCHANGED lnVars

\* ---- shutting down ----
Unreachable == {s \in Running : ~Accepts(s)}
Down == phase = "run" /\ phase' = "down" /\ UNCHANGED <<c, w, pend, tot, got>>
Returned(before, fatal) ==
  /\ phase = "down" /\ phase' = "end"
  /\ Unreachable = {} => fatal = before
  /\ "span" \in Running \ Unreachable => pend = {}
  /\ "metric" \in Running \ Unreachable =>
       /\ got.sc = Builtins
       /\ \A n \in Names : got.m[n].seen /\ got.m[n].v = tot[n].v /\ got.m[n].cnt = tot[n].cnt
  /\ UNCHANGED <<c, w, pend, tot, got>>
Stuck == phase = "down" /\ phase' = "end" /\ Unreachable # {} /\ UNCHANGED <<c, w, pend, tot, got>>

LnInit(cfg) ==
  /\ c = Default /\ w = cfg /\ phase = "config" /\ pend = {}
  /\ tot = [n \in Names |-> [v |-> 0, cnt |-> 0]]
  /\ got = [m |-> [n \in Names |-> [v |-> 0, cnt |-> 0, seen |-> FALSE]], sc |-> {}]
=============================================================================
