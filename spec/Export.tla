------------------------------- MODULE Export -------------------------------
(* The OTLP exporters: what a backend receives for the data they are given *)
(* and what they report about themselves.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,      \* hd : headers, enc : compression, metrics, spans : self-telemetry enabled, sig : "metrics" or "traces"
  calls,    \* call id -> the items it must deliver; in progress
  owed,     \* items of calls made that were not received yet
  items,    \* self-telemetry: outcome -> number of items
  xspans,   \* self-telemetry: spans of finished calls not yet observed
  mode      \* what the backend does: "ok", "slow", "error", "timeout" or "cancel"
exVars == <<cfg, calls, owed, items, xspans, mode>>

ExInit(c) == /\ cfg = c
             /\ calls = [i \in {} |-> {}]
             /\ owed = {}
             /\ items = [s \in {"ok", "canceled", "timeout", "error"} |-> 0]
             /\ xspans = <<>>
             /\ mode = "ok"

Range(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Attributes: of several with the same key the last counts. *)
Attrs(as) == {as[i] : i \in {i \in 1..Len(as) : \A j \in (i + 1)..Len(as) : as[j].k # as[i].k}}

(* The OTLP data point for a collected point. *)
NoBuckets == [off |-> 0, c |-> <<>>]
NoHist == [sum |-> "", count |-> 0, min |-> "", max |-> "", zero |-> 0, scale |-> 0,
           pos |-> NoBuckets, neg |-> NoBuckets, nb |-> 0]
Buckets(b) == IF Len(b.c) = 0 THEN NoBuckets ELSE b
Point(p) ==
  [res |-> Attrs(p.res), sc |-> p.sc, name |-> p.name, unit |-> p.unit, desc |-> p.desc,
   type |-> CASE p.agg \in {"msum", "nsum"} -> "sum"
              [] p.agg = "gauge" -> "gauge"
              [] p.agg = "hist" -> "exphist"
              [] p.agg = "mmsc" -> "hist",
   mono |-> p.agg = "msum",
   tempo |-> IF p.agg = "gauge" THEN "none" ELSE p.tempo,
   attrs |-> Attrs(p.attrs),
   start |-> IF p.agg = "gauge" THEN "0" ELSE p.start,
   end |-> p.end,
   vt |-> IF p.agg \in {"hist", "mmsc"} THEN "none" ELSE p.num,
   v |-> IF p.agg \in {"hist", "mmsc"} THEN "" ELSE p.v,
   h |-> CASE p.agg = "hist" -> [sum |-> p.h.sum, count |-> p.h.count, zero |-> p.h.zero, scale |-> p.h.scale,
                                 min |-> IF p.h.count = 0 THEN "" ELSE p.h.min,
                                 max |-> IF p.h.count = 0 THEN "" ELSE p.h.max,
                                 pos |-> Buckets(p.h.pos), neg |-> Buckets(p.h.neg), nb |-> 0]
           [] p.agg = "mmsc" -> [NoHist EXCEPT !.sum = p.h.sum, !.count = p.h.count,
                                               !.min = IF p.h.count = 0 THEN "" ELSE p.h.min,
                                               !.max = IF p.h.count = 0 THEN "" ELSE p.h.max]
           [] OTHER -> NoHist]

(* The OTLP span for a finished span. *)
Kind(k) == CASE k = "internal" -> 1 [] k = "server" -> 2 [] k = "client" -> 3 [] k = "producer" -> 4 [] k = "consumer" -> 5 [] OTHER -> 0
Events(es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.attrs = Attrs(@)]]
Span(s) == [s EXCEPT !.kind = Kind(@), !.attrs = Attrs(@), !.res = Attrs(@), !.evs = Events(@), !.lks = Events(@)]

Item(x) == IF cfg.sig = "metrics" THEN Point(x) ELSE Span(x)

(* Received: the same, with attribute lists that name no key twice. *)
NoDup(as) == Cardinality({as[i].k : i \in 1..Len(as)}) = Len(as)
GotPoint(x) == [x EXCEPT !.attrs = Range(@), !.res = Range(@)]
GotSpan(x) == [x EXCEPT !.attrs = Range(@), !.res = Range(@), !.evs = Events(@), !.lks = Events(@)]
Got(x) == IF cfg.sig = "metrics" THEN GotPoint(x) ELSE GotSpan(x)
WellFormed(x) == NoDup(x.attrs) /\ NoDup(x.res)
                 /\ (cfg.sig = "traces" => \A i \in 1..Len(x.evs) : NoDup(x.evs[i].attrs))
                 /\ (cfg.sig = "traces" => \A i \in 1..Len(x.lks) : NoDup(x.lks[i].attrs))

-----------------------------------------------------------------------------
Call(id, in) ==
  /\ id \notin DOMAIN calls
  /\ LET is == TLCEval({Item(in[i]) : i \in 1..Len(in)}) IN
     /\ Cardinality(is) = Len(in)
     /\ calls' = [i \in DOMAIN calls \cup {id} |-> IF i = id THEN is ELSE calls[i]]
     /\ owed' = TLCEval(owed \cup is)
  /\ UNCHANGED <<cfg, items, xspans, mode>>

\* The backend changes its behaviour, between calls.
Mode(m) == DOMAIN calls = {} /\ mode' = m /\ UNCHANGED <<cfg, calls, owed, items, xspans>>

\* The backend accepts a request: items that were exported and that it has
\* not had before, with the configured headers and compression.
Receive(hd, enc, got) ==
  /\ hd = cfg.hd /\ enc = cfg.enc
  /\ \A i \in 1..Len(got) : WellFormed(got[i])
  /\ LET gs == TLCEval({Got(got[i]) : i \in 1..Len(got)}) IN
     /\ Cardinality(gs) = Len(got)
     /\ gs \subseteq owed
     /\ owed' = owed \ gs
  /\ UNCHANGED <<cfg, calls, items, xspans, mode>>

\* A call that succeeds has delivered all its items.  A call fails only for
\* a reason.  Its outcome is reported.
Return(id, state) ==
  /\ id \in DOMAIN calls
  /\ state = "ok" => calls[id] \cap owed = {}
  /\ state # "ok" => mode \in {"error", "timeout", "cancel"}
  /\ state = "timeout" => mode \in {"timeout", "error"}
  /\ state = "canceled" => mode \in {"cancel", "error"}
  /\ calls' = [i \in DOMAIN calls \ {id} |-> calls[i]]
  /\ items' = IF cfg.metrics THEN [items EXCEPT ![state] = @ + Cardinality(calls[id])] ELSE items
  /\ xspans' = IF cfg.spans
               THEN Append(xspans, [name |-> "otelsdk_export_" \o cfg.sig, num |-> Cardinality(calls[id]), state |-> state,
                                    success |-> state = "ok", code |-> IF state = "ok" THEN "ok" ELSE "error"])
               ELSE xspans
  /\ UNCHANGED <<cfg, owed, mode>>

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* Between calls: the items counter and the spans since the last look.
Observe(counts, other, spans, names) ==
  /\ DOMAIN calls = {}
  /\ \A s \in DOMAIN items : items[s] = counts[s]
  /\ other = 0
  /\ Len(spans) = Len(xspans) /\ \A x \in Range(spans) : Count(spans, x) = Count(xspans, x)
  /\ names   \* no instrument of the collector's is visible under its own name
  /\ xspans' = <<>>
  /\ UNCHANGED <<cfg, calls, owed, items, mode>>

-----------------------------------------------------------------------------
(* The Prometheus exporter: what a scrape shows of the data exported last.  *)
(* Exponential buckets are shown with explicit bounds: zero, the lower end  *)
(* of the first positive bucket and the upper ends of all of them.  Bounds  *)
(* (le) and recorded values (vals) are given by their ranks.                *)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
RECURSIVE Running(_, _)
Running(c, s) == IF s = <<>> THEN <<>> ELSE <<c + Head(s)>> \o Running(c + Head(s), Tail(s))
Cum(h, count) ==
  LET low == h.zero + Total(h.neg) IN
  <<low>> \o (IF h.pos = <<>> THEN <<>> ELSE <<low>> \o Running(low, h.pos)) \o <<count>>
\* Near the largest numbers some ends are not finite (or not computed to
\* be); the buckets between those that are shown are one.
Merged(c, g) == Len(g) \in 2..Len(c) /\ g[1] = c[1] /\ g[Len(g)] = c[Len(c)] /\ Range(g) \subseteq Range(c)
Shows(w, g) ==
  /\ w.name = g.name /\ w.help = g.help /\ w.type = g.type /\ w.v = g.v /\ w.count = g.count /\ Range(w.labels) = Range(g.labels)
  /\ IF w.type = "mmsc" THEN g.cum = <<w.count>>   \* shown as a histogram without bounds
     ELSE IF w.type # "histogram" THEN g.cum = <<>>
     ELSE LET c == Cum(w.h, w.count) IN
          g.cum = c \/ (w.top /\ Merged(c, g.cum))
Truthful(x) ==
  /\ x.type \in {"histogram", "mmsc"} => Len(x.vals) = x.count
  /\ \A i \in 1..Len(x.le) : (i > 1 => x.le[i - 1] < x.le[i])
                             /\ x.cum[i] = Cardinality({j \in 1..Len(x.vals) : x.vals[j] <= x.le[i]})
\* n points were handed to the exporter with success.
Counted(n) ==
  /\ items' = IF cfg.metrics THEN [items EXCEPT !["ok"] = @ + n] ELSE items
  /\ xspans' = IF cfg.spans
               THEN Append(xspans, [name |-> "otelsdk_export_metrics", num |-> n, state |-> "ok", success |-> TRUE, code |-> "ok"])
               ELSE xspans
  /\ UNCHANGED <<cfg, calls, owed, mode>>
Scrape(want, got, state) ==
  /\ state = "ok"
  /\ \A i \in 1..Len(want) : \E j \in 1..Len(got) : Shows(want[i], got[j])
  /\ Len(want) = Len(got)
  /\ \A i \in 1..Len(got) : Truthful(got[i])
  /\ Counted(Len(want))
\* Shutting down takes the last data.
Down(n, ok) == ok /\ Counted(n)
=============================================================================
