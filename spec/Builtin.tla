------------------------------ MODULE Builtin ------------------------------
(***************************************************************************)
(* The builtin instrumentation: which series the host, runtime and cputime *)
(* libraries report, and with what values, given what their sources say.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES src,      \* what the source says at present
          last      \* values reported before, for those that only grow
biVars == <<src, last>>

Range(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

\* ---- host ----
HostScope == "otel_launcher_go/host"
S(n, unit, kind, num, k, a, v) ==
  [n |-> n, unit |-> unit, kind |-> kind, num |-> num, attrs |-> <<[k |-> k, v |-> a]>>, scope |-> HostScope, v |-> v]
\* The four states share the processors' time out; time of guests is part of
\* user and nice time.
HostSeries(p) ==
  {S("system.cpu.time", "s", "counter", "f", "state", "user", p.cpu.user),
   S("system.cpu.time", "s", "counter", "f", "state", "system", p.cpu.system),
   S("system.cpu.time", "s", "counter", "f", "state", "idle", p.cpu.idle),
   S("system.cpu.time", "s", "counter", "f", "state", "other",
     p.cpu.nice + p.cpu.iowait + p.cpu.irq + p.cpu.softirq + p.cpu.steal),
   S("system.memory.usage", "By", "updown", "i", "state", "used", p.used),
   S("system.memory.usage", "By", "updown", "i", "state", "available", p.avail),
   \* in units of the total
   S("system.memory.utilization", "", "gauge", "f", "state", "used", p.used),
   S("system.memory.utilization", "", "gauge", "f", "state", "available", p.avail),
   S("system.network.io", "By", "counter", "i", "direction", "transmit", p.tx),
   S("system.network.io", "By", "counter", "i", "direction", "receive", p.rx)}
Source(p) == src' = p /\ UNCHANGED last
\* all series, or none and an error when a source cannot be read
HostCollect(out, errs) ==
  /\ IF src.broken THEN out = <<>> /\ errs >= 1
     ELSE NoDup(out) /\ Range(out) = HostSeries(src) /\ errs = 0
  /\ UNCHANGED biVars

\* ---- runtime ----
RuntimeScope == "otel-launcher-go/runtime"
Prefixed(s, p) == Len(s) > Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, p) == SubSeq(s, Len(p) + 1, Len(s))
\* families of classes: prefix, unit, kind and the name they go by
Families == {
  [p |-> <<"cpu", "classes">>, unit |-> "cpu-seconds", kind |-> "counter", n |-> <<"cpu", "time">>],
  [p |-> <<"gc", "cycles">>, unit |-> "gc-cycles", kind |-> "counter", n |-> <<"gc", "cycles">>],
  [p |-> <<"memory", "classes">>, unit |-> "bytes", kind |-> "updown", n |-> <<"memory", "usage">>],
  [p |-> <<"gc", "scan">>, unit |-> "bytes", kind |-> "updown", n |-> <<"gc", "scan">>]}
\* metrics of which there is one
Single == {
  <<<<"cgo", "go-to-c-calls">>, "calls", "counter">>, <<<<"gc", "heap", "tiny", "allocs">>, "objects", "counter">>,
  <<<<"sync", "mutex", "wait", "total">>, "seconds", "counter">>, <<<<"gc", "gogc">>, "percent", "gauge">>,
  <<<<"gc", "gomemlimit">>, "bytes", "gauge">>, <<<<"gc", "heap", "goal">>, "bytes", "gauge">>,
  <<<<"gc", "heap", "live">>, "bytes", "gauge">>, <<<<"gc", "limiter", "last-enabled">>, "gc-cycle", "gauge">>,
  <<<<"gc", "stack", "starting-size">>, "bytes", "gauge">>, <<<<"sched", "gomaxprocs">>, "threads", "gauge">>,
  <<<<"gc", "heap", "objects">>, "objects", "updown">>, <<<<"sched", "goroutines">>, "goroutines", "updown">>}
\* the same quantity in bytes and objects
Pairs == {<<"gc", "heap", "allocs">>, <<"gc", "heap", "frees">>}
Histograms == {<<"gc", "heap", "allocs-by-size">>, <<"gc", "heap", "frees-by-size">>, <<"gc", "pauses">>, <<"sched", "latencies">>,
  <<"sched", "pauses", "stopping", "gc">>, <<"sched", "pauses", "stopping", "other">>, <<"sched", "pauses", "total", "gc">>, <<"sched", "pauses", "total", "other">>}
Unit(u) == CASE u = "bytes" -> "By" [] u = "seconds" -> "s" [] OTHER -> "{" \o u \o "}"
ClassKey(i) == IF i = 1 THEN "class" ELSE "class" \o ToString(i)
FamiliesOf(d) == {f \in Families : Prefixed(d.segs, f.p) /\ d.unit = f.unit}
\* "series", "skip" or "error", and the series
Mapped(d) ==
  LET fam == FamiliesOf(d)
      one == {x \in Single : x[1] = d.segs /\ x[2] = d.unit}
      num == d.kind \in {"i", "f"}
      made(n, unit, kind, attrs) ==
        IF num THEN [do |-> "series", n |-> n, unit |-> unit, kind |-> kind, attrs |-> attrs] ELSE [do |-> "error"]
  IN CASE fam # {} ->
            LET f == CHOOSE x \in fam : TRUE
                cl == Rest(d.segs, f.p)
            IN IF cl[Len(cl)] = "total" THEN [do |-> "skip"]
               ELSE made(f.n, Unit(f.unit), f.kind, [i \in 1..Len(cl) |-> [k |-> ClassKey(i), v |-> cl[i]]])
       [] one # {} -> LET x == CHOOSE y \in one : TRUE IN made(x[1], Unit(x[2]), x[3], <<>>)
       [] d.segs \in Pairs /\ d.unit = "bytes" -> made(d.segs, "By", "counter", <<>>)
       [] d.segs \in Pairs /\ d.unit = "objects" -> made(Append(d.segs, "objects"), "", "counter", <<>>)
       [] d.segs \in Histograms -> [do |-> IF d.kind = "hist" THEN "skip" ELSE "error"]
       [] Prefixed(d.segs, <<"godebug", "non-default-behavior">>) /\ d.unit = "events" -> [do |-> "skip"]
       [] OTHER -> [do |-> "error"]
RuntimeSeries(list, vals) ==
  {[segs |-> Mapped(list[i]).n, unit |-> Mapped(list[i]).unit, kind |-> Mapped(list[i]).kind, num |-> list[i].kind,
    attrs |-> Mapped(list[i]).attrs, scope |-> RuntimeScope, v |-> vals[i]] :
     i \in {j \in 1..Len(list) : Mapped(list[j]).do = "series"}}
All(list) == src' = [list |-> list, vals |-> <<>>] /\ UNCHANGED last
RuntimeStarted(errs) ==
  errs = Cardinality({i \in 1..Len(src.list) : Mapped(src.list[i]).do = "error"}) /\ UNCHANGED biVars
Values(v) == src' = [src EXCEPT !.vals = v] /\ UNCHANGED last
IsRuntime(out, vals) ==
  /\ Len(out) = Cardinality({i \in 1..Len(src.list) : Mapped(src.list[i]).do = "series"})
  /\ {[segs |-> o.segs, unit |-> o.unit, kind |-> o.kind, num |-> o.num, attrs |-> o.attrs, scope |-> o.scope, v |-> o.v] : o \in Range(out)}
       = RuntimeSeries(src.list, vals)
RuntimeCollect(out, errs) == IsRuntime(out, src.vals) /\ errs = 0 /\ UNCHANGED biVars
\* Two readers at once: each is given one of the two readings, entire.
RuntimeBoth(va, vb, oa, ob, errs) ==
  /\ (IsRuntime(oa, va) /\ IsRuntime(ob, vb)) \/ (IsRuntime(oa, vb) /\ IsRuntime(ob, va))
  /\ errs = 0
  /\ UNCHANGED biVars

\* ---- cputime ----
CpuScope == "otel_launcher_go/cputime"
CpuSeries(s) == [n |-> IF s = "up" THEN "process.uptime" ELSE "process.cpu.time", unit |-> "s", num |-> "f", scope |-> CpuScope,
                 kind |-> IF s = "up" THEN "updown" ELSE "counter",
                 attrs |-> IF s = "up" THEN <<>> ELSE <<[k |-> "state", v |-> s]>>]
Slack == 2                  \* microseconds, of rounding
InitSlack == 60 * 1000000   \* the process may have begun this long before the program
\* within what the source said before and after
IsCpu(o, s) == \A f \in DOMAIN CpuSeries(s) : o[f] = CpuSeries(s)[f]
CpuCollect(lo, hi, out, errs) ==
  /\ errs = 0 /\ Len(out) = 3
  /\ \A s \in {"user", "system", "up"} : \E o \in Range(out) : IsCpu(o, s)
  /\ last' = [s \in {"user", "system", "up"} |-> (CHOOSE o \in Range(out) : IsCpu(o, s)).v]
  /\ \A s \in {"user", "system", "up"} :
       /\ last'[s] >= lo[s] - Slack
       /\ last'[s] <= hi[s] + Slack + (IF s = "up" THEN InitSlack ELSE 0)
       /\ last'[s] >= last[s] - Slack
  /\ UNCHANGED src
=============================================================================
