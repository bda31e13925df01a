-------------------------- MODULE MetricConcTrace --------------------------
(***************************************************************************)
(* Recorded executions of the Go SDK, checked against MetricAPI.  Every    *)
(* line of the trace file is one execution; a state without successor      *)
(* (deadlock) is an event the specification does not allow.                *)
(***************************************************************************)
EXTENDS MetricAPI, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, cbs, runs

vars == <<apiVars, tid, l, cbs, runs>>

T == Traces[tid]
Ev == T.ev[l]
AllSeries(t) == {<<Traces[t].ev[j].k, Traces[t].ev[j].g>> :
                   j \in {n \in 1..Len(Traces[t].ev) : Traces[t].ev[n].e = "mi"}}

Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ APIInit([streams |-> Traces[tid].streams, instlim |-> Traces[tid].instlim,
              inactive |-> Traces[tid].inactive], AllSeries(tid))
  /\ cbs = <<>>
  /\ runs = {}

Is(e) == l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

TInvoke == /\ Is("mi")
           /\ Invoke([id |-> Ev.id, i |-> Ev.i, k |-> Ev.k, g |-> Ev.g])
           /\ UNCHANGED <<cbs, runs>>
TReturn == Is("mr") /\ Return(Ev.id) /\ UNCHANGED <<cbs, runs>>

(***************************************************************************)
(* Callbacks.  cbs[n] is the state of the n-th registration:               *)
(*   reg:  "inv" | "done" | "fail"                                         *)
(*   unr:  "no" | "inv" | "done"                                           *)
(* A collection runs each callback at most once; it must run those whose   *)
(* registration returned before it started and whose unregistration was    *)
(* not invoked before it ended, and must not run those unregistered before *)
(* it started.                                                             *)
(***************************************************************************)
IsCb == T.fam = "cb"
TRegInv == /\ Is("ri") /\ Ev.cb = Len(cbs) + 1
           /\ cbs' = Append(cbs, [reg |-> "inv", unr |-> "no", ok |-> 0])
           /\ UNCHANGED <<apiVars, runs>>
TRegRet == /\ Is("rr") /\ Ev.ok /\ cbs[Ev.cb].reg = "inv"
           /\ cbs' = [cbs EXCEPT ![Ev.cb].reg = "done"]
           /\ UNCHANGED <<apiVars, runs>>
TUnrInv == /\ Is("ui") /\ cbs[Ev.cb].reg = "done"
           /\ cbs' = [cbs EXCEPT ![Ev.cb].unr = IF @ = "no" THEN "inv" ELSE @]
           /\ UNCHANGED <<apiVars, runs>>
\* exactly one Unregister call succeeds; a failing one implies an earlier or concurrent one
TUnrRet == /\ Is("ur")
           /\ IF Ev.ok THEN cbs[Ev.cb].ok = 0 ELSE TRUE
           /\ cbs' = [cbs EXCEPT ![Ev.cb].unr = "done",
                                 ![Ev.cb].ok = IF Ev.ok THEN 1 ELSE @]
           /\ UNCHANGED <<apiVars, runs>>
\* runs: [c, done, forbid, must] per collection under way
TCallback ==
  /\ Is("cb")
  /\ \E u \in runs : /\ u.c = Ev.c
                     /\ Ev.cb \notin u.done /\ Ev.cb \notin u.forbid
                     /\ runs' = (runs \ {u}) \cup {[u EXCEPT !.done = @ \cup {Ev.cb}]}
  /\ UNCHANGED <<apiVars, cbs>>

TCollectStart ==
  /\ Is("ci") /\ CollectStart(Ev.c, Ev.r)
  /\ runs' = runs \cup {[c |-> Ev.c, done |-> {},
                         forbid |-> {n \in 1..Len(cbs) : cbs[n].unr = "done" /\ cbs[n].ok = 1},
                         must |-> {n \in 1..Len(cbs) : cbs[n].reg = "done" /\ cbs[n].unr = "no"}]}
  /\ UNCHANGED cbs

\* The reader's instruments, each exactly once.
NamesOK(r) == \A s \in OfReader(r) :
                LET n == Cardinality({j \in 1..Len(Ev.names) : Ev.names[j] = Strm(s).name})
                IN IF T.late THEN n <= 1 /\ (n = 0 => \A o \in open : o.c = Ev.c => FeedIds(s) \cap o.must = {}) ELSE n = 1

TCollectEnd ==
  /\ Is("cr") /\ ~IsCb
  /\ NamesOK(Ev.r)
  /\ CollectEnd(Ev.c, Ev.pts)
  /\ runs' = {u \in runs : u.c # Ev.c}
  /\ UNCHANGED cbs

\* Observations: one point per callback that ran, with the value it observed.
TCbCollectEnd ==
  /\ Is("cr") /\ IsCb
  /\ NamesOK(Ev.r)
  /\ \E u \in runs :
       /\ u.c = Ev.c
       /\ \A n \in u.must : cbs[n].unr = "no" => n \in u.done
       /\ \A s \in OfReader(Ev.r) :
            LET P == {j \in 1..Len(Ev.pts) : Ev.pts[j].s = s}
            IN /\ {Ev.pts[j].k : j \in P} = u.done
               /\ \A j \in P : Ev.pts[j].ids = <<Ev.pts[j].k>>
               /\ Cardinality(P) = Cardinality(u.done)
       /\ runs' = runs \ {u}
  /\ open' = {o \in open : o.c # Ev.c}
  /\ UNCHANGED <<cfg, inv, ret, seen, ser, gst, cbs>>

TEnd == /\ Is("end") /\ Quiescent
        /\ \A n \in 1..Len(cbs) : cbs[n].unr = "done" => cbs[n].ok = 1
        /\ UNCHANGED <<apiVars, cbs, runs>>

Done == l > Len(T.ev) /\ UNCHANGED vars

Next == TInvoke \/ TReturn \/ TCollectStart \/ TCollectEnd \/ TCbCollectEnd
        \/ TRegInv \/ TRegRet \/ TUnrInv \/ TUnrRet \/ TCallback \/ TEnd \/ Done

Spec == Init /\ [][Next]_vars
=============================================================================
