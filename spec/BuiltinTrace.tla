---------------------------- MODULE BuiltinTrace ----------------------------
(* Recorded runs of the builtin instrumentation, checked against Builtin. *)
EXTENDS Builtin, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<biVars, tid, l>>
T == Traces[tid]
Ev == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ src = <<>> /\ last = [user |-> 0, system |-> 0, up |-> 0]
Is(e) == l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
TProc == Is("proc") /\ Source(Ev)
THost == Is("host") /\ HostCollect(Ev.out, Ev.errs)
TAll == Is("all") /\ All(Ev.list)
TStart == Is("started") /\ IF T.fam = "runtime" THEN RuntimeStarted(Ev.errs) ELSE Ev.errs = 0 /\ UNCHANGED biVars
TVals == Is("vals") /\ Values(Ev.vals)
TRun == Is("runtime") /\ RuntimeCollect(Ev.out, Ev.errs)
TBoth == Is("both") /\ RuntimeBoth(Ev.va, Ev.vb, Ev.oa, Ev.ob, Ev.errs)
TCpu == Is("cpu") /\ CpuCollect(Ev.lo, Ev.hi, Ev.out, Ev.errs)
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == TProc \/ THost \/ TAll \/ TStart \/ TVals \/ TRun \/ TBoth \/ TCpu \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
