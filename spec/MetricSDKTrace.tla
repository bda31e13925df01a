--------------------------- MODULE MetricSDKTrace ---------------------------
(* Recorded sequential executions of the SDK, checked against MetricSDK.  *)
EXTENDS MetricSDK, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<sdkVars, tid, l>>
T == Traces[tid]
Ev == T.ev[l]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ SDKInit(Traces[tid].perf, Traces[tid].readers)

Is(e) == l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

TMeter == Is("meter") /\ NewMeter(Ev.lib) /\ Ev.id = (CHOOSE j \in 1..Len(meters') : meters'[j] = Ev.lib)

\* Two definitions are the same instrument exactly when they are equal.
FirstHandle(id) == CHOOSE j \in 1..Len(handles') : handles'[j] = id /\ \A q \in 1..(j - 1) : handles'[q] # id
TNew == /\ Is("new")
        /\ NewInstrument(Ev.m, Ev.d, Ev.hint, Ev.err, Ev.cbs)
        /\ handles'[Len(handles')] > 0 => Ev.same = FirstHandle(handles'[Len(handles')])
TMeasure == Is("m") /\ Ev.argsok /\ Measure(Ev.h, Ev.a, Ev.v, Ev.bad)
TReg == Is("reg") /\ Register(Ev.m, Ev.hs, Ev.bad, Ev.ok)
TUnreg == Is("unreg") /\ Unregister(Ev.c, Ev.ok)
TCollect == Is("col") /\ Collect(Ev.r, Ev.runs, Ev.errs, Ev.out, Ev.tb, Ev.ta, Ev.now)
\* earlier outputs do not change
TSame == Is("same") /\ Ev.ok /\ UNCHANGED sdkVars
Done == l > Len(T.ev) /\ UNCHANGED vars

Next == TMeter \/ TNew \/ TMeasure \/ TReg \/ TUnreg \/ TCollect \/ TSame \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
