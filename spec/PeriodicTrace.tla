--------------------------- MODULE PeriodicTrace ---------------------------
(* Recorded executions of providers and periodic readers in virtual time, *)
(* checked against Periodic.                                               *)
EXTENDS Periodic, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<perVars, tid, l>>
T == Traces[tid]
Ev == T.ev[l]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ PerInit(Traces[tid].cfg)

Is(e) == l <= Len(T.ev) /\ Ev.e = e /\ Ev.t = now /\ l' = l + 1 /\ UNCHANGED tid
Set(s) == {s[i] : i \in 1..Len(s)}

TNewP == Is("pb") /\ NewProvider(Ev.p)
TRdyP == Is("pe") /\ ProviderReady(Ev.p)
TMulti == Is("multi") /\ MultiError(Ev.r)
TMeter == \/ Is("mb") /\ MeterBegin(Ev.p, Ev.k)
          \/ Is("me") /\ MeterEnd(Len(mt))
TAdd == Is("add") /\ Add(Ev.h, Ev.v)
TCol == Is("col") /\ ManualCollect(Ev.r, Ev.d)
TBegin == Is("xb") /\ CASE Ev.k = "export"   -> ExportBegin(Ev.r, Ev.cx, Ev.d, Ev.dur, Ev.obey)
                        [] Ev.k = "flush"    -> FlushBegin(Ev.r, Ev.cx.op, Ev.cx, Ev.d, Ev.dur, Ev.obey)
                        [] Ev.k = "shutdown" -> ShutdownBegin(Ev.r, Ev.cx.op, Ev.cx, Ev.d, Ev.dur, Ev.obey)
TEnd == Is("xe") /\ End(Ev.r, Ev.k, Ev.how, Ev.err, Ev.same)
TErr == Is("herr") /\ ExportError(Ev.r, Ev.err)
TCall == Is("call") /\ Call(Ev.op, Ev.k, Ev.p, Ev.r, Ev.dl)
TRet == Is("ret") /\ Return(Ev.op, Set(Ev.errs))
TEnd2 == Is("end") /\ UNCHANGED perVars
Step == Internal /\ UNCHANGED <<tid, l>>
TAdvance == /\ l <= Len(T.ev) /\ Ev.t > now
            /\ Advance(Min({Ev.t} \cup {rd[r].next : r \in Readers}))
            /\ UNCHANGED <<tid, l>>
\* A trace is accepted when some branch explains all of it.
Done == l > Len(T.ev) /\ PrintT(<<"ACC", tid>>) /\ UNCHANGED vars
\* progress, for reports about rejected traces
At == ("PROGRESS" \in DOMAIN IOEnv) => PrintT(<<"AT", l>>)

Next == TNewP \/ TRdyP \/ TMulti \/ TMeter \/ TAdd \/ TCol \/ TBegin \/ TEnd \/ TErr \/ TCall \/ TRet \/ TEnd2 \/ Step \/ TAdvance \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
