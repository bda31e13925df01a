---------------------------- MODULE ExportTrace ----------------------------
(* Recorded runs of the exporters against a backend, checked against Export. *)
EXTENDS Export, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<exVars, tid, l>>
T == Traces[tid]
Ev == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ExInit(Traces[tid].cfg)
Is(e) == l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
TCall == Is("call") /\ Call(Ev.id, Ev.in)
TReq == Is("req") /\ Receive(Ev.hd, Ev.enc, Ev.items)
TRet == Is("ret") /\ Return(Ev.id, Ev.state)
TObs == Is("self") /\ Observe(Ev.counts, Ev.other, Ev.spans, Ev.names)
TScrape == Is("scrape") /\ Scrape(Ev.want, Ev.got, Ev.state)
TDown == Is("down") /\ Down(Ev.npts, Ev.ok)
TMode == Is("mode") /\ Mode(Ev.m)
\* exporting leaves what is exported alone
TSame == Is("same") /\ Ev.was = Ev.is /\ UNCHANGED exVars
\* shutting down succeeds when the backend is well
TShut == Is("shut") /\ (Ev.ok \/ mode # "ok") /\ UNCHANGED exVars
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == TCall \/ TReq \/ TRet \/ TObs \/ TScrape \/ TDown \/ TMode \/ TSame \/ TShut \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
