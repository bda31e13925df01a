--------------------------- MODULE LauncherTrace ---------------------------
(* Recorded runs of the launcher and the pipelines, checked against Launcher. *)
EXTENDS Launcher, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, fat
vars == <<lnVars, tid, l, fat>>
T == Traces[tid]
Ev == T.ev[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ fat = <<>> /\ LnInit(Traces[tid].cfg)
Is(e) == l <= Len(T.ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
Same == UNCHANGED fat
TEnv == Is("env") /\ Env(Ev) /\ Same
TOpt == Is("opt") /\ Opt(Ev) /\ Same
TPipe == Is("pipe") /\ Pipe(Ev) /\ Same
TConf == Is("configured") /\ Configured(Ev.fatal, Ev.debug, Ev.same, Ev.builtin) /\ fat' = Ev.fatal
TConn == Is("conn") /\ Conn(Ev.srv, Ev.sec, Ev.ok) /\ Same
TProp == Is("prop") /\ Propagate(Ev.inj, Ev.ext, Ev.win, Ev.other) /\ Same
TRec == Is("rec") /\ Record(Ev) /\ Same
TReq == Is("req") /\ Request(Ev) /\ Same
TTick == Is("tick") /\ Tick /\ Same
TDown == Is("down") /\ Down /\ Same
TRet == Is("ret") /\ Returned(fat, Ev.fatal) /\ Same
TStuck == Is("stuck") /\ Stuck /\ Same
Done == l > Len(T.ev) /\ UNCHANGED vars
Next == TEnv \/ TOpt \/ TPipe \/ TConf \/ TConn \/ TProp \/ TRec \/ TReq \/ TTick \/ TDown \/ TRet \/ TStuck \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
