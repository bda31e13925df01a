----------------------------- MODULE MCPeriodic -----------------------------
(* All behaviours of Periodic for small configurations: the guarantees     *)
(* that users rely on follow from the specified transitions.               *)
EXTENDS Periodic

CONSTANTS Two, Durs, MaxTime, MaxOps, MaxAdds
VARIABLES
  given,   \* reader -> key -> sum of what its exporter was given (delta) or last given (cumulative)
  sum,     \* reader -> what had been measured when its Shutdown was called
  fin,     \* reader -> number of final exporter calls
  nop, nadd
vars == <<perVars, given, sum, fin, nop, nadd>>

R(iv, to, delta) == [iv |-> iv, to |-> to, push |-> TRUE, delta |-> delta]
Config == IF Two THEN [rd |-> <<R(2, 3, FALSE), R(3, 3, TRUE)>>, pv |-> <<<<1, 2>>>>, nk |-> 1]
                 ELSE [rd |-> <<R(3, 2, TRUE)>>, pv |-> <<<<1>>>>, nk |-> 1]

Init == /\ PerInit(Config)
        /\ given = [r \in Readers |-> [k \in Keys |-> 0]]
        /\ sum = [r \in Readers |-> -1]
        /\ fin = [r \in Readers |-> 0]
        /\ nop = 0 /\ nadd = 0

Ghost == UNCHANGED <<given, sum, fin, nop, nadd>>
Give(r) == given' = [given EXCEPT ![r] = [k \in Keys |-> IF cfg.rd[r].delta THEN @[k] + Expected(r)[k] ELSE Expected(r)[k]]]

Setup == \/ /\ pv[1].st = "none" /\ NewProvider(1) /\ Ghost
         \/ /\ ProviderReady(1) /\ Ghost
         \/ /\ pv[1].st \in {"on", "shut"} /\ Len(mt) < 1 /\ MeterBegin(1, 1) /\ Ghost
         \/ /\ Len(mt) > 0 /\ mt[1] < 0 /\ MeterEnd(1) /\ Ghost
DoAdd == /\ nadd < MaxAdds /\ Len(mt) = 1 /\ mt[1] >= 0 /\ Add(1, 1)
         /\ nadd' = nadd + 1 /\ UNCHANGED <<given, sum, fin, nop>>
DoCall == /\ nop < MaxOps /\ pv[1].st \in {"on", "shut"}
          /\ \E kind \in {"flush", "shutdown"}, dl \in {Inf, now + 1}, p \in {0, 1} :
               /\ Call(nop + 1, kind, p, 1, dl)
               /\ sum' = IF kind = "flush" \/ pv[1].st = "shut" THEN sum
                         ELSE [r \in Readers |-> IF sum[r] < 0 /\ (p = 1 \/ r = 1) THEN tot[1] ELSE sum[r]]
          /\ nop' = nop + 1 /\ UNCHANGED <<given, fin, nadd>>
DoBegin == \E r \in Readers, dur \in Durs, obey \in BOOLEAN :
             /\ Give(r)
             /\ \/ \E e \in {"none", "canceled", "deadline"} :
                     ExportBegin(r, [op |-> 0, dl |-> rd[r].at + cfg.rd[r].to, err |-> e], Expected(r), dur, obey) /\ UNCHANGED fin
                \/ \E op \in DOMAIN ops, e \in {"none", "deadline"} :
                     \/ FlushBegin(r, op, [op |-> op, dl |-> ops[op].dl, err |-> e], Expected(r), dur, obey) /\ UNCHANGED fin
                     \/ ShutdownBegin(r, op, [op |-> op, dl |-> ops[op].dl, err |-> e], Expected(r), dur, obey)
                        /\ fin' = [fin EXCEPT ![r] = @ + 1]
             /\ UNCHANGED <<sum, nop, nadd>>
DoEnd == \E r \in Readers, how \in {"slept", "canceled", "deadline"} :
           End(r, rd[r].x.busy, how, IF how = "slept" THEN 0 ELSE 2, TRUE) /\ Ghost
DoErr == \E r \in Readers : ExportError(r, 2) /\ Ghost
DoRet == \E op \in DOMAIN ops : Return(op, ops[op].errs) /\ Ghost
DoAdvance == now < MaxTime /\ Advance(now + 1) /\ Ghost
DoInternal == Internal /\ Ghost
Next == Setup \/ DoAdd \/ DoCall \/ DoBegin \/ DoEnd \/ DoErr \/ DoRet \/ DoAdvance \/ DoInternal
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
FinalOnce == \A r \in Readers : fin[r] <= 1 /\ (rd[r].shut => fin[r] = 1)
\* nothing is given twice, and the exporter has had everything measured
\* before Shutdown once the reader is shut down
Conserved == \A r \in Readers, k \in Keys : given[r][k] <= tot[k] /\ (cfg.rd[r].delta => given[r][k] = rd[r].base[k])
FinalComplete == \A r \in Readers : rd[r].shut /\ sum[r] >= 0 => given[r][1] >= sum[r]
\* exports are never further apart than interval + what occupied the reader
NotStuck == Urgent \/ now >= MaxTime \/ ENABLED Advance(now + 1)
\* once a provider is shut down and no call is in progress, no reader runs
AllStopped == (pv[1].st = "shut" /\ \A op \in DOMAIN ops : ops[op].p = 0 \/ ops[op].kind = "flush")
                => \A r \in Readers : rd[r].loop = "done"
UrgentPossible == Urgent => ENABLED (DoInternal \/ DoBegin \/ DoEnd \/ DoErr \/ DoRet \/ Setup)
=============================================================================
