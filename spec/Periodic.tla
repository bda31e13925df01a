------------------------------ MODULE Periodic ------------------------------
(* Lifecycle of meter providers and of their readers, in real time.       *)
(*                                                                         *)
(* Periodic (push) readers collect and export at every tick of their       *)
(* interval, on ForceFlush and on Shutdown; manual readers collect when    *)
(* asked to.  Exporters, callers and the clock are the environment.  Time  *)
(* is in abstract units; computation takes none, so time only passes       *)
(* (Advance) when nothing that must happen now is left to do.              *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,   \* rd : readers [iv, to, push, delta]; pv : the readers given to each provider; nk : number of meter keys
  now,
  rd,    \* reader -> its state
  pv,    \* provider -> state and registration errors still to be reported
  ops,   \* calls in progress: id -> [kind, rem, errs, st, dl]
  tot,   \* meter key -> sum of the measurements made
  mt     \* handles obtained from Meter: meter key, or 0 for a no-op
perVars == <<cfg, now, rd, pv, ops, tot, mt>>

Readers == 1..Len(cfg.rd)
Keys == 1..cfg.nk
Inf == 1000000000
Push(r) == cfg.rd[r].push

Idle == [busy |-> "no", op |-> 0, start |-> 0, until |-> 0, dl |-> Inf, obey |-> FALSE]
NewReader == [owner |-> 0, next |-> Inf, pend |-> FALSE, loop |-> "off", at |-> 0, err |-> 0,
              stopped |-> FALSE, shut |-> FALSE, x |-> Idle, base |-> <<>>]

PerInit(c) ==
  /\ cfg = c
  /\ now = 0
  /\ rd = [r \in 1..Len(c.rd) |-> [NewReader EXCEPT !.base = [k \in 1..c.nk |-> 0]]]
  /\ pv = [p \in 1..Len(c.pv) |-> [st |-> "none", multi |-> {}]]
  /\ ops = [i \in {} |-> 0]
  /\ tot = [k \in 1..c.nk |-> 0]
  /\ mt = <<>>

-----------------------------------------------------------------------------
(* What a collection by reader r gives: for each meter of its provider     *)
(* everything (cumulative) or what is new (delta).                          *)
KeyOwner(k) == ((k - 1) \div (cfg.nk \div Len(cfg.pv))) + 1
Expected(r) == [k \in Keys |-> IF rd[r].owner # KeyOwner(k) THEN 0
                               ELSE tot[k] - (IF cfg.rd[r].delta THEN rd[r].base[k] ELSE 0)]

(* Providers *)
NewProvider(p) ==
  LET rs == {cfg.pv[p][i] : i \in 1..Len(cfg.pv[p])} IN
  /\ pv[p].st = "none"
  /\ pv' = [pv EXCEPT ![p] = [st |-> "new", multi |-> {r \in rs : rd[r].owner # 0}]]
  /\ rd' = [r \in Readers |-> IF r \in rs /\ rd[r].owner = 0
              THEN [rd[r] EXCEPT !.owner = p,
                                 !.next = IF Push(r) THEN now + cfg.rd[r].iv ELSE Inf,
                                 !.loop = IF Push(r) THEN "idle" ELSE "off"]
              ELSE rd[r]]
  /\ UNCHANGED <<cfg, now, ops, tot, mt>>

\* A reader has one provider: the second registration is reported and ignored.
MultiError(r) ==
  /\ \E p \in 1..Len(pv) : /\ r \in pv[p].multi
                           /\ pv' = [pv EXCEPT ![p].multi = @ \ {r}]
  /\ UNCHANGED <<cfg, now, rd, ops, tot, mt>>
ProviderReady(p) ==
  /\ pv[p].st = "new" /\ pv[p].multi = {}
  /\ pv' = [pv EXCEPT ![p].st = "on"]
  /\ UNCHANGED <<cfg, now, rd, ops, tot, mt>>

(* Meters: a no-op once the provider is shut down.  A call that overlaps   *)
(* the shutdown may get either.                                             *)
MeterBegin(p, k) ==
  /\ KeyOwner(k) = p
  /\ mt' = Append(mt, IF pv[p].st = "shut" THEN 0 ELSE -k)
  /\ UNCHANGED <<cfg, now, rd, pv, ops, tot>>
MeterEnd(h) ==
  /\ \/ mt[h] <= 0 /\ mt' = [mt EXCEPT ![h] = -@]
     \/ mt[h] < 0 /\ pv[KeyOwner(-mt[h])].st = "shut" /\ mt' = [mt EXCEPT ![h] = 0]
  /\ UNCHANGED <<cfg, now, rd, pv, ops, tot>>
Add(h, v) ==
  /\ mt[h] >= 0
  /\ tot' = IF mt[h] = 0 THEN tot ELSE [tot EXCEPT ![mt[h]] = @ + v]
  /\ UNCHANGED <<cfg, now, rd, pv, ops, mt>>

(* Manual readers collect at any time, before and after shutdown. *)
ManualCollect(r, data) ==
  /\ ~Push(r) /\ rd[r].owner # 0
  /\ data = Expected(r)
  /\ rd' = [rd EXCEPT ![r].base = tot]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>

-----------------------------------------------------------------------------
(* The periodic loop of a push reader *)
Tick(r) ==
  /\ rd[r].next = now
  /\ rd' = [rd EXCEPT ![r].next = now + cfg.rd[r].iv, ![r].pend = TRUE]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>
Take(r) ==
  /\ rd[r].loop = "idle" /\ rd[r].pend
  /\ rd' = [rd EXCEPT ![r].loop = "want", ![r].pend = FALSE, ![r].at = now]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>
Leave(r) ==
  /\ rd[r].loop = "idle" /\ rd[r].stopped
  /\ rd' = [rd EXCEPT ![r].loop = "done", ![r].next = Inf, ![r].pend = FALSE]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>

(* Exporter calls.  `ctx` is what the exporter finds in its context: whose *)
(* it is, its deadline, and whether it has ended; `dur` and `obey` say      *)
(* what the exporter will do.                                               *)
CtxErrs(stop, dl) == (IF stop THEN {"canceled"} ELSE {}) \cup (IF now >= dl THEN {"deadline"} ELSE {})
                     \cup (IF ~stop /\ now <= dl THEN {"none"} ELSE {})
Begin(r, kind, op, dl, stop, ctx, data, dur, obey) ==
  /\ rd[r].x = Idle /\ ~rd[r].shut
  /\ ctx.op = op /\ ctx.dl = dl /\ ctx.err \in CtxErrs(stop, dl)
  /\ data = Expected(r)
  /\ rd' = [rd EXCEPT ![r].base = tot,
                      ![r].x = [busy |-> kind, op |-> op, start |-> now, until |-> now + dur, dl |-> dl, obey |-> obey],
                      ![r].loop = IF kind = "export" THEN "run" ELSE @,
                      ![r].shut = kind = "shutdown"]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>

ExportBegin(r, ctx, data, dur, obey) ==
  /\ rd[r].loop = "want"
  /\ Begin(r, "export", 0, rd[r].at + cfg.rd[r].to, rd[r].stopped, ctx, data, dur, obey)
FlushBegin(r, op, ctx, data, dur, obey) ==
  /\ op \in DOMAIN ops /\ ops[op].kind = "flush" /\ ops[op].st = "go" /\ r \in ops[op].rem
  /\ Begin(r, "flush", op, ops[op].dl, FALSE, ctx, data, dur, obey)
ShutdownBegin(r, op, ctx, data, dur, obey) ==
  /\ op \in DOMAIN ops /\ ops[op].kind = "shutdown" /\ ops[op].st = "go" /\ r \in ops[op].rem
  /\ rd[r].loop = "done"
  /\ Begin(r, "shutdown", op, ops[op].dl, FALSE, ctx, data, dur, obey)

\* The exporter returns: because its work is done or, if it obeys its
\* context, because that ended.  same: its data stayed as it was given.
End(r, kind, how, err, same) ==
  LET x == rd[r].x IN
  /\ x # Idle /\ x.busy = kind /\ same
  /\ CASE how = "slept"    -> now = x.until
       [] how = "canceled" -> x.obey /\ kind = "export" /\ rd[r].stopped
       [] how = "deadline" -> x.obey /\ now >= x.dl
  /\ rd' = [rd EXCEPT ![r].x = Idle,
                      ![r].loop = IF kind = "export" THEN (IF err = 0 THEN "idle" ELSE "report") ELSE @,
                      ![r].err = IF kind = "export" THEN err ELSE @]
  /\ ops' = IF kind = "export" THEN ops
            ELSE [ops EXCEPT ![x.op].rem = @ \ {r}, ![x.op].errs = IF err = 0 THEN @ ELSE @ \cup {err}]
  /\ UNCHANGED <<cfg, now, pv, tot, mt>>

\* Nobody waits for a periodic export, so its error goes to the handler.
ExportError(r, err) ==
  /\ rd[r].loop = "report" /\ rd[r].err = err
  /\ rd' = [rd EXCEPT ![r].loop = "idle", ![r].err = 0]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>

-----------------------------------------------------------------------------
(* Calls.  Those of a provider (p > 0) reach all its readers. *)
Targets(rs) == {r \in rs : Push(r)}
Call(op, kind, p, r, dl) ==
  /\ op \notin DOMAIN ops
  /\ LET rs == IF p > 0 THEN {cfg.pv[p][i] : i \in 1..Len(cfg.pv[p])} ELSE {r}
         o == [kind |-> kind, p |-> p, rem |-> Targets(rs), errs |-> {}, dl |-> dl,
               st |-> IF kind = "shutdown" /\ p > 0 THEN "check" ELSE "go"]
     IN ops' = [i \in DOMAIN ops \cup {op} |-> IF i = op THEN o ELSE ops[i]]
  /\ UNCHANGED <<cfg, now, rd, pv, tot, mt>>

Already == 1   \* the error of using what is shut down
\* Only the first Shutdown of a provider goes on to its readers.
CheckShut(op) ==
  /\ ops[op].st = "check"
  /\ IF pv[ops[op].p].st = "shut"
     THEN /\ ops' = [ops EXCEPT ![op].st = "go", ![op].rem = {}, ![op].errs = {Already}]
          /\ UNCHANGED pv
     ELSE /\ ops' = [ops EXCEPT ![op].st = "go"]
          /\ pv' = [pv EXCEPT ![ops[op].p].st = "shut"]
  /\ UNCHANGED <<cfg, now, rd, tot, mt>>
Stop(op, r) ==
  /\ ops[op].kind = "shutdown" /\ ops[op].st = "go" /\ r \in ops[op].rem
  /\ ~rd[r].stopped /\ rd[r].owner # 0
  /\ rd' = [rd EXCEPT ![r].stopped = TRUE]
  /\ UNCHANGED <<cfg, now, pv, ops, tot, mt>>
\* The exporter of a reader that was shut down is not called again.
Refuse(op, r) ==
  /\ ops[op].st = "go" /\ r \in ops[op].rem /\ rd[r].shut /\ rd[r].x = Idle
  /\ ops' = [ops EXCEPT ![op].rem = @ \ {r}, ![op].errs = @ \cup {Already}]
  /\ UNCHANGED <<cfg, now, rd, pv, tot, mt>>
Return(op, errs) ==
  /\ op \in DOMAIN ops /\ ops[op].st = "go" /\ ops[op].rem = {}
  /\ errs = ops[op].errs
  /\ ops' = [i \in DOMAIN ops \ {op} |-> ops[i]]
  /\ UNCHANGED <<cfg, now, rd, pv, tot, mt>>

Internal == \/ \E r \in Readers : Tick(r) \/ Take(r) \/ Leave(r)
            \/ \E op \in DOMAIN ops : CheckShut(op) \/ \E r \in ops[op].rem : Stop(op, r) \/ Refuse(op, r)

-----------------------------------------------------------------------------
(* Time *)
\* What must happen before time passes.
Urgent ==
  \/ \E r \in Readers :
       \/ rd[r].next <= now
       \/ rd[r].loop = "idle" /\ (rd[r].pend \/ rd[r].stopped)
       \/ rd[r].loop = "want" /\ rd[r].x = Idle
       \/ rd[r].loop = "report"
       \/ LET x == rd[r].x IN x # Idle /\ (x.until <= now \/ (x.obey /\ (x.dl <= now \/ (x.busy = "export" /\ rd[r].stopped))))
  \/ \E op \in DOMAIN ops :
       \/ ops[op].st = "check"
       \* a call waits only for a reader that is occupied, and a shutdown
       \* only for one that it told to stop
       \/ \A r \in ops[op].rem : rd[r].x = Idle \/ (ops[op].kind = "shutdown" /\ ~rd[r].stopped)
  \/ \E p \in 1..Len(pv) : pv[p].st = "new"
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Advance(t) ==
  /\ t > now /\ ~Urgent
  /\ t <= Min({rd[r].next : r \in Readers})
  /\ \A r \in Readers : LET x == rd[r].x IN x # Idle => t <= x.until /\ (x.obey => t <= x.dl)
  /\ now' = t
  /\ UNCHANGED <<cfg, rd, pv, ops, tot, mt>>

-----------------------------------------------------------------------------
(* Invariants of the specification *)
\* exporter calls of one reader exclude each other by construction of x;
\* nothing happens after the final call
ShutIsFinal == \A r \in Readers : rd[r].shut /\ rd[r].x = Idle => rd[r].loop = "done" /\ rd[r].stopped
\* a call that returned from Shutdown left nothing running
ShutStops == \A r \in Readers : rd[r].loop = "done" => rd[r].next = Inf /\ ~rd[r].pend
\* in progress at most one timely export
LoopBusy == \A r \in Readers : (rd[r].loop = "run") = (rd[r].x.busy = "export")
DeltaNeverNegative == \A r \in Readers : \A k \in Keys : rd[r].owner = KeyOwner(k) => rd[r].base[k] <= tot[k]
=============================================================================
