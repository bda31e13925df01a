----------------------------- MODULE SyncState -----------------------------
(***************************************************************************)
(* The algorithm for synchronous instruments, step by step: what           *)
(* internal/syncstate (records, reference counts, removal of idle          *)
(* records) and internal/viewstate (accumulators, snapshots, output        *)
(* entries and their counts of referring accumulators) do, with one action *)
(* per access to shared state.  One instrument, one stream per reader.     *)
(*                                                                         *)
(* Every behaviour is watched by MetricAPI: an update is an Invoke ..      *)
(* Return interval, a collection a CollectStart .. CollectEnd interval.    *)
(* EndOK says that whatever a collection is about to deliver is something  *)
(* MetricAPI allows, so a model without error is a refinement of           *)
(* MetricAPI in this configuration.                                        *)
(***************************************************************************)
EXTENDS MetricAPI, TLC

CONSTANTS
  Writers,   \* number of goroutines that measure
  Script,    \* <<keys>> per writer: the series it updates, in order
  Tempos,    \* temporality per reader, "d" or "c"
  Rounds,    \* number of collections, per reader
  Agg,       \* "sum" or "gauge"
  Filter,    \* "all": the view keeps the key; "none": it drops it
  ILim, VLim,\* cardinality limits of the instrument and of the view (0: none)
  Inact,     \* idle collections before a record is removed
  Bug        \* "none", or a deviation that the model has to notice

VARIABLES
  map,    \* currentFP: key -> record, 0 if absent
  recs,   \* records, in order of creation
  out,    \* [reader -> [key -> entry, 0 if absent]]
  ents,   \* output entries, in order of creation
  ilock,  \* the instrument's lock: 0, or the reader that scans
  olock,  \* [reader's stream -> 0 or the process] (instLock)
  w,      \* state of the writers
  c,      \* state of the readers
  gseq,   \* sequence numbers of gauge updates
  quiet   \* complete scans since the last step of a writer

ssVars == <<map, recs, out, ents, ilock, olock, w, c, gseq, quiet>>
vars == <<ssVars, apiVars>>

OV == 0
NR == Len(Tempos)
Readers == 1..NR
Keys == UNION {Range(Script[j]) : j \in 1..Writers}
Places == Keys \cup {OV}
OutPlaces == Places \cup {-1}
IdOf(p, n) == 10 * p + n
Ids == UNION {{IdOf(p, n) : n \in 1..Len(Script[p])} : p \in 1..Writers}

\* Storage: how often each measurement was counted, or <<id, sequence>>.
Zero == IF Agg = "sum" THEN [i \in Ids |-> 0] ELSE <<0, 0>>
Upd(v, id, q) == IF Agg = "sum" THEN [v EXCEPT ![id] = @ + 1] ELSE <<id, q>>
Mrg(a, b) == IF Agg = "sum" THEN [i \in Ids |-> a[i] + b[i]] ELSE IF a[2] > b[2] THEN a ELSE b
Changed(v) == v # Zero /\ (Agg = "gauge" => v[2] # 0)
RECURSIVE Rep(_, _)
Rep(S, v) == IF S = {} THEN <<>> ELSE LET i == SetMin(S) IN [n \in 1..v[i] |-> i] \o Rep(S \ {i}, v)
IdSeq(v) == IF Agg = "sum" THEN Rep(Ids, v) ELSE IF v[2] = 0 THEN <<>> ELSE <<v[1]>>

Count(f) == Cardinality({k \in DOMAIN f : f[k] # 0})
OutKey(k) == IF Filter = "all" THEN k ELSE -1

NewRec(k) == [key |-> k, rc |-> 1, unm |-> FALSE, upd |-> 0, coll |-> 0, idle |-> 0,
              init |-> "no", cur |-> [r \in Readers |-> Zero], ent |-> [r \in Readers |-> 0]]
NewEnt == [aux |-> 0, val |-> Zero]

WIdle(n) == [pc |-> "idle", n |-> n, k |-> 0, rec |-> 0, s |-> 0]
CIdle(n) == [pc |-> "idle", n |-> n, todo |-> {}, k |-> 0, mods |-> 0, s |-> 0, rel |-> FALSE,
             snap |-> Zero, refs |-> 0, got |-> Zero, pts |-> <<>>]

Cfg == [streams |-> [r \in Readers |-> [r |-> r, agg |-> Agg, tempo |-> Tempos[r], keys |-> Filter,
                                        insts |-> <<1>>, lim |-> VLim, name |-> "s"]],
        instlim |-> ILim, inactive |-> IF Inact > 9 THEN 50 ELSE Inact]

Init ==
  /\ APIInit(Cfg, {<<k, k>> : k \in Keys})
  /\ map = [k \in Places |-> 0] /\ recs = <<>>
  /\ out = [r \in Readers |-> [k \in OutPlaces |-> 0]] /\ ents = <<>>
  /\ ilock = 0 /\ olock = [r \in Readers |-> 0]
  /\ w = [p \in 1..Writers |-> WIdle(0)]
  /\ c = [r \in Readers |-> CIdle(0)]
  /\ gseq = 0 /\ quiet = 0

W(p, rec) == w' = [w EXCEPT ![p] = rec] /\ quiet' = 0
C(r, rec) == c' = [c EXCEPT ![r] = rec]
Id(p) == IdOf(p, w[p].n)
Full == ILim > 0 /\ Count(map) >= ILim - 1
Ref(x) == [recs EXCEPT ![x].rc = @ + 1]

-----------------------------------------------------------------------------
(* Writers *)

\* The call starts; the record is looked up with the lock held for reading.
WRead(p) ==
  /\ w[p].pc = "idle" /\ w[p].n < Len(Script[p]) /\ ilock = 0
  /\ LET n == w[p].n + 1
         k == Script[p][n]
         f == IF map[k] # 0 THEN k ELSE IF Full THEN OV ELSE k
     IN /\ Invoke([id |-> IdOf(p, n), i |-> 1, k |-> k, g |-> k])
        /\ IF map[f] # 0
           THEN recs' = Ref(map[f]) /\ W(p, [pc |-> "use", n |-> n, k |-> f, rec |-> map[f], s |-> 0])
           ELSE recs' = recs /\ W(p, [pc |-> "write", n |-> n, k |-> f, rec |-> 0, s |-> 0])
  /\ UNCHANGED <<map, out, ents, ilock, olock, c, gseq>>

\* Not found: looked up again and inserted with the lock held for writing.
WWrite(p) ==
  /\ w[p].pc = "write" /\ ilock = 0
  /\ LET k == IF map[w[p].k] = 0 /\ Full /\ Bug # "limit" THEN OV ELSE w[p].k
     IN IF map[k] # 0
        THEN /\ recs' = Ref(map[k]) /\ map' = map
             /\ W(p, [w[p] EXCEPT !.pc = "use", !.rec = map[k]])
        ELSE /\ recs' = Append(recs, NewRec(k))
             /\ map' = [map EXCEPT ![k] = Len(recs) + 1]
             /\ W(p, [w[p] EXCEPT !.pc = "use", !.rec = Len(recs) + 1])
  /\ UNCHANGED <<out, ents, ilock, olock, c, gseq, apiVars>>

\* The first user of a record creates its accumulators; the others wait.
WUse(p) ==
  /\ w[p].pc = "use"
  /\ LET x == w[p].rec
     IN CASE recs[x].init = "no"  -> recs' = [recs EXCEPT ![x].init = "by"] /\ W(p, [w[p] EXCEPT !.pc = "init", !.s = 1])
          [] recs[x].init = "yes" -> recs' = recs /\ W(p, [w[p] EXCEPT !.pc = "upd", !.s = 1])
          [] OTHER -> FALSE
  /\ UNCHANGED <<map, out, ents, ilock, olock, c, gseq, apiVars>>

\* Finds or creates the output entry of stream s (findStorage, getOrCreateEntry).
WInit(p) ==
  /\ w[p].pc = "init"
  /\ LET x == w[p].rec
         s == w[p].s
         k0 == OutKey(recs[x].key)
         sz == Count(out[s])
         k == IF out[s][k0] # 0 \/ VLim = 0 THEN k0
              ELSE IF sz >= VLim THEN OV
              ELSE IF sz = VLim - 1 /\ out[s][OV] = 0 THEN OV ELSE k0
         e == IF out[s][k] # 0 THEN out[s][k] ELSE Len(ents) + 1
         grown == IF out[s][k] # 0 THEN ents ELSE Append(ents, NewEnt)
     IN /\ olock[s] = 0
        /\ out' = [out EXCEPT ![s][k] = e]
        /\ ents' = IF Bug = "auxlate" THEN grown ELSE [grown EXCEPT ![e].aux = @ + 1]
        /\ recs' = [recs EXCEPT ![x].ent[s] = e, ![x].init = IF s = NR /\ Bug # "auxlate" THEN "yes" ELSE @]
        /\ W(p, [w[p] EXCEPT !.pc = IF Bug = "auxlate" THEN "aux" ELSE IF s = NR THEN "upd" ELSE "init",
                             !.s = IF Bug = "auxlate" THEN s ELSE IF s = NR THEN 1 ELSE s + 1])
  /\ UNCHANGED <<map, ilock, olock, c, gseq, apiVars>>

WAux(p) ==
  /\ w[p].pc = "aux"
  /\ LET x == w[p].rec
         s == w[p].s
     IN /\ ents' = [ents EXCEPT ![recs[x].ent[s]].aux = @ + 1]
        /\ recs' = [recs EXCEPT ![x].init = IF s = NR THEN "yes" ELSE @]
        /\ W(p, [w[p] EXCEPT !.pc = IF s = NR THEN "upd" ELSE "init", !.s = IF s = NR THEN 1 ELSE s + 1])
  /\ UNCHANGED <<map, out, ilock, olock, c, gseq, apiVars>>

\* The measurement enters the accumulators one after the other.
WUpdate(p) ==
  /\ w[p].pc = "upd"
  /\ LET x == w[p].rec
         s == w[p].s
     IN /\ recs' = [recs EXCEPT ![x].cur[s] = Upd(@, Id(p), gseq + 1)]
        /\ gseq' = IF Agg = "gauge" THEN gseq + 1 ELSE 0
        /\ W(p, [w[p] EXCEPT !.pc = IF s = NR THEN (IF Bug = "unref" THEN "unref" ELSE "cnt") ELSE "upd", !.s = s + 1])
  /\ UNCHANGED <<map, out, ents, ilock, olock, c, apiVars>>

WCount(p) ==
  /\ w[p].pc = "cnt"
  /\ recs' = [recs EXCEPT ![w[p].rec].upd = @ + 1]
  /\ W(p, [w[p] EXCEPT !.pc = "unref"])
  /\ UNCHANGED <<map, out, ents, ilock, olock, c, gseq, apiVars>>

WUnref(p) ==
  /\ w[p].pc = "unref"
  /\ recs' = [recs EXCEPT ![w[p].rec].rc = @ - 1]
  /\ W(p, WIdle(w[p].n))
  /\ Return(Id(p))
  /\ UNCHANGED <<map, out, ents, ilock, olock, c, gseq>>

Write(p) == WRead(p) \/ WWrite(p) \/ WUse(p) \/ WInit(p) \/ WAux(p) \/ WUpdate(p) \/ WCount(p) \/ WUnref(p)

-----------------------------------------------------------------------------
(* Readers.  First the records are scanned with the lock held. *)

CStart(r) ==
  /\ c[r].pc = "idle" /\ c[r].n < Rounds[r] /\ ilock = 0
  /\ ilock' = r
  /\ C(r, [CIdle(c[r].n + 1) EXCEPT !.pc = "scan", !.todo = {k \in Places : map[k] # 0}])
  /\ CollectStart(10 * r + c[r].n + 1, r)
  /\ UNCHANGED <<map, recs, out, ents, olock, w, gseq, quiet>>

CRec(r) == map[c[r].k]
Next1(r) == [c[r] EXCEPT !.pc = "scan", !.k = 0, !.mods = 0, !.s = 0, !.rel = FALSE, !.snap = Zero]
Snap(r, m, rel) == [c[r] EXCEPT !.pc = "move", !.mods = m, !.s = 1, !.rel = rel]

\* conditionalCollect: is there anything new?
CScan(r) ==
  /\ c[r].pc = "scan" /\ c[r].k = 0
  /\ \E k \in c[r].todo :
       LET x == recs[map[k]]
           me == [c[r] EXCEPT !.k = k, !.todo = @ \ {k}]
       IN IF x.upd # x.coll
          THEN C(r, [me EXCEPT !.pc = "move", !.mods = x.upd, !.s = 1, !.rel = FALSE]) /\ recs' = [recs EXCEPT ![map[k]].idle = 0]
          ELSE IF x.idle + 1 < Inact
          THEN C(r, [me EXCEPT !.k = 0]) /\ recs' = [recs EXCEPT ![map[k]].idle = @ + 1]
          ELSE C(r, [me EXCEPT !.pc = "unmap"]) /\ recs' = [recs EXCEPT ![map[k]].idle = 0]
  /\ UNCHANGED <<map, out, ents, ilock, olock, w, gseq, quiet, apiVars>>

\* Idle long enough: unmap unless somebody refers to the record.
CUnmap(r) ==
  /\ c[r].pc = "unmap"
  /\ LET x == recs[CRec(r)]
     IN IF x.rc = 0 \/ Bug = "norc"
        THEN /\ recs' = [recs EXCEPT ![CRec(r)].unm = TRUE]
             /\ C(r, IF Bug = "lastcheck" THEN [c[r] EXCEPT !.pc = "drop"] ELSE [c[r] EXCEPT !.pc = "final"])
        ELSE recs' = recs /\ C(r, [c[r] EXCEPT !.pc = "again"])
  /\ UNCHANGED <<map, out, ents, ilock, olock, w, gseq, quiet, apiVars>>

\* The last snapshot of an unmapped record, or another look at a used one.
CFinal(r) ==
  /\ c[r].pc \in {"final", "again"}
  /\ LET x == recs[CRec(r)]
     IN C(r, IF c[r].pc = "final" THEN Snap(r, x.upd, TRUE)
             ELSE IF x.upd # x.coll THEN Snap(r, x.upd, FALSE) ELSE Next1(r))
  /\ UNCHANGED <<map, recs, out, ents, ilock, olock, w, gseq, quiet, apiVars>>

\* SnapshotAndProcess of each accumulator: move, merge, and at last release.
CMove(r) ==
  /\ c[r].pc = "move"
  /\ C(r, [c[r] EXCEPT !.pc = "merge", !.snap = recs[CRec(r)].cur[c[r].s]])
  /\ recs' = [recs EXCEPT ![CRec(r)].cur[c[r].s] = IF Agg = "sum" THEN Zero ELSE <<@[1], 0>>]
  /\ UNCHANGED <<map, out, ents, ilock, olock, w, gseq, quiet, apiVars>>

MoveNext(r) == IF c[r].s < NR THEN [c[r] EXCEPT !.pc = "move", !.s = @ + 1, !.snap = Zero]
               ELSE [c[r] EXCEPT !.pc = "drop", !.s = 0, !.rel = FALSE, !.snap = Zero]
CMerge(r) ==
  /\ c[r].pc = "merge"
  /\ LET e == recs[CRec(r)].ent[c[r].s]
     IN ents' = [ents EXCEPT ![e].val = Mrg(c[r].snap, @)]
  /\ C(r, IF c[r].rel THEN [c[r] EXCEPT !.pc = "release"] ELSE MoveNext(r))
  /\ UNCHANGED <<map, recs, out, ilock, olock, w, gseq, quiet, apiVars>>

CRelease(r) ==
  /\ c[r].pc = "release"
  /\ LET e == recs[CRec(r)].ent[c[r].s]
     IN ents' = [ents EXCEPT ![e].aux = @ - 1]
  /\ C(r, MoveNext(r))
  /\ UNCHANGED <<map, recs, out, ilock, olock, w, gseq, quiet, apiVars>>

\* What was counted is collected; an unmapped record leaves the map
\* (and what it holds is forgotten, to tell fewer states apart).
CDrop(r) ==
  /\ c[r].pc = "drop"
  /\ LET x == recs[CRec(r)]
     IN recs' = [recs EXCEPT ![CRec(r)].coll = IF x.unm /\ x.rc = 0 THEN 0 ELSE IF Bug = "modslate" THEN x.upd ELSE c[r].mods,
                             ![CRec(r)].upd = IF x.unm /\ x.rc = 0 THEN 0 ELSE @]
  /\ map' = IF recs[CRec(r)].unm THEN [map EXCEPT ![c[r].k] = 0] ELSE map
  /\ C(r, Next1(r))
  /\ UNCHANGED <<out, ents, ilock, olock, w, gseq, quiet, apiVars>>

\* Then the reader's stream is collected with the lock of the output held.
CScanned(r) ==
  /\ c[r].pc = "scan" /\ c[r].k = 0 /\ c[r].todo = {}
  /\ ilock' = 0 /\ quiet' = quiet + 1
  /\ C(r, [c[r] EXCEPT !.pc = "lock"])
  /\ UNCHANGED <<map, recs, out, ents, olock, w, gseq, apiVars>>

CLock(r) ==
  /\ c[r].pc = "lock" /\ olock[r] = 0
  /\ olock' = [olock EXCEPT ![r] = 1]
  /\ C(r, [c[r] EXCEPT !.pc = "out", !.todo = {k \in OutPlaces : out[r][k] # 0}])
  /\ UNCHANGED <<map, recs, out, ents, ilock, w, gseq, quiet, apiVars>>

Point(r, k, v) == [s |-> r, o |-> k = OV, k |-> IF k = OV THEN -2 ELSE k, g |-> IF k = OV THEN -2 ELSE k,
                   ids |-> IdSeq(v), ok |-> TRUE, cnt |-> 0, mn |-> 0, mx |-> 0]

\* Cumulative: copy.  Delta: note the references, then take the value.
COut(r) ==
  /\ c[r].pc = "out"
  /\ \E k \in c[r].todo :
       LET e == out[r][k]
           me == [c[r] EXCEPT !.todo = @ \ {k}]
       IN IF Tempos[r] = "c"
          THEN /\ C(r, [me EXCEPT !.pts = IF Agg = "sum" \/ Changed(ents[e].val) THEN Append(@, Point(r, k, ents[e].val)) ELSE @])
               /\ UNCHANGED ents
          ELSE IF Bug = "laterefs"
          THEN /\ C(r, [me EXCEPT !.pc = "refs", !.k = k, !.got = ents[e].val])
               /\ ents' = [ents EXCEPT ![e].val = IF Agg = "sum" THEN Zero ELSE <<@[1], 0>>]
          ELSE /\ C(r, [me EXCEPT !.pc = "take", !.k = k, !.refs = ents[e].aux])
               /\ UNCHANGED ents
  /\ UNCHANGED <<map, recs, out, ilock, olock, w, gseq, quiet, apiVars>>

CTake(r) ==
  /\ c[r].pc \in {"take", "refs"}
  /\ LET k == c[r].k
         e == out[r][k]
         v == IF c[r].pc = "take" THEN ents[e].val ELSE c[r].got
         refs == IF c[r].pc = "take" THEN c[r].refs ELSE ents[e].aux
     IN /\ ents' = IF c[r].pc = "refs" THEN ents ELSE [ents EXCEPT ![e].val = IF Agg = "sum" THEN Zero ELSE <<@[1], 0>>]
        /\ out' = IF ~Changed(v) /\ refs = 0 THEN [out EXCEPT ![r][k] = 0] ELSE out
        /\ C(r, [c[r] EXCEPT !.pc = "out", !.k = 0, !.refs = 0, !.got = Zero, !.pts = IF Changed(v) THEN Append(@, Point(r, k, v)) ELSE @])
  /\ UNCHANGED <<map, recs, ilock, olock, w, gseq, quiet, apiVars>>

Ready(r) == c[r].pc = "out" /\ c[r].todo = {}
CEnd(r) ==
  /\ Ready(r)
  /\ olock' = [olock EXCEPT ![r] = 0]
  /\ C(r, CIdle(c[r].n))
  /\ CollectEnd(10 * r + c[r].n, c[r].pts)
  /\ UNCHANGED <<map, recs, out, ents, ilock, w, gseq, quiet>>

Collect(r) == CStart(r) \/ CScan(r) \/ CUnmap(r) \/ CFinal(r) \/ CMove(r) \/ CMerge(r) \/ CRelease(r) \/ CDrop(r)
              \/ CScanned(r) \/ CLock(r) \/ COut(r) \/ CTake(r) \/ CEnd(r)

Next == (\E p \in 1..Writers : Write(p)) \/ (\E r \in Readers : Collect(r))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What is delivered is what MetricAPI allows.
EndOK == \A r \in Readers : Ready(r) => ENABLED CollectEnd(10 * r + c[r].n, c[r].pts)

\* A record that can be found without the lock is mapped and can be used.
Mapped == ilock = 0 => \A k \in Places : map[k] # 0 => ~recs[map[k]].unm
RefCount == \A x \in 1..Len(recs) : recs[x].rc = Cardinality({p \in 1..Writers : w[p].rec = x})
\* A snapshot is never taken of accumulators that do not exist.
Initialized == \A r \in Readers : c[r].pc = "move" => recs[CRec(r)].init = "yes"
\* The limits hold.
Limits == /\ ILim > 0 => Count(map) <= ILim
          /\ VLim > 0 => \A r \in Readers : Count(out[r]) <= VLim
\* An entry that is referred to is in the output.
NoLostEntry == \A x \in 1..Len(recs), s \in Readers :
                 recs[x].ent[s] # 0 /\ ~recs[x].unm => \E k \in OutPlaces : out[s][k] = recs[x].ent[s]
\* Memory is released: nobody measures and enough collections have passed.
\* (One scan may overlap the last measurement, one finds what it left.)
Freed == quiet > Inact + 1 /\ (\A p \in 1..Writers : w[p].pc = "idle") /\ ilock = 0 => \A k \in Places : map[k] = 0
\* Nobody waits for ever: some step is possible until the scripts are done.
Finished == (\A p \in 1..Writers : w[p].pc = "idle" /\ w[p].n = Len(Script[p])) /\ (\A r \in Readers : c[r].pc = "idle" /\ c[r].n = Rounds[r])
NoDeadlock == Finished \/ ENABLED Next
=============================================================================
