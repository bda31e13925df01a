----------------------------- MODULE MetricSDK -----------------------------
(***************************************************************************)
(* The metrics SDK as one sequential state machine: meters, instruments,   *)
(* view compilation, measurement, attribute handling, cardinality limits,  *)
(* idle eviction, callbacks, and what a collection by each reader outputs. *)
(* Numbers are integers; measurements of float instruments are counted in  *)
(* quarters.  An attribute is [k, t, l]: key, type and the sequence of its *)
(* values as strings (one, unless a slice).                                *)
(***************************************************************************)
EXTENDS ViewCompile, TLC

VARIABLES
  perf,    \* [inactive, instlim, agglim, attrlim, ignorecol, proc]
  readers, \* sequence of reader configurations
  meters,  \* sequence of instrumentation scopes
  insts,   \* sequence of instruments
  leafs,   \* sequence of output streams, in order of creation
  handles, \* sequence of instrument ids (0: no reader uses it)
  cbs,     \* sequence of callback registrations
  last     \* per reader, [lo, hi] bounds of its previous collection time

sdkVars == <<perf, readers, meters, insts, leafs, handles, cbs, last>>

Empty == [x \in {} |-> 0]

SDKInit(p, rds) ==
  /\ perf = p
  /\ readers = rds
  /\ meters = <<>> /\ insts = <<>> /\ leafs = <<>> /\ handles = <<>> /\ cbs = <<>>
  /\ last = [r \in 1..Len(rds) |-> [lo |-> 0, hi |-> 0]]

NewMeter(lib) ==
  /\ meters' = IF \E j \in 1..Len(meters) : meters[j] = lib THEN meters ELSE Append(meters, lib)
  /\ UNCHANGED <<perf, readers, insts, leafs, handles, cbs, last>>
MeterId(lib) == CHOOSE j \in 1..Len(meters) : meters[j] = lib

---------------------------------------------------------------------------
\* Creating an instrument.

\* Adds behavior b of reader r to the streams; <<streams, id>>.
AddLeaf(ls, m, r, b) ==
  LET Same == {j \in 1..Len(ls) : ls[j].m = m /\ ls[j].r = r /\ SameStream(ls[j], b)}
  IN IF Same # {}
     THEN LET j == CHOOSE x \in Same : TRUE
          IN <<[ls EXCEPT ![j].desc = IF Len(b.desc) > Len(@) THEN b.desc ELSE @], j>>
     ELSE <<Append(ls, [m |-> m, r |-> r, name |-> b.name, desc |-> b.desc, unit |-> b.unit,
                        kind |-> b.kind, num |-> b.num, agg |-> b.agg, tempo |-> b.tempo,
                        mx |-> b.mx, lim |-> b.lim, haskeys |-> b.haskeys, keys |-> b.keys,
                        data |-> Empty, prior |-> Empty]),
            Len(ls) + 1>>

RECURSIVE AddAll(_, _, _, _)
\* acc = [ls, ids]: adds the behaviors bs = sequence of <<r, behavior>>.
AddAll(acc, m, bs, j) ==
  IF j > Len(bs) THEN acc
  ELSE LET a == AddLeaf(acc.ls, m, bs[j][1], bs[j][2])
       IN AddAll([ls |-> a[1], ids |-> acc.ids \cup {a[2]}], m, bs, j + 1)

RECURSIVE AllBehaviors(_, _, _, _)
AllBehaviors(m, d, h, r) ==
  IF r > Len(readers) THEN <<>>
  ELSE LET bs == Behaviors(readers[r], meters[m], d, h, perf.agglim)
       IN [j \in 1..Len(bs) |-> <<r, bs[j]>>] \o AllBehaviors(m, d, h, r + 1)

Conflicted(ls, m, bs) ==
  \E j \in 1..Len(bs) :
    \/ bs[j][2].err
    \/ Cardinality({x \in 1..Len(ls) : ls[x].m = m /\ ls[x].r = bs[j][1] /\ ls[x].name = bs[j][2].name}) > 1

ExistingInst(m, d) == {j \in 1..Len(insts) : insts[j].m = m /\ insts[j].d = d}

NewCbs(m, id, n) == [j \in 1..n |-> [m |-> m, insts |-> {id}, on |-> TRUE]]

\* err: whether a conflict is reported; n: callbacks given with the definition.
NewInstrument(m, d, h, err, n) ==
  LET bs == AllBehaviors(m, d, h, 1)
      new == AddAll([ls |-> leafs, ids |-> {}], m, bs, 1)
      ex == ExistingInst(m, d)
      id == IF ex # {} THEN CHOOSE j \in ex : TRUE
            ELSE IF SyncKind(d.kind) /\ new.ids = {} THEN 0
            ELSE Len(insts) + 1
  IN /\ err = Conflicted(new.ls, m, bs)
     /\ leafs' = new.ls
     /\ insts' = IF id <= Len(insts) THEN insts
                 ELSE Append(insts, [m |-> m, d |-> d, leaves |-> new.ids, recs |-> Empty])
     /\ handles' = Append(handles, id)
     /\ cbs' = cbs \o NewCbs(m, id, n)
     /\ UNCHANGED <<perf, readers, meters, last>>

---------------------------------------------------------------------------
\* Attributes.

TruncStr(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
TruncAttr(x, n) ==
  [k |-> TruncStr(x.k, n), t |-> x.t,
   l |-> IF x.t \in {"s", "S"} THEN [j \in 1..Len(x.l) |-> TruncStr(x.l[j], n)] ELSE x.l]
Truncated(a) == [j \in 1..Len(a) |-> TruncAttr(a[j], perf.attrlim)]

\* The configured measurement processor.
Processed(a) ==
  CASE perf.proc = "none" -> a
    [] perf.proc = "add" -> Append(a, [k |-> "proc", t |-> "s", l |-> <<"p">>])
    [] perf.proc = "drop" -> SelectSeq(a, LAMBDA x : x.k # "a")

\* The attribute set of a list: the last value of a key counts.
SetOf(a) == {a[j] : j \in {n \in 1..Len(a) : \A q \in (n + 1)..Len(a) : a[q].k # a[n].k}}

OverflowAttr == [k |-> "otel.metric.overflow", t |-> "b", l |-> <<"true">>]
OverflowList == << OverflowAttr >>
OverflowSet == {OverflowAttr}

\* Lists with equal bags of attributes count as one against the limit.
Bag(a) == {<<a[j], Cardinality({n \in 1..Len(a) : a[n] = a[j]})>> : j \in 1..Len(a)}

\* The output set in stream x for an attribute set.
OutSet(x, S) == {y \in S : y.k # "" /\ (x.haskeys => y.k \in x.keys)}

\* The entry that a new series of set S (filtered) uses in a stream with
\* entries keyed by K.
EntryFor(x, S, K) ==
  IF S \in K THEN S
  ELSE LET n == Cardinality(K)
       IN IF n >= x.lim THEN OverflowSet
          ELSE IF n = x.lim - 1 /\ OverflowSet \notin K THEN OverflowSet
          ELSE S

---------------------------------------------------------------------------
\* Measurements.

ValidNum(d, v, bad) == bad = "" /\ (d.kind \in {"sc", "sh"} => v >= 0)

RECURSIVE AttachRec(_, _, _)
\* Attaches a new series of set S to the streams ids ; [ls, tgt].
AttachRec(ls, ids, S) ==
  IF ids = {} THEN [ls |-> ls, tgt |-> Empty]
  ELSE LET j == CHOOSE x \in ids : \A y \in ids : x <= y
           K == TLCEval(EntryFor(ls[j], TLCEval(OutSet(ls[j], S)), DOMAIN ls[j].data))
           rest == AttachRec([ls EXCEPT ![j].data = @ @@ (K :> [vals |-> <<>>])], ids \ {j}, S)
       IN [ls |-> rest.ls, tgt |-> (j :> K) @@ rest.tgt]

AddVal(ls, tgt, v) ==
  [j \in 1..Len(ls) |->
     IF j \in DOMAIN tgt
     THEN [ls[j] EXCEPT !.data[tgt[j]].vals = Append(@, v)]
     ELSE ls[j]]

\* Whether two attribute lists address the same record of an instrument.
RecKey(a) == IF perf.ignorecol THEN Bag(a) ELSE a

Measure(h, a0, v, bad) ==
  LET id == handles[h]
  IN /\ IF id = 0 \/ ~ValidNum(insts[id].d, v, bad) THEN UNCHANGED <<insts, leafs>>
        ELSE LET in == insts[id]
                 a == TLCEval(Processed(TLCEval(Truncated(a0))))
                 full == /\ Cardinality(DOMAIN in.recs) >= perf.instlim - 1
                         /\ Cardinality({Bag(in.recs[x].a) : x \in DOMAIN in.recs}) >= perf.instlim - 1
                 list == IF RecKey(a) \in DOMAIN in.recs \/ ~full THEN a ELSE OverflowList
                 key == RecKey(list)
                 at == AttachRec(leafs, in.leaves, TLCEval(SetOf(list)))
             IN IF key \in DOMAIN in.recs
                THEN /\ insts' = [insts EXCEPT ![id].recs[key].dirty = TRUE]
                     /\ leafs' = AddVal(leafs, in.recs[key].tgt, v)
                ELSE /\ insts' = [insts EXCEPT ![id].recs = (key :> [a |-> list, dirty |-> TRUE, idle |-> 0, tgt |-> at.tgt]) @@ @]
                     /\ leafs' = AddVal(at.ls, at.tgt, v)
     /\ UNCHANGED <<perf, readers, meters, handles, cbs, last>>

---------------------------------------------------------------------------
\* Callbacks.

Register(m, hs, bad, ok) ==
  LET good == /\ hs # <<>> /\ ~bad
              /\ \A j \in 1..Len(hs) : handles[hs[j]] > 0 /\ insts[handles[hs[j]]].m = m
  IN /\ ok = good
     /\ cbs' = Append(cbs, [m |-> m, insts |-> {handles[hs[j]] : j \in 1..Len(hs)}, on |-> ok])
     /\ UNCHANGED <<perf, readers, meters, insts, leafs, handles, last>>

Unregister(c, ok) ==
  /\ ok = cbs[c].on
  /\ cbs' = [cbs EXCEPT ![c].on = FALSE]
  /\ UNCHANGED <<perf, readers, meters, insts, leafs, handles, last>>

---------------------------------------------------------------------------
\* Collection by reader r.

\* Idle series of every synchronous instrument age; those idle for long
\* enough are forgotten and leave their entries.
AgedRec(x) == IF x.dirty THEN [x EXCEPT !.dirty = FALSE, !.idle = 0] ELSE [x EXCEPT !.idle = @ + 1]
Evicted(x) == ~x.dirty /\ x.idle + 1 >= perf.inactive

AgedInst(in) ==
  LET keep == {k \in DOMAIN in.recs : ~Evicted(in.recs[k])}
  IN [in EXCEPT !.recs = [k \in keep |-> AgedRec(in.recs[k])]]

RefsTo(ins, j, K) ==
  Cardinality({<<n, k>> \in UNION {{<<n, k>> : k \in DOMAIN ins[n].recs} : n \in 1..Len(ins)} :
                 j \in DOMAIN ins[n].recs[k].tgt /\ ins[n].recs[k].tgt[j] = K})

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumFun(_, _)
SumFun(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumFun(f, D \ {x})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(***************************************************************************)
(* Exponential histograms of powers of two.  Index is the bucket of 2^e at *)
(* scale s; the scale is the finest at which the range fits.               *)
(***************************************************************************)
Log2(v) == CHOOSE n \in 0..30 : 2 ^ n = v
ExpOf(x, v) == Log2(v) - (IF x.num = "f" THEN 2 ELSE 0)
Index(e, s) == IF s >= 0 THEN e * (2 ^ s) - 1 ELSE (e - 1) \div (2 ^ (0 - s))
Fits(E, s, mx) == E = {} \/ Index(MaxOf(E), s) - Index(MinOf(E), s) < mx
Scale(P, N, mx) == IF P \cup N = {} THEN 0
                   ELSE MaxOf({s \in -10..20 : Fits(P, s, mx) /\ Fits(N, s, mx)})
Buckets(exps, s) ==
  LET idx == [j \in 1..Len(exps) |-> Index(exps[j], s)]
  IN {<<idx[j], Cardinality({n \in 1..Len(idx) : idx[n] = idx[j]})>> : j \in 1..Len(idx)}

HistPoint(x, vals) ==
  LET pos == SelectSeq(vals, LAMBDA v : v > 0)
      neg == SelectSeq(vals, LAMBDA v : v < 0)
      pe == [j \in 1..Len(pos) |-> ExpOf(x, pos[j])]
      ne == [j \in 1..Len(neg) |-> ExpOf(x, 0 - neg[j])]
      s == Scale(SeqRange(pe), SeqRange(ne), x.mx)
  IN [v |-> {<<Len(vals), SumSeq(vals), MinOf(SeqRange(vals)), MaxOf(SeqRange(vals)),
               Len(vals) - Len(pos) - Len(neg), s>>},
      pos |-> Buckets(pe, s), neg |-> Buckets(ne, s)]

\* The point of an entry with measurements vals (not empty unless a sum).
\* v is the set of acceptable values.
SyncPoint(x, K, vals) ==
  LET t == IF x.tempo = "d" THEN "d" ELSE "c"
      b == CASE x.agg \in {"mono", "nonmono"} -> [v |-> {<<SumSeq(vals)>>}, pos |-> {}, neg |-> {}]
             [] x.agg = "gauge" -> [v |-> {<<vals[Len(vals)]>>}, pos |-> {}, neg |-> {}]
             [] x.agg = "mmsc" -> [v |-> {<<Len(vals), SumSeq(vals), MinOf(SeqRange(vals)), MaxOf(SeqRange(vals))>>}, pos |-> {}, neg |-> {}]
             [] x.agg = "hist" -> HistPoint(x, vals)
  IN [a |-> K, t |-> t, k |-> x.agg, v |-> b.v, pos |-> b.pos, neg |-> b.neg]

Changed(x, vals) == IF x.agg \in {"mono", "nonmono"} THEN SumSeq(vals) # 0 ELSE vals # <<>>

SyncPoints(x) ==
  {SyncPoint(x, K, x.data[K].vals) :
     K \in {k \in DOMAIN x.data :
              IF x.tempo = "d" THEN Changed(x, x.data[k].vals)
              ELSE x.agg \in {"mono", "nonmono"} \/ x.data[k].vals # <<>>}}

\* Stream j of the collecting reader afterwards; ins: the aged instruments.
SyncAfter(x, j, ins) ==
  IF x.tempo = "d"
  THEN LET keep == {k \in DOMAIN x.data : Changed(x, x.data[k].vals) \/ RefsTo(ins, j, k) > 0}
       IN [x EXCEPT !.data = [k \in keep |-> [vals |-> <<>>]]]
  ELSE x

(***************************************************************************)
(* Observations.  runs is the sequence of callback runs of this            *)
(* collection, each [c, obs], obs a sequence of [h, a, v, bad].  The       *)
(* valid ones are those of instruments the callback declared.              *)
(***************************************************************************)
RECURSIVE FlatObs(_)
FlatObs(runs) ==
  IF runs = <<>> THEN <<>>
  ELSE LET u == Head(runs)
       IN SelectSeq(u.obs, LAMBDA o : /\ handles[o.h] \in cbs[u.c].insts
                                      /\ ValidNum(insts[handles[o.h]].d, o.v, o.bad))
          \o FlatObs(Tail(runs))

\* Accumulates the observations (in order) into the streams of reader r:
\* acc is a function <<instrument, set>> -> [v, tgt].
RECURSIVE Accumulate(_, _, _)
Accumulate(st, os, r) ==
  IF os = <<>> THEN st
  ELSE LET o == Head(os)
           id == handles[o.h]
           S == TLCEval(SetOf(TLCEval(Truncated(o.a))))
           ids == {j \in insts[id].leaves : leafs[j].r = r}
           key == <<id, S>>
       IN IF ids = {} THEN Accumulate(st, Tail(os), r)
          ELSE IF key \in DOMAIN st.acc
          THEN Accumulate(TLCEval([st EXCEPT !.acc[key].v = o.v]), Tail(os), r)
          ELSE LET tg == TLCEval([j \in ids |-> EntryFor(leafs[j], OutSet(leafs[j], S), st.keys[j])])
               IN Accumulate(TLCEval([acc |-> (key :> [v |-> o.v, tgt |-> tg]) @@ st.acc,
                                      keys |-> [j \in DOMAIN st.keys |->
                                                  IF j \in ids THEN st.keys[j] \cup {tg[j]} ELSE st.keys[j]]]),
                             Tail(os), r)

\* Values of an entry K of stream j: those of the series that feed it.
Feeding(acc, j, K) == {q \in DOMAIN acc : j \in DOMAIN acc[q].tgt /\ acc[q].tgt[j] = K}
AsyncSum(acc, j, K) == LET F == Feeding(acc, j, K) IN SumFun([q \in F |-> acc[q].v], F)

AsyncPoints(x, j, st) ==
  LET K == st.keys[j]
      cur == [k \in K |-> AsyncSum(st.acc, j, k)]
      P(k, t, vs) == [a |-> k, t |-> t, k |-> x.agg, v |-> vs, pos |-> {}, neg |-> {}]
  IN IF x.agg = "gauge"
     THEN {P(k, "c", {<<st.acc[q].v>> : q \in Feeding(st.acc, j, k)}) : k \in K}
     ELSE IF x.tempo # "d" THEN {P(k, "c", {<<cur[k]>>}) : k \in K}
     ELSE {P(k, "d", {<<cur[k] - (IF k \in DOMAIN x.prior THEN x.prior[k] ELSE 0)>>}) :
             k \in {q \in K : q \in DOMAIN x.prior => cur[q] # x.prior[q]}}

AsyncAfter(x, j, st) ==
  IF x.agg # "gauge" /\ x.tempo = "d"
  THEN [x EXCEPT !.prior = [k \in st.keys[j] |-> AsyncSum(st.acc, j, k)]]
  ELSE x

\* The registered callbacks run exactly once each, those of one meter in
\* the order of their registration; the error of each one that fails is
\* reported, and what it observed still counts.
RunsOK(runs, errs) ==
  /\ {errs[j] : j \in 1..Len(errs)} = {runs[j].c : j \in {q \in 1..Len(runs) : runs[q].fail}}
  /\ Cardinality({errs[j] : j \in 1..Len(errs)}) = Len(errs)
  /\ {runs[j].c : j \in 1..Len(runs)} = {c \in 1..Len(cbs) : cbs[c].on}
  /\ Cardinality({runs[j].c : j \in 1..Len(runs)}) = Len(runs)

\* out: sequence of [lib, insts], insts a sequence of
\* [name, desc, unit, kind, num, pts]; pts a sequence of
\* [a, t, k, v, pos, neg, start, end].
PointMatch(e, p) ==
  /\ e.a = SeqRange(p.a) /\ e.t = p.t /\ e.k = p.k /\ p.v \in e.v
  /\ e.pos = SeqRange(p.pos) /\ e.neg = SeqRange(p.neg)

TimeMatch(p, r, now) ==
  /\ p.end = now
  /\ IF p.t = "d" THEN last[r].lo <= p.start /\ p.start <= last[r].hi ELSE p.start = 0

LeafMatch(x, E, y, r, now) ==
  /\ x.name = y.name /\ x.desc = y.desc /\ x.unit = y.unit /\ x.num = y.num /\ x.kind = y.kind
  /\ Len(y.pts) = Cardinality(E)
  /\ \A e \in E : \E j \in 1..Len(y.pts) : PointMatch(e, y.pts[j])
  /\ \A j \in 1..Len(y.pts) : TimeMatch(y.pts[j], r, now)

Collect(r, runs, errs, out, tb, ta, now) ==
  LET mine == {j \in 1..Len(leafs) : leafs[j].r = r}
      ins == [n \in 1..Len(insts) |-> AgedInst(insts[n])]
      st == Accumulate([acc |-> Empty, keys |-> [j \in mine |-> {}]], FlatObs(runs), r)
      Pts(j) == IF SyncKind(leafs[j].kind) THEN SyncPoints(leafs[j]) ELSE AsyncPoints(leafs[j], j, st)
      Scope(m) == {j \in mine : leafs[j].m = m}
      starts == UNION {UNION {{out[s].insts[n].pts[q].start :
                                 q \in {w \in 1..Len(out[s].insts[n].pts) : out[s].insts[n].pts[w].t = "d"}} :
                                n \in 1..Len(out[s].insts)} : s \in 1..Len(out)}
  IN /\ RunsOK(runs, errs)
     /\ Len(out) = Len(meters)
     /\ now >= 0 => tb <= now /\ now <= ta
     /\ Cardinality(starts) <= 1
     /\ \A m \in 1..Len(meters) :
          /\ out[m].lib = meters[m]
          /\ Len(out[m].insts) = Cardinality(Scope(m))
          /\ \A j \in Scope(m) : LET E == Pts(j) IN \E n \in 1..Len(out[m].insts) : LeafMatch(leafs[j], E, out[m].insts[n], r, now)
     /\ insts' = ins
     /\ leafs' = [j \in 1..Len(leafs) |->
                    IF j \notin mine THEN leafs[j]
                    ELSE IF SyncKind(leafs[j].kind) THEN SyncAfter(leafs[j], j, ins)
                    ELSE AsyncAfter(leafs[j], j, st)]
     /\ last' = [last EXCEPT ![r] = IF now >= 0 THEN [lo |-> now, hi |-> now] ELSE [lo |-> tb, hi |-> ta]]
     /\ UNCHANGED <<perf, readers, meters, handles, cbs>>

=============================================================================
