----------------------------- MODULE MetricAPI -----------------------------
(***************************************************************************)
(* The observable behaviour of synchronous metric instruments under       *)
(* concurrency: what users of the metrics SDK may rely on, whatever the    *)
(* schedule.  A measurement is an interval (Invoke .. Return); a           *)
(* collection by a reader is an interval (CollectStart .. CollectEnd) that *)
(* delivers points.  A point of a sum, histogram or min/max/sum/count      *)
(* stream is represented by the measurements it is made of (its ids); a    *)
(* point of a gauge stream by the one measurement it shows.                *)
(*                                                                         *)
(* The implementation-shaped SyncState.tla refines this specification and  *)
(* MetricConcTrace.tla checks recorded executions of the Go code against   *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* configuration: streams, cardinality limits, idle periods
  inv,    \* invoked measurements, records [id, i, k, g]
  ret,    \* ids of the measurements that returned
  seen,   \* [stream -> ids delivered by completed collections]
  ser,    \* [stream -> series delivered by completed collections]
  open,   \* collections under way, records [c, r, must, base, over]
  gst     \* [gauge stream and series -> possible linearizations]

apiVars == <<cfg, inv, ret, seen, ser, open, gst>>

Range(s) == {s[j] : j \in 1..Len(s)}
StreamIds == 1..Len(cfg.streams)
Strm(s) == cfg.streams[s]
OfReader(r) == {s \in StreamIds : Strm(s).r = r}
SumLike(s) == Strm(s).agg # "gauge"
Meas(id) == CHOOSE m \in inv : m.id = id
InvIds == {m.id : m \in inv}

\* Measurements of the instruments that feed stream s.
Feeds(s) == {m \in inv : m.i \in Range(Strm(s).insts)}
FeedIds(s) == {m.id : m \in Feeds(s)}

\* The output series of a measurement in stream s, after the key filter.
OutSer(s, m) == CASE Strm(s).keys = "all"  -> <<m.k, m.g>>
                  [] Strm(s).keys = "g"    -> <<-1, m.g>>
                  [] Strm(s).keys = "none" -> <<-1, -1>>

OVF == <<-2, -2>>
PtSer(p) == IF p.o THEN OVF ELSE <<p.k, p.g>>

(***************************************************************************)
(* Cardinality.  A measurement may be counted under the overflow series    *)
(* only when a limit is configured and enough other series exist.          *)
(***************************************************************************)
\* The instrument's limit applies before the key filter of the view, so its
\* overflow series passes through the filter; the limit of the view's output
\* applies after the filter.
InstOverflow(s) == IF Strm(s).keys = "all" THEN OVF ELSE <<-1, -1>>

InstOverflowAllowed(m) ==
  LET raw == {<<x.k, x.g>> : x \in {y \in inv : y.i = m.i}} \ {<<m.k, m.g>>}
  IN cfg.instlim > 0 /\ Cardinality(raw) >= cfg.instlim - 1

ViewOverflowAllowed(s, m) ==
  LET outs == ({OutSer(s, x) : x \in Feeds(s)}
               \cup (IF cfg.instlim > 0 THEN {InstOverflow(s)} ELSE {})) \ {OutSer(s, m)}
  IN Strm(s).lim > 0 /\ Cardinality(outs) >= Strm(s).lim - 1

SeriesOK(s, m, x) ==
  \/ x = OutSer(s, m)
  \/ x = InstOverflow(s) /\ InstOverflowAllowed(m)
  \/ x = OVF /\ ViewOverflowAllowed(s, m)

\* No series becomes idle long enough to be evicted in this configuration.
NoEviction == cfg.inactive >= 50

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(***************************************************************************)
(* Gauges: per stream and series an atomic register for each reader.  A    *)
(* linearization state is [cur, pend, rd]: the current value (-1: none, or *)
(* not updated since the previous delta collection), the writes under way  *)
(* that did not take effect, and for each collection under way what it     *)
(* read (-2: did not read yet).                                            *)
(***************************************************************************)
GaugeKeys(S) == {<<s, x>> : s \in {t \in StreamIds : Strm(t).agg = "gauge" /\ Strm(t).keys = "all"}, x \in S}
GInit == {[cur |-> -1, pend |-> {}, rd |-> <<>>]}

GSteps(s, x) ==
  {[x EXCEPT !.cur = w, !.pend = @ \ {w}] : w \in x.pend} \cup
  {[x EXCEPT !.rd = [@ EXCEPT ![j] = [c |-> @.c, v |-> x.cur]],
             !.cur = IF Strm(s).tempo = "d" THEN -1 ELSE @] :
      j \in {n \in 1..Len(x.rd) : x.rd[n].v = -2}}

RECURSIVE GClose(_, _)
GClose(s, X) == LET Y == X \cup UNION {GSteps(s, x) : x \in X}
                IN IF Y = X THEN X ELSE GClose(s, Y)

DropRd(rd, c) == SelectSeq(rd, LAMBDA e : e.c # c)
RdOf(rd, c) == (CHOOSE e \in Range(rd) : e.c = c).v

---------------------------------------------------------------------------
\* Actions.

APIInit(c, allSeries) ==
  /\ cfg = c
  /\ inv = {} /\ ret = {} /\ open = {}
  /\ seen = [s \in 1..Len(c.streams) |-> {}]
  /\ ser = [s \in 1..Len(c.streams) |-> {}]
  /\ gst = [q \in {<<s, x>> : s \in {t \in 1..Len(c.streams) : c.streams[t].agg = "gauge" /\ c.streams[t].keys = "all"}, x \in allSeries} |-> GInit]

Invoke(m) ==
  /\ m.id \notin InvIds
  /\ inv' = inv \cup {m}
  /\ gst' = [q \in DOMAIN gst |->
               IF m.i \in Range(Strm(q[1]).insts) /\ q[2] = <<m.k, m.g>>
               THEN GClose(q[1], {[x EXCEPT !.pend = @ \cup {m.id}] : x \in gst[q]})
               ELSE gst[q]]
  /\ UNCHANGED <<cfg, ret, seen, ser, open>>

Return(id) ==
  /\ id \in InvIds \ ret
  /\ ret' = ret \cup {id}
  /\ gst' = [q \in DOMAIN gst |-> {x \in gst[q] : id \notin x.pend}]
  /\ UNCHANGED <<cfg, inv, seen, ser, open>>

CollectStart(c, r) ==
  /\ \A o \in open : o.c # c
  /\ LET clash == \E o \in open : o.r = r
     IN open' = {IF o.r = r THEN [o EXCEPT !.over = TRUE] ELSE o : o \in open}
                \cup {[c |-> c, r |-> r, must |-> ret, base |-> seen, over |-> clash]}
  /\ gst' = [q \in DOMAIN gst |->
               IF Strm(q[1]).r = r
               THEN GClose(q[1], {[x EXCEPT !.rd = Append(@, [c |-> c, v |-> -2])] : x \in gst[q]})
               ELSE gst[q]]
  /\ UNCHANGED <<cfg, inv, ret, seen, ser>>

\* What a collection may deliver.  pts is the sequence of its points.
PtsOf(pts, s) == {j \in 1..Len(pts) : pts[j].s = s}
IdsOf(pts, s) == UNION {Range(pts[j].ids) : j \in PtsOf(pts, s)}

PointShape(p) ==
  /\ p.s \in StreamIds
  \* a measurement contributes at most once
  /\ Cardinality(Range(p.ids)) = Len(p.ids)
  /\ p.ok

SumPoint(s, p) ==
  /\ Range(p.ids) \subseteq FeedIds(s)
  /\ \A id \in Range(p.ids) : SeriesOK(s, Meas(id), PtSer(p))
  \* histogram and min/max/sum/count statistics describe the same measurements
  /\ Strm(s).agg \in {"hist", "mmsc"} =>
       /\ p.cnt = Len(p.ids)
       /\ p.cnt > 0 => p.mn = SetMin(Range(p.ids)) /\ p.mx = SetMax(Range(p.ids))
  /\ Strm(s).tempo = "d" => p.ids # <<>>
  /\ Strm(s).agg \in {"hist", "mmsc"} => p.ids # <<>>

SumStream(o, s, pts) ==
  LET ids == IdsOf(pts, s)
      mine == FeedIds(s) \cap o.must
  IN /\ \A j \in PtsOf(pts, s) : SumPoint(s, pts[j])
     /\ \A j, k \in PtsOf(pts, s) : j # k => Range(pts[j].ids) \cap Range(pts[k].ids) = {}
     /\ IF Strm(s).tempo = "d"
        THEN /\ ids \cap seen[s] = {}                       \* delivered once
             /\ ~o.over => mine \subseteq (seen[s] \cup ids) \* nothing is late
        ELSE /\ mine \subseteq ids                           \* nothing is missing
             /\ o.base[s] \subseteq ids                      \* nothing disappears

GaugePoint(s, p) ==
  /\ Len(p.ids) = 1
  /\ Range(p.ids) \subseteq FeedIds(s)
  /\ \A id \in Range(p.ids) : PtSer(p) = OutSer(s, Meas(id))

\* Value shown for a gauge series by a collection, -1 if absent.
Shown(pts, s, x) ==
  LET J == {j \in PtsOf(pts, s) : PtSer(pts[j]) = x}
  IN IF J = {} THEN -1 ELSE pts[CHOOSE j \in J : TRUE].ids[1]

Bounded(s, pts) ==
  /\ \A j, k \in PtsOf(pts, s) : j # k => PtSer(pts[j]) # PtSer(pts[k])
  /\ Strm(s).lim > 0 => Cardinality(PtsOf(pts, s)) <= Strm(s).lim
  /\ (cfg.instlim > 0 /\ NoEviction /\ Len(Strm(s).insts) = 1) =>
       Cardinality(ser[s] \cup {PtSer(pts[j]) : j \in PtsOf(pts, s)}) <= cfg.instlim

CollectEnd(c, pts) ==
  \E o \in open :
    /\ o.c = c
    /\ \A j \in 1..Len(pts) : PointShape(pts[j]) /\ pts[j].s \in OfReader(o.r)
    /\ \A s \in OfReader(o.r) :
         /\ Bounded(s, pts)
         /\ IF SumLike(s) THEN SumStream(o, s, pts)
                          ELSE \A j \in PtsOf(pts, s) : GaugePoint(s, pts[j])
    /\ gst' = [q \in DOMAIN gst |->
                 IF Strm(q[1]).r # o.r THEN gst[q]
                 ELSE {[x EXCEPT !.rd = DropRd(@, c)] :
                        x \in {y \in gst[q] : RdOf(y.rd, c) = Shown(pts, q[1], q[2])}}]
    /\ \A q \in DOMAIN gst : gst'[q] # {}
    /\ seen' = [s \in StreamIds |-> IF s \in OfReader(o.r) THEN seen[s] \cup IdsOf(pts, s) ELSE seen[s]]
    /\ ser' = [s \in StreamIds |-> IF s \in OfReader(o.r) THEN ser[s] \cup {PtSer(pts[j]) : j \in PtsOf(pts, s)} ELSE ser[s]]
    /\ open' = open \ {o}
    /\ UNCHANGED <<cfg, inv, ret>>

\* At rest, after a last collection by every reader: everything was delivered.
Quiescent ==
  /\ open = {} /\ ret = InvIds
  /\ \A s \in StreamIds : SumLike(s) => seen[s] = FeedIds(s)

=============================================================================
