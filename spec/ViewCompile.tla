---------------------------- MODULE ViewCompile ----------------------------
(***************************************************************************)
(* How an instrument definition, the clauses of a reader's view and the    *)
(* aggregation hint in its description determine the output streams: pure  *)
(* operators, used by MetricSDK.                                           *)
(*                                                                         *)
(* Instrument kinds: sc su sg sh (synchronous counter, up-down counter,    *)
(* gauge, histogram), ac au ag (asynchronous counter, up-down counter,     *)
(* gauge).  Numbers: i f.  Aggregations: undef drop anysum mono nonmono    *)
(* gauge hist mmsc, and bad for values outside of the enumeration.         *)
(* Temporality: c d u bad.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

KindSeq == <<"sc", "su", "sg", "sh", "ac", "au", "ag">>
KindIdx(k) == CHOOSE j \in 1..7 : KindSeq[j] = k
SyncKind(k) == k \in {"sc", "su", "sg", "sh"}

StdAgg(k) == CASE k = "sh" -> "hist"
               [] k \in {"sg", "ag"} -> "gauge"
               [] k \in {"su", "au"} -> "nonmono"
               [] OTHER -> "mono"

\* What a sum of an instrument is.
SumOf(k) == CASE k \in {"sc", "sh", "ac"} -> "mono"
              [] k \in {"su", "au"} -> "nonmono"
              [] OTHER -> "undef"

SeqRange(s) == {s[j] : j \in 1..Len(s)}

\* Nearest valid histogram size and cardinality limit.
NormSize(mx) == CASE mx = 0 -> 160 [] mx < 0 -> 160 [] mx = 1 -> 2 [] mx > 16384 -> 16384 [] OTHER -> mx
NormCfg(c, agglim) == [mx |-> NormSize(c.mx), lim |-> IF c.lim = 0 THEN agglim ELSE c.lim]

DefAgg(rd, k) == LET a == rd.agg[KindIdx(k)] IN IF a = "bad" THEN StdAgg(k) ELSE a
DefTempo(rd, k) == LET t == rd.tempo[KindIdx(k)] IN IF t = "bad" THEN "c" ELSE t
DefCfg(rd, k, num, agglim) == NormCfg(rd.cfg[KindIdx(k)][IF num = "i" THEN 1 ELSE 2], agglim)

Matches(c, lib, d) ==
  /\ c.lib.n \in {"", lib.n} /\ c.lib.v \in {"", lib.v} /\ c.lib.s \in {"", lib.s}
  /\ c.name \in {"", d.name}
  /\ c.kind \in {"", d.kind}
  /\ c.num \in {"", d.num}
  \* a clause with both a name and a pattern matches by name
  /\ (c.name = "" /\ c.hasre) => d.name \in SeqRange(c.re)

(***************************************************************************)
(* The hint: h.ok when the description is a valid hint; absent parts are   *)
(* "" and 0, unknown words "bad".                                          *)
(***************************************************************************)
Hinted(rd, d, h, agglim) ==
  LET dc == DefCfg(rd, d.kind, d.num, agglim)
      da == DefAgg(rd, d.kind)
      dt == DefTempo(rd, d.kind)
  IN IF ~h.ok THEN [desc |-> d.desc, agg |-> da, tempo |-> dt, cfg |-> dc, def |-> dc, on |-> FALSE]
     ELSE [desc |-> h.desc,
           agg |-> IF h.agg \in {"", "bad"} THEN da ELSE h.agg,
           tempo |-> IF h.tempo \in {"", "bad"} THEN dt ELSE h.tempo,
           cfg |-> [mx |-> IF h.mx = 0 THEN dc.mx ELSE NormSize(h.mx),
                    lim |-> IF h.lim = 0 THEN dc.lim ELSE h.lim],
           def |-> dc, on |-> TRUE]

\* [agg, err]: the aggregation that is built, and whether it is not the one
\* asked for because it does not suit the instrument.
Resolve(k, agg0, hinted) ==
  LET agg == IF agg0 = "anysum" THEN SumOf(k) ELSE agg0
      good == CASE k \in {"sc", "sh"} -> agg \in {"mono", "nonmono", "hist", "mmsc"}
                [] k \in {"su", "au"} -> agg = "nonmono"
                [] k = "ac" -> agg \in {"mono", "nonmono"}
                [] OTHER -> agg = "gauge"
  IN IF hinted
     THEN [agg |-> CASE agg = "undef" -> StdAgg(k)
                     [] ~SyncKind(k) /\ agg \in {"hist", "mmsc"} -> "gauge"
                     [] OTHER -> agg,
           err |-> FALSE]
     ELSE IF good THEN [agg |-> agg, err |-> FALSE]
          ELSE [agg |-> StdAgg(k), err |-> TRUE]

Renamed(c, n) == CASE c.ren.t = "none" -> n [] c.ren.t = "const" -> c.ren.s [] c.ren.t = "suffix" -> n \o c.ren.s

ClauseCfg(c, hi, agglim) ==
  IF c.cfg.mx = 0 /\ c.cfg.lim = 0 THEN hi.cfg
  ELSE LET n == NormCfg(c.cfg, agglim) IN IF n # hi.def THEN n ELSE hi.cfg

Behavior(name, desc, d, agg, hi, cfg, haskeys, keys) ==
  LET rs == Resolve(d.kind, agg, hi.on)
  IN [name |-> name, desc |-> desc, unit |-> d.unit, kind |-> d.kind, num |-> d.num,
      agg |-> rs.agg, err |-> rs.err, tempo |-> hi.tempo, mx |-> cfg.mx, lim |-> cfg.lim,
      haskeys |-> haskeys, keys |-> keys]

\* The output streams that reader rd derives from definition d with hint h.
Behaviors(rd, lib, d, h, agglim) ==
  LET hi == Hinted(rd, d, h, agglim)
      hit == SelectSeq(rd.clauses, LAMBDA c : Matches(c, lib, d))
      Agg(c) == LET a == IF c.agg = "bad" THEN "undef" ELSE c.agg IN IF a = "undef" THEN hi.agg ELSE a
      kept == SelectSeq(hit, LAMBDA c : Agg(c) # "drop")
  IN IF hit = <<>>
     THEN IF hi.agg = "drop" THEN <<>>
          ELSE << Behavior(d.name, hi.desc, d, hi.agg, hi, hi.cfg, FALSE, {}) >>
     ELSE [j \in 1..Len(kept) |->
             LET c == kept[j]
             IN Behavior(Renamed(c, d.name), IF c.desc # "" THEN c.desc ELSE hi.desc, d, Agg(c), hi,
                         ClauseCfg(c, hi, agglim), c.keys.has, SeqRange(c.keys.l))]

\* Two behaviors that share one output stream; descriptions and
\* temporality do not matter.
SameStream(x, b) ==
  /\ x.name = b.name /\ x.agg = b.agg /\ SyncKind(x.kind) = SyncKind(b.kind)
  /\ x.unit = b.unit /\ x.num = b.num /\ x.mx = b.mx /\ x.lim = b.lim
  /\ x.haskeys = b.haskeys /\ x.keys = b.keys

=============================================================================
