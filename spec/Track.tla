------------------------------- MODULE Track --------------------------------
(* Orbit tracks, ground tracks and their masking and aggregation (C20-C23).  *)
(*                                                                           *)
(* smp: sequence of samples [t, pos, foot, valid]: time, the ground square   *)
(* below the satellite, the set of squares seen, validity of the observation.*)
(* mask: a set of squares ({} stands for no mask, see masked).               *)
EXTENDS Common

VARIABLES smp, mask, masked, per, kept, at, rows, groups, run
kvars == <<smp, mask, masked, per, kept, at, rows, groups, run>>

TrackInit(S, m, b, p) ==
  /\ smp = S /\ mask = m /\ masked = b /\ per = p
  /\ kept = {NA} /\ at = 1 /\ rows = <<>> /\ groups = << >> /\ run = 0

\* a generator may drop samples early, but none whose footprint meets the mask
Cull == /\ kept = {NA}
        /\ \E K \in SUBSET DOMAIN smp :
             /\ (IF masked THEN \A k \in DOMAIN smp : smp[k].foot \cap mask # {} => k \in K ELSE K = DOMAIN smp)
             /\ kept' = K
        /\ UNCHANGED <<smp, mask, masked, per, at, rows, groups, run>>
Clipped(k) == IF masked THEN smp[k].foot \cap mask ELSE smp[k].foot
\* walks the kept samples, emits clipped records, and groups valid samples into
\* runs of contiguous valid samples of one revolution
Orbit(k) == (smp[k].t - smp[1].t) \div per
Walk ==
  /\ kept # {NA} /\ at <= Len(smp)
  /\ at' = at + 1
  /\ rows' = IF at \in kept /\ Clipped(at) # {}
             THEN Append(rows, [k |-> at, g |-> Clipped(at)]) ELSE rows
  /\ run' = IF at = 1 THEN 1 ELSE IF smp[at].valid # smp[at - 1].valid THEN run + 1 ELSE run
  /\ groups' = IF ~smp[at].valid THEN groups
               ELSE LET key == <<Orbit(at), run'>> IN
                    IF key \in DOMAIN groups THEN [groups EXCEPT ![key] = @ \cup {at}]
                    ELSE [q \in DOMAIN groups \cup {key} |-> IF q = key THEN {at} ELSE groups[q]]
  /\ UNCHANGED <<smp, mask, masked, per, kept>>
TrackNext == Cull \/ Walk
TrackDone == kept # {NA} /\ at > Len(smp)

-----------------------------------------------------------------------------
\* masking equals clipping the unmasked records, whatever was culled
MaskIsClip == TrackDone =>
  rows = LET all == [k \in DOMAIN smp |-> [k |-> k, g |-> Clipped(k)]] IN SelectSeq(all, LAMBDA r : r.g # {})
InOrder == \A i \in DOMAIN rows : i > 1 => rows[i - 1].k < rows[i].k
\* every valid sample in exactly one group, of its own revolution; groups are
\* maximal stretches of consecutive valid samples
GroupsPartition == TrackDone =>
  /\ UNION {groups[q] : q \in DOMAIN groups} = {k \in DOMAIN smp : smp[k].valid}
  /\ \A q \in DOMAIN groups : \A p \in DOMAIN groups : p # q => groups[p] \cap groups[q] = {}
  /\ \A q \in DOMAIN groups : \A k \in groups[q] : Orbit(k) = q[1]
  /\ \A q \in DOMAIN groups : groups[q] = SetMin(groups[q])..SetMax(groups[q])
  /\ \A q \in DOMAIN groups : LET b == SetMax(groups[q]) IN
       (b < Len(smp) /\ smp[b + 1].valid) => Orbit(b + 1) # q[1]

-----------------------------------------------------------------------------
(* Recorded orbit tracks (C20): where: per sample, "in", "out" or "edge" of  *)
(* the mask; rows: [k, cmp] with k the sample of the record's time.          *)
OrbitTrackFailing(where, msk, rws) ==
  Clause(\A i \in DOMAIN rws : rws[i].k \in DOMAIN where, "times")
  \cup (IF msk
        THEN Clause(\A k \in DOMAIN where : where[k] = "in" => Cardinality({i \in DOMAIN rws : rws[i].k = k}) = 1, "kept")
             \cup Clause(\A k \in DOMAIN where : where[k] = "out" => \A i \in DOMAIN rws : rws[i].k # k, "dropped")
             \cup Clause(\A k \in DOMAIN where : Cardinality({i \in DOMAIN rws : rws[i].k = k}) <= 1, "once")
        ELSE Clause(Len(rws) = Len(where) /\ \A i \in DOMAIN rws : rws[i].k = i, "one_per_time"))
  \cup UNION {CmpFailing(rws[i].cmp) : i \in DOMAIN rws}

-----------------------------------------------------------------------------
(* Recorded ground tracks (C21).  Unmasked rows: [k, cmp, hits] with hits a  *)
(* sequence of [want, got] for probe points that must lie inside or outside. *)
GroundTrackFailing(n, rws) ==
  Clause(Len(rws) = n /\ \A i \in DOMAIN rws : rws[i].k = i, "one_per_time")
  \cup UNION {CmpFailing(rws[i].cmp) : i \in DOMAIN rws}
  \cup Clause(\A i \in DOMAIN rws : \A j \in DOMAIN rws[i].hits : rws[i].hits[j][1] = rws[i].hits[j][2], "footprint")
\* meets: per sample "yes", "no" or "edge"; masked rows: [k, same, diff]: the
\* attributes equal those of the unmasked record, and the area by which the
\* geometry differs from the clipped one (hundredths of a percent)
MaskedTrackFailing(meets, rws) ==
  LET ks(k) == {i \in DOMAIN rws : rws[i].k = k} IN
  Clause(\A i \in DOMAIN rws : rws[i].k \in DOMAIN meets, "times")
  \cup Clause(\A k \in DOMAIN meets : meets[k] = "yes" => Cardinality(ks(k)) = 1, "kept")
  \cup Clause(\A k \in DOMAIN meets : meets[k] = "no" => ks(k) = {}, "dropped")
  \cup Clause(\A k \in DOMAIN meets : Cardinality(ks(k)) <= 1, "once")
  \cup Clause(\A i \in DOMAIN rws : rws[i].same, "attributes")
  \cup Clause(\A i \in DOMAIN rws : rws[i].k \in DOMAIN meets => (meets[rws[i].k] = "yes" => rws[i].diff <= 20), "clipped")

-----------------------------------------------------------------------------
(* Recorded aggregated ground tracks (C22).  S: samples [t, valid, r] with r *)
(* the swath radius; p: the orbit period; probes: [mask, in, pt, sg, got]:   *)
(* position in the mask, position in each sample's polygon ("in", "out",     *)
(* "edge"), distance to each sample and to the segment to the next one, and  *)
(* which result rows contain the probe.                                      *)
RevOf(S, p, k) == (S[k].t - S[1].t) \div p
RunOf(S, k) == Cardinality({j \in 2..k : S[j].valid # S[j - 1].valid})
AggGroups(S, p, line) ==
  LET V == {k \in DOMAIN S : S[k].valid}
      key(k) == IF line THEN <<RevOf(S, p, k), RunOf(S, k)>> ELSE <<RevOf(S, p, k), 0>>
  IN {{k \in V : key(k) = q} : q \in {key(k) : k \in V}}
MeanRadius(S, G) == LET b == SetMin(G) IN
  S[b].r + (SumSeq([i \in DOMAIN S |-> IF i \in G THEN S[i].r - S[b].r ELSE 0]) \div Cardinality(G))
InGroup(S, line, G, q) ==
  IF line
  THEN LET d == SetMin({q.pt[k] : k \in G} \cup {q.sg[k] : k \in {j \in G : j + 1 \in G}})
           r == MeanRadius(S, G)
       IN IF d * 100 < r * 96 THEN "in" ELSE IF d * 100 > r * 104 THEN "out" ELSE "edge"
  ELSE IF \E k \in G : q.in[k] = "in" THEN "in"
       ELSE IF \E k \in G : q.in[k] = "edge" THEN "edge" ELSE "out"
InResult(S, line, GS, q) ==
  IF q.mask # "in" THEN q.mask
  ELSE IF \E G \in GS : InGroup(S, line, G, q) = "in" THEN "in"
       ELSE IF \E G \in GS : InGroup(S, line, G, q) = "edge" THEN "edge" ELSE "out"
AggregateFailing(S, p, line, dissolve, msk, n, probes) ==
  LET groups0 == AggGroups(S, p, line)
      units == IF dissolve THEN (IF groups0 = {} THEN {} ELSE {groups0}) ELSE {{G} : G \in groups0}
      agrees(U, j) == \A i \in DOMAIN probes :
         LET w == InResult(S, line, U, probes[i]) IN w = "edge" \/ (w = "in") = probes[i].got[j]
      shown(U) == \E i \in DOMAIN probes : InResult(S, line, U, probes[i]) = "in"
  IN Clause(IF msk THEN n <= Cardinality(units) ELSE n = Cardinality(units), "count")
     \cup Clause(\A j \in 1..n : \E U \in units : agrees(U, j), "exact")
     \cup Clause(\A U \in units : shown(U) => \E j \in 1..n : agrees(U, j), "covered")
=============================================================================
