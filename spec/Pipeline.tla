------------------------------ MODULE Pipeline ------------------------------
(* From raw observations and contacts to gridded statistics (C33).           *)
(*                                                                           *)
(* The machine watches the mission as it happens instead of processing       *)
(* tables: observations of a point begin and end, contacts of a satellite    *)
(* begin.  A point is covered while any satellite observes it; each time it  *)
(* stops being covered, one sample is taken.  A satellite carries its        *)
(* observations until its next contact.  At one instant observations begin   *)
(* first, then end, then contacts begin.                                     *)
(*                                                                           *)
(* obs: sequence of [p, s, e, ep, sat, x, y]; dl: sequence of [sat, s, ep]   *)
(* with distinct starts per satellite; cells: sequence of [id, ring].        *)
EXTENDS Common

VARIABLES obs, dl, cells, todo, pt, pend, lat
pvars == <<obs, dl, cells, todo, pt, pend, lat>>

Points == {obs[k].p : k \in DOMAIN obs}
Sats == {obs[k].sat : k \in DOMAIN obs} \cup {dl[k].sat : k \in DOMAIN dl}

PipeInit(O, D, C) ==
  /\ obs = O /\ dl = D /\ cells = C
  /\ todo = {<<O[k].s, 0, k>> : k \in DOMAIN O} \cup {<<O[k].e, 1, k>> : k \in DOMAIN O} \cup {<<D[k].s, 2, k>> : k \in DOMAIN D}
  /\ pt = [p \in {O[k].p : k \in DOMAIN O} |-> [act |-> {}, since |-> NA, last |-> NA, n |-> 0, sa |-> 0, nb |-> 0, sb |-> 0]]
  /\ pend = [s \in {O[k].sat : k \in DOMAIN O} \cup {D[k].sat : k \in DOMAIN D} |-> {}]
  /\ lat = [k \in DOMAIN O |-> NA]

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Due(x) == x \in todo /\ \A y \in todo : ~Before(y, x)

Begin(x) ==
  /\ Due(x) /\ x[2] = 0
  /\ LET o == obs[x[3]] IN
       pt' = [pt EXCEPT ![o.p].act = @ \cup {x[3]}, ![o.p].since = IF pt[o.p].act = {} THEN o.s ELSE @]
  /\ todo' = todo \ {x} /\ UNCHANGED <<obs, dl, cells, pend, lat>>

End(x) ==
  /\ Due(x) /\ x[2] = 1
  /\ LET o == obs[x[3]]
         w == pt[o.p]
         rest == w.act \ {x[3]} IN
     /\ pt' = [pt EXCEPT ![o.p] =
          IF rest # {} THEN [w EXCEPT !.act = rest]
          ELSE [act |-> {}, since |-> NA, last |-> o.e, n |-> w.n + 1, sa |-> w.sa + (o.e - w.since),
                nb |-> IF w.last = NA THEN w.nb ELSE w.nb + 1,
                sb |-> IF w.last = NA THEN w.sb ELSE w.sb + (w.since - w.last)]]
     /\ pend' = [pend EXCEPT ![o.sat] = @ \cup {x[3]}]
  /\ todo' = todo \ {x} /\ UNCHANGED <<obs, dl, cells, lat>>

Contact(x) ==
  /\ Due(x) /\ x[2] = 2
  /\ LET d == dl[x[3]] IN
     /\ lat' = [k \in DOMAIN lat |-> IF k \in pend[d.sat] THEN d.ep - obs[k].ep ELSE lat[k]]
     /\ pend' = [pend EXCEPT ![d.sat] = {}]
  /\ todo' = todo \ {x} /\ UNCHANGED <<obs, dl, cells, pt>>

PipeNext == \E x \in todo : Begin(x) \/ End(x) \/ Contact(x)
\* one representative order
PipeNextOrdered == todo # {} /\ LET x == CHOOSE y \in todo : Due(y) IN Begin(x) \/ End(x) \/ Contact(x)
PipeDone == todo = {}

-----------------------------------------------------------------------------
(* The stages of the batch processing, for comparison.                       *)
A == INSTANCE Aggregate WITH inp <- obs, pts <- {}, todo <- <<>>, grp <- <<>>, out <- <<>>
L == INSTANCE Latency WITH ho <- {}, hd <- {}, nxt <- <<>>, pair <- <<>>
Gr == INSTANCE Grid WITH cells <- cells, pts <- <<>>, left <- {}, sums <- <<>>

OfPoint(p) == {C \in A!Components(obs) : obs[CHOOSE k \in C : TRUE].p = p}
CStart(C) == SetMin({obs[k].s : k \in C})
CEnd(C) == SetMax({obs[k].e : k \in C})
RECURSIVE SumF(_)
SumF(f) == IF DOMAIN f = {} THEN 0
           ELSE LET x == CHOOSE y \in DOMAIN f : TRUE IN f[x] + SumF([y \in DOMAIN f \ {x} |-> f[y]])

\* the samples are the connected groups of overlapping observations
SamplesAreGroups == PipeDone => \A p \in Points :
  /\ pt[p].n = Cardinality(OfPoint(p))
  /\ pt[p].nb = pt[p].n - 1
  /\ pt[p].sa = SumF([C \in OfPoint(p) |-> CEnd(C) - CStart(C)])
\* covered and uncovered time make up the time from the first to the last observation
TimesAddUp == PipeDone => \A p \in Points :
  pt[p].sa + pt[p].sb = SetMax({CEnd(C) : C \in OfPoint(p)}) - SetMin({CStart(C) : C \in OfPoint(p)})
\* every observation reaches the ground at the first contact after its end
LatencyIsNext == PipeDone => \A k \in DOMAIN obs :
  IF L!First(k) = {} THEN lat[k] = NA ELSE lat[k] = dl[CHOOSE j \in L!First(k) : TRUE].ep - obs[k].ep
\* nothing is carried past a contact, and nothing is dropped
Carried == \A k \in DOMAIN obs : lat[k] # NA => \A s \in DOMAIN pend : k \notin pend[s]
NoLoss == PipeDone => \A k \in DOMAIN obs : lat[k] # NA \/ k \in pend[obs[k].sat]

-----------------------------------------------------------------------------
(* The statistics: rows [n, a, b] per point; b may be missing.               *)
Mean(s, n) == IF n = 0 THEN NA ELSE s \div n
CoverRow(p) == [n |-> pt[p].n, a |-> Mean(pt[p].sa, pt[p].n), b |-> Mean(pt[p].sb, pt[p].nb)]
LatRow(p) ==
  LET K == {k \in DOMAIN obs : obs[k].p = p}
      D == {k \in K : lat[k] # NA} IN
  [n |-> Cardinality(K), a |-> NA, b |-> Mean(SumF([k \in D |-> lat[k]]), Cardinality(D))]

\* weighted mean without forming large products: whole seconds and rest apart
Weighted(P, row(_), v(_)) ==
  IF \E p \in P : v(row(p)) = NA THEN NA ELSE
  LET N == SumF([p \in P |-> row(p).n])
      hi == SumF([p \in P |-> row(p).n * (v(row(p)) \div 1000)])
      lo == SumF([p \in P |-> row(p).n * (v(row(p)) % 1000)]) IN
  (hi \div N) * 1000 + ((hi % N) * 1000 + lo) \div N

Place(p) == LET o == obs[CHOOSE k \in DOMAIN obs : obs[k].p = p] IN <<o.x, o.y>>
InCell(c) == {p \in Points : Gr!Inside(Place(p), cells[c].ring)}

\* rows reported: per point [p, n, a, b] and per cell [id, n, a, b]
StageFailing(row(_), P, prs, crs, tag) ==
  LET pids == {prs[k].p : k \in DOMAIN prs}
      pr(p) == prs[CHOOSE k \in DOMAIN prs : prs[k].p = p]
      want == IF P = {} THEN DOMAIN cells ELSE {c \in DOMAIN cells : InCell(c) \cap P # {}}
      cids == {crs[k].id : k \in DOMAIN crs}
      cr(c) == crs[CHOOSE k \in DOMAIN crs : crs[k].id = cells[c].id]
      both == {c \in want : cells[c].id \in cids}
      In(c) == InCell(c) \cap P IN
  Clause(pids = P /\ Len(prs) = Cardinality(pids), tag \o "_points")
  \cup Clause(\A p \in P \cap pids : pr(p).n = row(p).n, tag \o "_samples")
  \cup Clause(\A p \in P \cap pids : Near(pr(p).a, row(p).a, 1), tag \o "_access")
  \cup Clause(\A p \in P \cap pids : Near(pr(p).b, row(p).b, 1), tag \o "_mean")
  \cup Clause(cids = {cells[c].id : c \in want} /\ Len(crs) = Cardinality(cids), tag \o "_cells")
  \cup Clause(\A c \in both : cr(c).n = SumF([p \in In(c) |-> row(p).n]), tag \o "_cell_samples")
  \cup Clause(\A c \in both : Near(cr(c).a, IF In(c) = {} THEN NA ELSE Weighted(In(c), row, LAMBDA r : r.a), 2), tag \o "_cell_access")
  \cup Clause(\A c \in both : Near(cr(c).b, IF In(c) = {} THEN NA ELSE Weighted(In(c), row, LAMBDA r : r.b), 2), tag \o "_cell_mean")

CoverFailing(prs, crs) == StageFailing(CoverRow, Points, prs, crs, "cover")
\* without observations or without any contact table there are no latencies
LatencyFailing(prs, crs) == StageFailing(LatRow, IF dl = <<>> THEN {} ELSE Points, prs, crs, "latency")
=============================================================================
