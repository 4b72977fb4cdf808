------------------------------- MODULE Reduce -------------------------------
(* Per-point statistics of aggregated observations or latencies (C05).       *)
(*                                                                           *)
(* A record is [p, a, b, x, y]: point, a value that is always present        *)
(* (access; 0 for latencies) and a value that may be missing (revisit or     *)
(* latency).  The machine consumes the records in any order, accumulating    *)
(* one row per point.                                                        *)
EXTENDS Common

VARIABLES recs, left, acc    \* input, indices not yet consumed, point -> row

rvars == <<recs, left, acc>>

RedInit(R) == recs = R /\ left = DOMAIN R /\ acc = << >>

Zero(r) == [n |-> 0, sa |-> 0, nb |-> 0, sb |-> 0, x |-> r.x, y |-> r.y, z |-> r.z]
Add(w, r) == [w EXCEPT !.n = @ + 1, !.sa = @ + r.a,
                       !.nb = IF r.b = NA THEN @ ELSE @ + 1,
                       !.sb = IF r.b = NA THEN @ ELSE @ + r.b]

Consume(k) ==
  /\ k \in left
  /\ left' = left \ {k}
  /\ LET r == recs[k]
         w == IF r.p \in DOMAIN acc THEN acc[r.p] ELSE Zero(r)
     IN acc' = [q \in DOMAIN acc \cup {r.p} |-> IF q = r.p THEN Add(w, r) ELSE acc[q]]
  /\ UNCHANGED recs

\* any order is allowed by the specification; traces use the written order
RedNext == \E k \in left : Consume(k)
RedNextOrdered == left # {} /\ Consume(SetMin(left))
RedDone == left = {}

-----------------------------------------------------------------------------
Of(p) == {k \in DOMAIN recs : recs[k].p = p}
RECURSIVE SumOver(_)
SumOver(K) == IF K = {} THEN <<0, 0>>
              ELSE LET k == CHOOSE j \in K : TRUE
                       s == SumOver(K \ {k})
                   IN <<s[1] + recs[k].a, s[2] + (IF recs[k].b = NA THEN 0 ELSE recs[k].b)>>

\* whatever the order, one row per point with the sums over its own records
ReduceCorrect ==
  RedDone =>
    /\ DOMAIN acc = {recs[k].p : k \in DOMAIN recs}
    /\ \A p \in DOMAIN acc :
         /\ acc[p].n = Cardinality(Of(p))
         /\ acc[p].nb = Cardinality({k \in Of(p) : recs[k].b # NA})
         /\ <<acc[p].sa, acc[p].sb>> = SumOver(Of(p))

\* rows reported by the code: [p, n, a, b, x, y]
MeanOk(v, s, n) == IF n = 0 THEN v = NA ELSE v # NA /\ Abs(v - (s \div n)) <= 1

RedFailing(rows) ==
  LET ids == {rows[k].p : k \in DOMAIN rows}
      row(p) == rows[CHOOSE k \in DOMAIN rows : rows[k].p = p]
      both == ids \cap DOMAIN acc
  IN Clause(ids = DOMAIN acc, "points")
     \cup Clause(Len(rows) = Cardinality(ids), "one_row_per_point")
     \cup Clause(\A p \in both : row(p).n = acc[p].n, "samples")
     \cup Clause(\A p \in both : MeanOk(row(p).a, acc[p].sa, acc[p].n), "mean_access")
     \cup Clause(\A p \in both : MeanOk(row(p).b, acc[p].sb, acc[p].nb), "mean_defined")
     \cup Clause(\A p \in both : <<row(p).x, row(p).y, row(p).z>> = <<acc[p].x, acc[p].y, acc[p].z>>, "geometry")
=============================================================================
