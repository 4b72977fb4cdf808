-------------------------------- MODULE Grid --------------------------------
(* Gridding of reduced points to cells (C06).                                *)
(*                                                                           *)
(* cells: sequence of [id, ring] with ring a convex polygon given counter-   *)
(* clockwise as a sequence of <<x, y>>.  pts: sequence of reduced rows       *)
(* [x, y, n, a, b] (n samples, a access, b revisit/latency; a, b may be NA). *)
(* The machine takes the points one at a time and adds each to every cell    *)
(* that contains it in its interior.                                         *)
EXTENDS Common

VARIABLES cells, pts, left, sums

gvars == <<cells, pts, left, sums>>

Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Inside(q, ring) ==
  \A k \in DOMAIN ring :
    Cross(ring[k], ring[IF k = Len(ring) THEN 1 ELSE k + 1], q) > 0

GridInit(C, P) == cells = C /\ pts = P /\ left = DOMAIN P /\ sums = << >>

Plus(s, v, n) == IF s = NA \/ v = NA THEN NA ELSE s + n * v

Place(k) ==
  /\ k \in left
  /\ left' = left \ {k}
  /\ LET r == pts[k]
         hit == {c \in DOMAIN cells : Inside(<<r.x, r.y>>, cells[c].ring)}
         old(c) == IF c \in DOMAIN sums THEN sums[c] ELSE [n |-> 0, sa |-> 0, sb |-> 0]
     IN sums' = [c \in DOMAIN sums \cup hit |->
                   IF c \in hit THEN [n |-> old(c).n + r.n,
                                      sa |-> Plus(old(c).sa, r.a, r.n),
                                      sb |-> Plus(old(c).sb, r.b, r.n)]
                   ELSE sums[c]]
  /\ UNCHANGED <<cells, pts>>

GridNext == \E k \in left : Place(k)
GridNextOrdered == left # {} /\ Place(SetMin(left))
GridDone == left = {}

-----------------------------------------------------------------------------
In(c) == {k \in DOMAIN pts : Inside(<<pts[k].x, pts[k].y>>, cells[c].ring)}
RECURSIVE SumN(_)
SumN(K) == IF K = {} THEN 0 ELSE LET k == CHOOSE j \in K : TRUE IN pts[k].n + SumN(K \ {k})

GridCorrect ==
  GridDone =>
    /\ DOMAIN sums = {c \in DOMAIN cells : In(c) # {}}
    /\ \A c \in DOMAIN sums :
         /\ sums[c].n = SumN(In(c))
         /\ (sums[c].sa = NA) = (\E k \in In(c) : pts[k].a = NA)
         /\ (sums[c].sb = NA) = (\E k \in In(c) : pts[k].b = NA)

\* with equal weights everything stays inside the range of the contained values
MeanInRange ==
  GridDone => \A c \in DOMAIN sums :
    sums[c].sa # NA =>
      LET m == sums[c].sa \div sums[c].n
          A == {pts[k].a : k \in In(c)}
      IN SetMin(A) <= m /\ m <= SetMax(A)

Rotations(r) == {[k \in DOMAIN r |-> r[((k + s - 1) % Len(r)) + 1]] : s \in 0..(Len(r) - 1)}

GridFailing(rows) ==
  LET ids == {rows[k].id : k \in DOMAIN rows}
      want == IF pts = <<>> THEN DOMAIN cells ELSE DOMAIN sums
      row(c) == rows[CHOOSE k \in DOMAIN rows : rows[k].id = cells[c].id]
      both == {c \in want : cells[c].id \in ids}
      val(c) == IF c \in DOMAIN sums THEN sums[c] ELSE [n |-> 0, sa |-> NA, sb |-> NA]
      mean(s, n) == IF s = NA THEN NA ELSE s \div n
  IN Clause(ids = {cells[c].id : c \in want}, "cells")
     \cup Clause(Len(rows) = Cardinality(ids), "one_row_per_cell")
     \cup Clause(\A c \in both : row(c).n = val(c).n, "samples")
     \cup Clause(\A c \in both : Near(row(c).a, mean(val(c).sa, val(c).n), 1), "weighted_access")
     \cup Clause(\A c \in both : Near(row(c).b, mean(val(c).sb, val(c).n), 1), "weighted_defined")
     \cup Clause(\A c \in both : row(c).ring \in Rotations(cells[c].ring), "geometry")
=============================================================================
