------------------------------ MODULE Lattice -------------------------------
(* Generated points and cells (C17, C18).  Angles are integers of U units    *)
(* per degree; th is the (even) spacing of the regular grid.                 *)
(*                                                                           *)
(* The machine walks the index ranges the way a generator does: it rounds    *)
(* the bounding box to index ranges and emits the cells row by row.          *)
EXTENDS Common

CONSTANT U
Full == 360 * U
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
NLon(th) == RoundDiv(Full, th)
NLat(th) == RoundDiv(180 * U, th)
Globe == <<-180 * U, -90 * U, 180 * U, 90 * U>>
CentreX(i, th) == (-180 * U) + i * th + th \div 2
CentreY(j, th) == (-90 * U) + j * th + th \div 2
CellId(i, j, th) == j * NLon(th) + (i % NLon(th))
\* a region may continue eastward beyond 180 degrees (regular grids: only when
\* the spacing divides the circle); its chart starts at its west edge x0
Chart(x, x0) == IF x < x0 THEN x + Full ELSE x

VARIABLES th, box, strip, at, out
lvars == <<th, box, strip, at, out>>

ILo == IF strip = "lat" THEN 0 ELSE RoundDiv(box[1] + 180 * U, th)
IHi == IF strip = "lat" THEN 1 ELSE RoundDiv(box[3] + 180 * U, th)
JLo == IF strip = "lon" THEN 0 ELSE RoundDiv(box[2] + 90 * U, th)
JHi == IF strip = "lon" THEN 1 ELSE RoundDiv(box[4] + 90 * U, th)

LatticeInit(t, b, s) == th = t /\ box = b /\ strip = s /\ at = <<NA, NA>> /\ out = <<>>
Start == at = <<NA, NA>>
LatticeDone == at = <<NA, 0>>
Emit ==
  /\ ~LatticeDone
  /\ LET a == IF Start THEN <<ILo, JLo>> ELSE at IN
     IF a[2] >= JHi \/ ILo >= IHi
     THEN at' = <<NA, 0>> /\ out' = out
     ELSE /\ out' = Append(out, <<a[1], a[2], CellId(a[1], a[2], th)>>)
          /\ at' = IF a[1] + 1 < IHi THEN <<a[1] + 1, a[2]>> ELSE <<ILo, a[2] + 1>>
  /\ UNCHANGED <<th, box, strip>>

-----------------------------------------------------------------------------
\* the declared meaning: the cells whose centre lies in the box
WantCells(t, b, s) ==
  {<<i, j>> \in (0..(IF b[3] > 180 * U THEN 2 * NLon(t) - 1 ELSE NLon(t) - 1)) \X (0..(NLat(t) - 1)) :
     /\ (IF s = "lat" THEN i = 0 ELSE b[1] <= CentreX(i, t) /\ CentreX(i, t) <= b[3])
     /\ (IF s = "lon" THEN j = 0 ELSE b[2] <= CentreY(j, t) /\ CentreY(j, t) <= b[4])}

\* west, south, east, north edges
Edges(i, j, t, b, s) ==
  <<IF s = "lat" THEN b[1] ELSE (-180 * U) + i * t, IF s = "lon" THEN b[2] ELSE (-90 * U) + j * t,
    IF s = "lat" THEN b[3] ELSE (-180 * U) + (i + 1) * t, IF s = "lon" THEN b[4] ELSE (-90 * U) + (j + 1) * t>>
Overlap(e, f) == Max2(e[1], f[1]) < Min2(e[3], f[3]) /\ Max2(e[2], f[2]) < Min2(e[4], f[4])

WalkIsWanted == LatticeDone => {<<out[k][1], out[k][2]>> : k \in DOMAIN out} = WantCells(th, box, strip)
RowByRow == (LatticeDone /\ box[3] <= 180 * U) => \A k \in DOMAIN out : k > 1 => out[k - 1][3] < out[k][3]
Tiling == LatticeDone => \A k \in DOMAIN out : \A m \in DOMAIN out :
  k < m => /\ out[k][3] # out[m][3]
           /\ ~Overlap(Edges(out[k][1], out[k][2], th, box, strip), Edges(out[m][1], out[m][2], th, box, strip))
\* without a mask the grid ends within half a spacing of the antimeridian and pole
Covers == (LatticeDone /\ box = Globe) =>
  /\ Abs(NLon(th) * th - Full) <= th \div 2 /\ Abs(NLat(th) * th - 180 * U) <= th \div 2

-----------------------------------------------------------------------------
(* Masks: a sequence of rings (outer and inner alike), even-odd rule.        *)
Crosses(a, b, q) ==
  /\ (a[2] > q[2]) # (b[2] > q[2])
  /\ LET c == (b[1] - a[1]) * (q[2] - a[2]) - (q[1] - a[1]) * (b[2] - a[2]) IN
     IF b[2] > a[2] THEN c > 0 ELSE c < 0
CrossCount(ring, q) == Cardinality({k \in DOMAIN ring : Crosses(ring[k], ring[IF k = Len(ring) THEN 1 ELSE k + 1], q)})
InMask(rings, q) == SumSeq([k \in DOMAIN rings |-> CrossCount(rings[k], q)]) % 2 = 1
\* within e units of the boundary (the corners and sides of a small box disagree)
Doubtful(rings, q, e) == \E dx \in {-e, 0, e} : \E dy \in {-e, 0, e} : InMask(rings, <<q[1] + dx, q[2] + dy>>) # InMask(rings, q)

-----------------------------------------------------------------------------
(* Recorded points: rows of [id, x, y, z] in units of 1/U degree.            *)
ById(rows) == [i \in {rows[k].id : k \in DOMAIN rows} |-> rows[CHOOSE k \in DOMAIN rows : rows[k].id = i]]

\* west: the west edge of the chart of the mask
GridPointFailing(t, rings, west, elev, rows) ==
  LET cells == (0..(NLon(t) - 1)) \X (0..(NLat(t) - 1))
      pos == [i \in {CellId(c[1], c[2], t) : c \in cells} |-> <<Chart(CentreX(i % NLon(t), t), west), CentreY(i \div NLon(t), t)>>]
      got == ById(rows) IN
  Clause(Cardinality(DOMAIN got) = Len(rows), "unique_ids")
  \cup Clause(DOMAIN got \subseteq DOMAIN pos, "known_ids")
  \cup Clause(\A i \in DOMAIN got \cap DOMAIN pos : Abs(got[i].x - pos[i][1]) <= 1 /\ Abs(got[i].y - pos[i][2]) <= 1, "position")
  \cup Clause(\A i \in DOMAIN got : got[i].z = elev, "elevation")
  \cup (IF rings = <<>> THEN Clause(DOMAIN got = DOMAIN pos, "all_points")
        ELSE Clause(\A i \in DOMAIN pos : ((i \in DOMAIN got) = InMask(rings, pos[i])) \/ Doubtful(rings, pos[i], 1), "mask_selects"))

\* the golden angle, 360 degrees over the golden ratio, in millionths of a degree
Golden == 222492236
\* longitude of point i in millionths of a degree, i < 4000
FibLon(i) == ((((i * 222) % 360) * 1000000) + ((i * 492236) % 360000000)) % 360000000
\* longitude in (-180, 180], in units of 1/U degree
ToUnits(x) == LET y == RoundDiv(x, 1000000 \div U) IN IF y > 180 * U THEN y - Full ELSE y
SameLon(a, b, tol) == LET d == Abs(a - b) % Full IN d <= tol \/ Full - d <= tol

\* rows carry sine: the sine of the latitude times 10^5; wrap: the mask continues
\* eastward beyond 180 degrees from its west edge
FibFailing(n, rings, wrap, elev, rows) ==
  LET got == ById(rows) IN
  Clause(Cardinality(DOMAIN got) = Len(rows), "unique_ids")
  \cup Clause(DOMAIN got \subseteq 0..(n - 1), "known_ids")
  \cup Clause(\A i \in DOMAIN got \cap (0..(n - 1)) : SameLon(got[i].x, ToUnits(FibLon(i)), 1), "longitude")
  \cup Clause(\A i \in DOMAIN got : IF wrap THEN TRUE ELSE (-180 * U) <= got[i].x /\ got[i].x <= 180 * U, "longitude_range")
  \cup Clause(\A i \in DOMAIN got : Abs(got[i].sine * (n + 2) - 100000 * (2 * (i + 1) - (n + 2))) <= 2 * (n + 2), "latitude")
  \cup Clause(\A i \in DOMAIN got : got[i].z = elev, "elevation")
  \cup (IF rings = <<>> THEN Clause(DOMAIN got = 0..(n - 1), "all_points") ELSE {})
\* all: the unmasked lattice of the same spacing
FibMaskFailing(rings, west, wrap, all, rows) ==
  LET ids == {rows[k].id : k \in DOMAIN rows}
      q(p) == <<IF wrap THEN Chart(p.x, west) ELSE p.x, p.y>> IN
  Clause(\A k \in DOMAIN all : ((all[k].id \in ids) = InMask(rings, q(all[k]))) \/ Doubtful(rings, q(all[k]), 2), "mask_selects")

-----------------------------------------------------------------------------
(* Recorded cells: rows of [id, e, z, rect]: e the west, south, east, north  *)
(* edges; rect whether the geometry is that rectangle.                       *)
\* cell cut to a rectangular mask
Cut(e, b) == <<Max2(e[1], b[1]), Max2(e[2], b[2]), Min2(e[3], b[3]), Min2(e[4], b[4])>>
Area0(e) == e[1] >= e[3] \/ e[2] >= e[4]
NearEdges(e, f) == \A k \in 1..4 : Abs(e[k] - f[k]) <= 1
CellFailing(t, b, s, masked, elev, rows) ==
  LET want == WantCells(t, b, s)
      ed == [i \in {CellId(c[1], c[2], t) : c \in want} |->
               LET w == CHOOSE c \in want : CellId(c[1], c[2], t) = i
                   e == Edges(w[1], w[2], t, b, s) IN IF masked THEN Cut(e, b) ELSE e]
      real == {i \in DOMAIN ed : ~Area0(ed[i])}
      got == ById(rows) IN
  Clause(Cardinality(DOMAIN got) = Len(rows), "unique_ids")
  \cup Clause(real \subseteq DOMAIN got /\ DOMAIN got \subseteq DOMAIN ed, "cells")
  \cup Clause(\A i \in DOMAIN got \cap real : got[i].rect /\ NearEdges(got[i].e, ed[i]), "geometry")
  \cup Clause(\A i \in DOMAIN got : got[i].z = elev, "elevation")
\* any mask: part[i] = [id, area, off]: area of the cell's part in the mask and
\* area by which the returned geometry differs from the hull of that part, both
\* in hundredths of a percent of the cell (off = NA: cell not returned)
PartFailing(t, b, s, part, elev, rows) ==
  LET want == {CellId(c[1], c[2], t) : c \in WantCells(t, b, s)} IN
  Clause(\A k \in DOMAIN part : (part[k].id \in want /\ part[k].area > 1) => part[k].off # NA, "cells")
  \cup Clause(\A k \in DOMAIN part : part[k].off # NA => part[k].id \in want /\ part[k].near, "absent_cells")
  \cup Clause(\A k \in DOMAIN part : part[k].off # NA => part[k].off <= 1, "geometry")
  \cup Clause({rows[k].id : k \in DOMAIN rows} \subseteq {part[k].id : k \in DOMAIN part}
              /\ Cardinality({rows[k].id : k \in DOMAIN rows}) = Len(rows), "unique_ids")
  \cup Clause(\A k \in DOMAIN rows : rows[k].z = elev, "elevation")
\* points and cells of the same spacing and mask: each point in the cell of its id
PairFailing(pairs) == Clause(\A k \in DOMAIN pairs : pairs[k] # "outside", "point_in_cell")
                      \cup Clause(\A k \in DOMAIN pairs : pairs[k] # "missing", "cell_of_point")
=============================================================================
