------------------------------ MODULE Footprint ------------------------------
(* Instantaneous footprints (C24) in the view plane: the plane perpendicular *)
(* to nadir at unit distance, x across (right) and y along track.  The field *)
(* of view is an ellipse or a rectangle with half axes c and a, displaced by *)
(* (dx, dy); the Earth is the disc of squared radius lim.                    *)
EXTENDS Common
VARIABLES c, a, dx, dy, rect, lim
fvars == <<c, a, dx, dy, rect, lim>>
W == 6
Plane == ((-W)..W) \X ((-W)..W)
InShape(p, cc, aa, x, y, r) ==
  IF r THEN Abs(p[1] - x) <= cc /\ Abs(p[2] - y) <= aa
  ELSE (p[1] - x) * (p[1] - x) * aa * aa + (p[2] - y) * (p[2] - y) * cc * cc <= cc * cc * aa * aa
Shape == {p \in Plane : InShape(p, c, a, dx, dy, rect)}
Disc == {p \in Plane : p[1] * p[1] + p[2] * p[2] <= lim}
Foot == Shape \cap Disc
FootInit(cc, aa, x, y, r, m) == c = cc /\ a = aa /\ dx = x /\ dy = y /\ rect = r /\ lim = m
Widen == c' = c + 1 /\ UNCHANGED <<a, dx, dy, rect, lim>>
Lengthen == a' = a + 1 /\ UNCHANGED <<c, dx, dy, rect, lim>>
Square == ~rect /\ rect' = TRUE /\ UNCHANGED <<c, a, dx, dy, lim>>
Climb == lim' = lim + 1 /\ UNCHANGED <<c, a, dx, dy, rect>>
FootNext == Widen \/ Lengthen \/ Square \/ Climb

Around(p) == {<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>}
Border(S) == {p \in S : \E q \in Around(p) : q \notin S}
\* an outline runs along the boundary of the field of view or along the limb
OutlineIsBoundary == \A p \in Border(Foot) : p \in Border(Shape) \/ p \in Border(Disc)
CentreSeen == (dx * dx + dy * dy <= lim) => <<dx, dy>> \in Foot
\* widening never loses ground
Grows == [][Foot \subseteq Foot']_fvars

-----------------------------------------------------------------------------
(* Recorded outlines: vertices [u, w, el]: the view coordinates relative to  *)
(* the pointing in units of 1/10000 of the half axes (clamped), and the      *)
(* satellite's elevation angle seen from the vertex (millidegrees).          *)
OnShape(v, r) == IF r THEN Abs(Max2(Abs(v.u), Abs(v.w)) - 10000) <= 20
                 ELSE Abs(v.u * v.u + v.w * v.w - 100000000) <= 400000
OnLimb(v, tol) == Abs(v.el) <= tol
\* miss: "no" ray of the boundary misses the Earth, "all" do, or "some"
\* splitting an outline inserts vertices where its pieces meet
Most(vs, ok(_), single) == LET n == Cardinality({k \in DOMAIN vs : ok(vs[k])}) IN
  IF single THEN n = Len(vs) ELSE 5 * n >= 3 * Len(vs)
VertexFailing(vs, r, miss, single) ==
  Clause(Most(vs, LAMBDA v : v.el >= -300, single), "near_side")
  \cup Clause(Most(vs, LAMBDA v : OnShape(v, r) \/ (miss # "no" /\ OnLimb(v, 20)), single), "on_boundary")
  \cup Clause(miss = "all" => Most(vs, LAMBDA v : OnLimb(v, 20), single), "limb")
\* a rectangle seen whole has its four corners
CornerFailing(vs, r, whole) ==
  Clause((r /\ whole) => \A sx \in {-1, 1} : \A sy \in {-1, 1} : \E k \in DOMAIN vs :
           Abs(vs[k].u - 10000 * sx) <= 20 /\ Abs(vs[k].w - 10000 * sy) <= 20, "corners")
\* number of distinct vertices of an outline that was not split; a closed
\* sequence of n points on an ellipse repeats its first one
CountFailing(d, r, n, whole) ==
  Clause(whole => (IF r THEN d = 4 * n ELSE d \in {n - 1, n}), "number_points")
\* no large gap between neighbouring vertices seen from the pointing
\* (angles in thousandths of a turn, in outline order, ellipse seen whole)
GapFailing(angs, r, n, whole) ==
  Clause((whole /\ ~r) => \A k \in DOMAIN angs :
     LET q == IF k = Len(angs) THEN angs[1] ELSE angs[k + 1]
         g == (q - angs[k]) % 10000
     IN Min2(g, 10000 - g) <= (10000 \div (n - 1)) + 20, "spread")
OutlineFailing(q, o) ==
  VertexFailing(o.vs, q.rect, q.miss, o.single)
  \cup CornerFailing(o.vs, q.rect, q.miss = "no")
  \cup CountFailing(o.distinct, q.rect, q.n, q.miss = "no" /\ o.single)
  \cup GapFailing(o.angs, q.rect, q.n, q.miss = "no" /\ o.single)
  \cup Clause(q.low => o.centre # "out", "centre")
  \cup Clause(o.alone <= 10, "same_alone")
  \cup Clause(q.low => o.lost <= 300, "grows")
  \cup CmpFailing(o.cmp)
LimbFailing(q, o) ==
  Clause(Most(o.vs, LAMBDA v : OnLimb(v, 3), o.single), "tangent")
  \cup Clause(q.low => o.centre = "in", "centre")
  \cup Clause(o.single => o.distinct \in {q.n - 1, q.n}, "number_points")
  \cup Clause(o.alone <= 10, "same_alone")
  \cup CmpFailing(o.cmp)
RayFailing(q, o) ==
  Clause(o.v.el >= -300, "near_side")
  \cup (IF q.hits THEN CmpFailing(o.cmp) ELSE Clause(OnLimb(o.v, 20), "limb"))
=============================================================================
