------------------------------- MODULE Buffer -------------------------------
(* Buffered targets (C32): the region kept when records far from a target    *)
(* are culled.  On a sphere with latitudes and longitudes in steps of five   *)
(* degrees; cosines are integers in units of 1/10000.                        *)
EXTENDS Common

CosTable == <<10000, 9962, 9848, 9659, 9397, 9063, 8660, 8192, 7660, 7071, 6428, 5736, 5000, 4226, 3420, 2588, 1736, 872, 0>>
RECURSIVE Cos5(_)
Cos5(k) == LET j == Abs(k) % 72 IN IF j > 36 THEN Cos5(72 - j) ELSE IF j > 18 THEN -CosTable[37 - j] ELSE CosTable[j + 1]
Sin5(k) == Cos5(k - 18)
\* cosine of the angle between two places <<longitude, latitude>>, in 1/10000
CosAngle(a, b) == (Sin5(a[2]) * Sin5(b[2])) \div 10000
                  + ((((Cos5(a[2]) * Cos5(b[2])) \div 10000) * Cos5(a[1] - b[1])) \div 10000)
Within(a, b, d) == CosAngle(a, b) >= Cos5(d) + 3   \* nearer than d, rounding aside
OnPlate(a, b) == LET x == Abs(a[1] - b[1]) % 72 IN Min2(x, 72 - x)

\* The buffer of target t for distance d: a plate of latitudes near the poles or
\* round the world, otherwise a disc on the plate whose radius is stretched by
\* the cosine of the farthest latitude.
Far(t, d) == Abs(t[2]) + d
Plate(t, d) == Far(t, d) >= 18 \/ 2 * d * 10000 > 36 * Cos5(Far(t, d))
Buffered(t, d, p) ==
  IF Plate(t, d) THEN p[2] >= t[2] - d /\ p[2] <= t[2] + d
  ELSE LET c == Cos5(Far(t, d))
           x == OnPlate(p, t)
           y == p[2] - t[2] IN (((x * x + y * y) * c) \div 100) * c <= d * d * 1000000 + 1000000

VARIABLES target, dist
bvars == <<target, dist>>
BufInit(t) == target = t /\ dist = 0
Grow(n) == dist < n /\ dist' = dist + 1 /\ UNCHANGED target
\* nothing within the distance is culled
Conservative(places) == \A p \in places : Within(p, target, dist) => Buffered(target, dist, p)
\* what is kept for a distance was kept or is within reach of the longer distance:
\* stretching never loses the disc of the true distance when the distance grows
Growing(places) == [][\A p \in places : Within(p, target, dist) => Buffered(target, dist', p)]_bvars
\* east and west are treated alike
EastWest(places) == \A p \in places : Buffered(target, dist, p) <=> Buffered(target, dist, <<-p[1], p[2]>>)

-----------------------------------------------------------------------------
(* Recorded buffers.  Distances in metres.                                   *)
\* ground speed (dm/s) over one time step (s), plus half of the swath width
Reach(q) == ((((q.speed * q.step) \div 10) + (q.swath \div 2)) \div 100) * q.percent
Sure(q) == (Reach(q) \div 100) * 98 - 50
BufFailing(q, o) ==
  Clause(o.valid, "valid")
  \cup Clause(o.box[1] >= -18000001 /\ o.box[3] <= 18000001 /\ o.box[2] >= -9000001 /\ o.box[4] <= 9000001, "box")
  \cup Clause(\A k \in DOMAIN q.probes : q.probes[k] = 0 => o.has[k], "target_kept")
  \cup Clause(\A k \in DOMAIN q.probes : q.probes[k] <= Sure(q) => o.has[k], "near_kept")
=============================================================================
