-------------------------------- MODULE Wrap --------------------------------
(* Splitting of regions over the antimeridian and the poles (C19).           *)
(*                                                                           *)
(* H is half a turn of longitude, Q a quarter turn (the latitude of a pole). *)
(* A region is drawn on the unrolled plane; the globe point of <<x, y>> is   *)
(* the same as that of <<x + 2H, y>> and of its images over the poles.       *)
(* The machine takes one rectangle and cuts, shifts and flips pieces, in any *)
(* order, until all of them lie on the chart [-H, H] x [-Q, Q].              *)
EXTENDS Common
CONSTANTS H, Q

VARIABLES region, todo, fin
wvars == <<region, todo, fin>>

WrapInit(r) == region = r /\ todo = {r} /\ fin = {}

CutX(r, x) == {<<r[1], r[2], x, r[4]>>, <<x, r[2], r[3], r[4]>>}
CutY(r, y) == {<<r[1], r[2], r[3], y>>, <<r[1], y, r[3], r[4]>>}
ShiftX(r, d) == <<r[1] + d, r[2], r[3] + d, r[4]>>
\* over the north (s = 1) or south (s = -1) pole, to the opposite meridian
Flip(r, s) == LET d == IF r[3] <= 0 THEN H ELSE -H
                  m == s * 2 * Q
              IN <<r[1] + d, m - r[4], r[3] + d, m - r[2]>>
\* pieces that may replace r (empty: r lies on the chart)
Rules(r) ==
  (IF r[1] < -H /\ -H < r[3] THEN {CutX(r, -H)} ELSE {})
  \cup (IF r[1] < H /\ H < r[3] THEN {CutX(r, H)} ELSE {})
  \cup (IF r[3] <= -H THEN {{ShiftX(r, 2 * H)}} ELSE {})
  \cup (IF r[1] >= H THEN {{ShiftX(r, -2 * H)}} ELSE {})
  \cup (IF r[2] < Q /\ Q < r[4] THEN {CutY(r, Q)} ELSE {})
  \cup (IF r[2] < -Q /\ -Q < r[4] THEN {CutY(r, -Q)} ELSE {})
  \cup (IF r[2] >= Q \/ r[4] <= -Q
        THEN IF r[1] < 0 /\ 0 < r[3] THEN {CutX(r, 0)}
             ELSE IF r[1] >= -H /\ r[3] <= H THEN {{Flip(r, IF r[2] >= Q THEN 1 ELSE -1)}} ELSE {}
        ELSE {})
WrapStep == \E r \in todo :
  IF Rules(r) = {} THEN todo' = todo \ {r} /\ fin' = fin \cup {r} /\ UNCHANGED region
  ELSE \E n \in Rules(r) : todo' = (todo \ {r}) \cup n /\ UNCHANGED <<fin, region>>
WrapDone == todo = {}

-----------------------------------------------------------------------------
\* unit square <<i, j>> of the chart: its images on the unrolled plane
Images(i, j) == {<<i + k * 2 * H, j>> : k \in {-1, 0, 1}}
                \cup {<<i + (2 * k + 1) * H, 2 * Q - 1 - j>> : k \in {-1, 0, 1}}
                \cup {<<i + (2 * k + 1) * H, -2 * Q - 1 - j>> : k \in {-1, 0, 1}}
HasSquare(r, s) == r[1] <= s[1] /\ s[1] + 1 <= r[3] /\ r[2] <= s[2] /\ s[2] + 1 <= r[4]
Squares == ((-H)..(H - 1)) \X ((-Q)..(Q - 1))
Covered(R) == {s \in Squares : \E r \in R : \E t \in Images(s[1], s[2]) : HasSquare(r, t)}
KeepsRegion == Covered(todo \cup fin) = Covered({region})
OnChart == \A r \in fin : -H <= r[1] /\ r[3] <= H /\ -Q <= r[2] /\ r[4] <= Q
SizeKept == LET a(S) == {s \in S \X S : s[1] # s[2]} IN
  \A p \in a(todo \cup fin) : Max2(p[1][1], p[2][1]) >= Min2(p[1][3], p[2][3]) \/ Max2(p[1][2], p[2][2]) >= Min2(p[1][4], p[2][4])

-----------------------------------------------------------------------------
(* Recorded polygons: rings of <<x, y>> on the chart; two neighbouring       *)
(* vertices more than half a turn apart are joined across the antimeridian.  *)
Step1(a, b) == IF b - a > H THEN b - a - 2 * H ELSE IF a - b > H THEN b - a + 2 * H ELSE b - a
RECURSIVE Unroll(_, _, _)
Unroll(ring, k, acc) ==
  IF k > Len(ring) THEN acc
  ELSE Unroll(ring, k + 1, Append(acc, <<acc[k - 1][1] + Step1(ring[k - 1][1], ring[k][1]), ring[k][2]>>))
Unrolled(ring) == Unroll(ring, 2, <<ring[1]>>)
Turn(ring) == LET u == Unrolled(ring) IN u[Len(u)][1] + Step1(ring[Len(ring)][1], ring[1][1]) - u[1][1]

\* does the upward meridian from q cross the edge a-b
Meets(a, b, q) ==
  /\ (a[1] > q[1]) # (b[1] > q[1])
  /\ LET c == (b[2] - a[2]) * (q[1] - a[1]) - (q[2] - a[2]) * (b[1] - a[1]) IN
     IF b[1] > a[1] THEN c > 0 ELSE c < 0
UpCount(u, closing, q) ==
  Cardinality({k \in DOMAIN u : Meets(u[k], IF k = Len(u) THEN closing ELSE u[k + 1], q)})
\* a ring that does not go round a pole
InPlane(u, q) == UpCount(u, u[1], q) % 2 = 1
InRing(u, q) ==
  \/ \E k \in {-1, 0, 1} : InPlane(u, <<q[1] + 2 * k * H, q[2]>>)
  \/ \E k \in -2..1 : InPlane(u, <<q[1] + (2 * k + 1) * H, 2 * Q - q[2]>>)
  \/ \E k \in -2..1 : InPlane(u, <<q[1] + (2 * k + 1) * H, -2 * Q - q[2]>>)
\* a ring round a pole: the side that holds the pole of the hemisphere where
\* its vertices lie on average
RECURSIVE Lats(_, _)
Lats(u, k) == IF k = 0 THEN 0 ELSE u[k][2] + Lats(u, k - 1)
InCap(u, turn, q) ==
  LET n == UpCount(u, <<u[1][1] + turn, u[1][2]>>, q)
           + UpCount(u, <<u[1][1] + turn, u[1][2]>>, <<q[1] + 2 * H, q[2]>>)
           + UpCount(u, <<u[1][1] + turn, u[1][2]>>, <<q[1] - 2 * H, q[2]>>) IN
  IF Lats(u, Len(u)) > 0 THEN n % 2 = 0 ELSE n % 2 = 1
InRegion(outer, turn, inner, q) ==
  /\ (IF turn = 0 THEN InRing(outer, q) ELSE InCap(outer, turn, q))
  /\ \A k \in DOMAIN inner : ~InRing(inner[k], q)
InParts(parts, q) == \E k \in DOMAIN parts : InRegion(parts[k].outer, parts[k].turn, parts[k].inner, q)
Prepare(parts) == [k \in DOMAIN parts |-> [outer |-> Unrolled(parts[k][1]), turn |-> Turn(parts[k][1]),
                     inner |-> [j \in 1..(Len(parts[k]) - 1) |-> Unrolled(parts[k][j + 1])]]]
DoubtfulPoint(p, q, e) == \E dx \in {-e, 0, e} : \E dy \in {-e, 0, e} :
                          InParts(p, <<q[1] + dx, q[2] + dy>>) # InParts(p, q)
NeedsNoSplit(parts) == \A k \in DOMAIN parts :
  LET r == parts[k][1] IN
  /\ \A j \in DOMAIN r : Abs(r[j][1] - r[IF j = Len(r) THEN 1 ELSE j + 1][1]) < H
  /\ \A j \in DOMAIN r : Abs(r[j][2]) <= Q

\* probes: points of the chart; has: is each in the result
SplitFailing(parts, probes, o) ==
  LET p == Prepare(parts) IN
  Clause(o.valid, "valid")
  \cup Clause(o.box[1] >= -H /\ o.box[3] <= H /\ o.box[2] >= -Q /\ o.box[4] <= Q, "on_chart")
  \cup Clause(\A k \in DOMAIN probes : (o.has[k] = InParts(p, probes[k])) \/ DoubtfulPoint(p, probes[k], 3), "same_region")
  \cup Clause(NeedsNoSplit(parts) => o.same, "unchanged")
  \cup Clause(o.again, "again_unchanged")
=============================================================================
