------------------------------- MODULE Viewing -------------------------------
(* Viewing geometry conversions (C25).  In the plane of the satellite, the   *)
(* target and the Earth's centre: an Earth of radius rad whose surface is    *)
(* the lattice points of that circle (exact Pythagorean points, ordered away *)
(* from nadir), and a satellite at (0, h).                                   *)
EXTENDS Common
VARIABLES rad, h, k
vvars == <<rad, h, k>>
Circle(r) == IF r = 25 THEN << <<0, 25>>, <<7, 24>>, <<15, 20>>, <<20, 15>>, <<24, 7>>, <<25, 0>> >>
             ELSE << <<0, 65>>, <<16, 63>>, <<25, 60>>, <<33, 56>>, <<39, 52>>, <<52, 39>>, <<56, 33>>, <<60, 25>>, <<63, 16>>, <<65, 0>> >>
P == Circle(rad)
X(j) == P[j][1]
Y(j) == P[j][2]
\* above the local horizon of the point (num / (rad * d) is the sine of the
\* elevation angle, d the distance to the satellite)
Num(j) == h * Y(j) - rad * rad
Dist2(j) == X(j) * X(j) + (h - Y(j)) * (h - Y(j))
Seen(j) == Num(j) >= 0
ViewInit(r, hh) == rad = r /\ h = hh /\ k = 1
Outward == k < Len(P) /\ k' = k + 1 /\ UNCHANGED <<rad, h>>
Climb == h' = h + 1 /\ UNCHANGED <<rad, k>>
ViewNext == Outward \/ Climb

\* view angle eta: tan = x / (h - y).  Up to the horizon it grows with the
\* ground distance, so that distance and angle convert into each other; beyond
\* the horizon it falls again and the angle says nothing about the distance
ViewBijective == \A j \in 1..(Len(P) - 1) :
  IF Seen(j + 1) THEN X(j) * (h - Y(j + 1)) < X(j + 1) * (h - Y(j))
  ELSE ~Seen(j) => X(j) * (h - Y(j + 1)) > X(j + 1) * (h - Y(j))
\* the horizon is the widest view
HorizonWidest == \A j \in 1..Len(P) : X(j) * X(j) * h * h <= rad * rad * Dist2(j)
\* sin(eta) * h = rad * cos(elevation)
LawOfSines == \A j \in 1..Len(P) : h * h * X(j) * X(j) = rad * rad * Dist2(j) - Num(j) * Num(j)
\* the elevation angle falls from the zenith to the horizon
ElevationFalls == \A j \in 1..(Len(P) - 1) : Num(j) * X(j + 1) > Num(j + 1) * X(j)
\* from higher up the same point is seen at a smaller angle from nadir and at
\* a higher elevation, so that the same field of regard reaches further
ClimbReaches == [][h' > h => (/\ X(k) * (h - Y(k)) <= X(k) * (h' - Y(k))
                              /\ (Seen(k) => (h' * Y(k)) >= rad * rad)
                              /\ Num(k) * h' <= (h' * Y(k) - rad * rad) * h)]_vvars

-----------------------------------------------------------------------------
(* Recorded sweeps and conversions.                                          *)
Rising(s, strict) == \A j \in 1..(Len(s) - 1) : IF strict THEN s[j] < s[j + 1] ELSE s[j] <= s[j + 1]
\* sweep of fields of regard (degrees) at one altitude: width (dm), el (mdeg);
\* hz: the angular diameter of the Earth (millidegrees)
RegardFailing(q, o) ==
  LET n == Len(q.f)
      below == {j \in 1..n : q.f[j] < q.hz - 10}
      above == {j \in 1..n : q.f[j] > q.hz + 10} IN
  Clause(\A i \in below : \A j \in below : q.f[i] < q.f[j] => o.width[i] < o.width[j], "width_grows")
  \cup Clause(\A i \in below : \A j \in below : q.f[i] < q.f[j] => o.el[i] > o.el[j], "elevation_falls")
  \cup Clause(\A i \in above : \A j \in above : Abs(o.width[i] - o.width[j]) <= 1, "width_stays_at_horizon")
  \cup Clause(\A i \in above : \A j \in below : o.width[j] <= o.width[i] + 1, "horizon_is_widest")
  \cup Clause(\A i \in above : Abs(o.width[i] - q.most) <= 10, "horizon_width")
  \cup Clause(\A i \in above : o.el[i] = 0, "horizon_elevation")
  \cup Clause(\A i \in 1..n : o.el[i] >= 0 /\ o.el[i] <= 90000000, "elevation_range")
\* sweep of altitudes: width (dm) and period (ms) grow, speed (mm/s) falls
AltitudeFailing(q, o) ==
  Clause(Rising(o.width, TRUE), "width_grows_with_altitude")
  \cup Clause(Rising(o.period, TRUE), "period_grows_with_altitude")
  \cup Clause(\A j \in 1..(Len(o.speed) - 1) : o.speed[j] > o.speed[j + 1], "speed_falls_with_altitude")
\* sweep of inclinations from 0 to 180 degrees
InclinationFailing(q, o) == Clause(Rising(o.speed, TRUE), "speed_grows_with_inclination")
\* sweep of mean anomalies over a turn
AnomalyFailing(q, o) ==
  Clause(Rising(o.true, TRUE), "true_anomaly_grows")
  \cup Clause(Rising(o.mean, TRUE), "mean_anomaly_grows")
\* sweep of sample distances: fewer samples
SamplesFailing(q, o) == Clause(\A j \in 1..(Len(o.n) - 1) : o.n[j] >= o.n[j + 1], "samples_fall")
=============================================================================
