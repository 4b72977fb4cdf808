------------------------------- MODULE Sunlit -------------------------------
(* Instrument validity (C31): whether an instrument can observe at each      *)
(* sample of a track, given its sunlight requirements on the satellite and   *)
(* on the target.  Positions are integer vectors from the Earth's centre in  *)
(* km, directions are integer vectors of length unit.                        *)
EXTENDS Common

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
\* the requirement r ("none", "lit", "dark") is met by a sunlit state b
Meets(r, b) == r = "none" \/ (r = "lit") = b

\* Shadow of a sphere of radius rad: behind the centre and closer than rad to
\* the axis.  u is the direction of the Sun, of length unit.
Along(p, u, unit) == Dot(p, u) \div unit
Axis2(p, u, unit) == LET a == Along(p, u, unit) IN Dot(p, p) - a * a
Eclipsed(p, u, unit, rad) == Along(p, u, unit) < 0 /\ Axis2(p, u, unit) < rad * rad
SelfLit(p, u, unit, rad) == ~Eclipsed(p, u, unit, rad)
\* the Sun is above the horizon of a place whose zenith is z
TargetLit(z, s) == Dot(z, s) > 0

\* One instrument run along a track: what it has decided for the samples so far
VARIABLES req, track, seen
svars == <<req, track, seen>>
SunInit(rq, tr) == req = rq /\ track = tr /\ seen = <<>>
Valid(rq, x) == Meets(rq[1], x.lit) /\ Meets(rq[2], x.day)
Sample == /\ Len(seen) < Len(track)
          /\ seen' = Append(seen, Valid(req, track[Len(seen) + 1]))
          /\ UNCHANGED <<req, track>>

\* each sample is decided by itself: the same state always gets the same answer
Pointwise == \A i, j \in DOMAIN seen : track[i] = track[j] => seen[i] = seen[j]
\* no requirement excludes nothing; opposite requirements never agree
Free == req = <<"none", "none">> => \A i \in DOMAIN seen : seen[i]
Opposite(r) == IF r = "lit" THEN "dark" ELSE IF r = "dark" THEN "lit" ELSE "none"
Contrary == \A i \in DOMAIN seen : seen[i] =>
  /\ req[1] # "none" => ~Valid(<<Opposite(req[1]), req[2]>>, track[i])
  /\ req[2] # "none" => ~Valid(<<req[1], Opposite(req[2])>>, track[i])
  /\ Valid(<<"none", req[2]>>, track[i]) /\ Valid(<<req[1], "none">>, track[i])

-----------------------------------------------------------------------------
(* Decisions on recorded samples, 1 yes, -1 no, 0 too close to call.         *)
KM == 6378
UNIT == 10000
SelfState(p, u) ==
  LET a == Along(p, u, UNIT)
      d == Axis2(p, u, UNIT) - KM * KM
      slack == 12 * SetMax({Abs(p[1]), Abs(p[2]), Abs(p[3])}) + 120000 IN
  IF a >= 20 \/ d > slack THEN 1 ELSE IF a < -20 /\ d < -slack THEN -1 ELSE 0
TargetState(z, s) == LET c == Dot(z, s) IN IF c > 90000 THEN 1 ELSE IF c < -90000 THEN -1 ELSE 0
Both(a, b) == IF a = -1 \/ b = -1 THEN -1 ELSE IF a = 0 \/ b = 0 THEN 0 ELSE 1
Wants(r, st) == IF r = "none" THEN 1 ELSE IF st = 0 THEN 0 ELSE IF (r = "lit") = (st = 1) THEN 1 ELSE -1
Decided(rq, x) == Both(Wants(rq[1], SelfState(x.p, x.u)), Wants(rq[2], TargetState(x.z, x.s)))
SunFailing(q, o) ==
  Clause(Len(o.valid) = Len(q.samples), "one_answer_per_time")
  \cup Clause(o.shape, "answer_form")
  \cup (IF Len(o.valid) # Len(q.samples) THEN {} ELSE
        Clause(\A i \in DOMAIN o.valid : LET d == Decided(q.req, q.samples[i]) IN d = 0 \/ o.valid[i] = (d = 1), "validity"))
=============================================================================
