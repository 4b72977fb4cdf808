------------------------------- MODULE Occult -------------------------------
(* Radio occultations (C27): the samples of one transmitter, each of a class *)
(*  "X" no tangent point between receiver and transmitter, "Y" outside the   *)
(*  yaw limits, "H" / "L" tangent height above / below the range, "G" good   *)
(* are read one by one; an observation is open while samples are good.       *)
EXTENDS Common
VARIABLES samples, open, closed
ovars == <<samples, open, closed>>
Classes == <<"X", "Y", "H", "L", "G">>
OccInit == samples = <<>> /\ open = <<>> /\ closed = <<>>
Read(c) ==
  LET n == Len(samples) + 1 IN
  /\ samples' = Append(samples, c)
  /\ IF c = "G" THEN open' = (IF open = <<>> THEN <<n, n>> ELSE <<open[1], n>>) /\ UNCHANGED closed
     ELSE IF open # <<>> THEN closed' = Append(closed, open) /\ open' = <<>>
     ELSE UNCHANGED <<open, closed>>
OccNext(S) == \E c \in S : Read(c)

Good(s) == {k \in DOMAIN s : s[k] = "G"}
\* maximal runs of consecutive good samples
Runs(good) == {<<f, SetMin({e \in good : e >= f /\ e + 1 \notin good})>> : f \in {k \in good : k - 1 \notin good}}
\* ... and nothing else is
IsMaximal(r, good) == /\ r[1] <= r[2] /\ (r[1]..r[2]) \subseteq good /\ r[1] - 1 \notin good /\ r[2] + 1 \notin good
RunsAreMaximal == LET n == Len(samples)  g == Good(samples) IN Runs(g) = {r \in (1..n) \X (1..n) : IsMaximal(r, g)}
Found == IF open = <<>> THEN closed ELSE Append(closed, open)
ExactlyTheRuns == {<<r[1], r[2]>> : r \in Range(Found)} = Runs(Good(samples))
Ordered == \A i \in 1..(Len(Found) - 1) : Found[i][2] + 1 < Found[i + 1][1]
Covers == UNION {r[1]..r[2] : r \in Range(Found)} = Good(samples)
\* reading on never takes an observation back
Monotone == [][\A r \in Range(Found) : \E q \in Range(Found') : q[1] = r[1] /\ q[2] >= r[2]]_ovars

-----------------------------------------------------------------------------
(* Recorded observations.  tx: per transmitter [name, good (sequence of      *)
(* BOOLEAN), h (tangent heights, m), fwd].  rows in table order: transmitter *)
(* index, first and last sample (from start and end), at (sample of time),   *)
(* pts (number of points), rise, t (time, s), rec, cmp.                      *)
GoodOf(x) == {k \in DOMAIN x.good : x.good[k]}
RowFailing(q, r) ==
  IF r.tx < 1 \/ r.first < 1 \/ r.last < 1 \/ r.at < 1 THEN {"unknown_sample"}
  ELSE LET x == q.tx[r.tx] IN
    Clause(<<r.first, r.last>> \in Runs(GoodOf(x)), "not_a_maximal_run")
    \cup Clause(r.pts = r.last - r.first + 1, "points")
    \cup Clause(r.at >= r.first /\ r.at <= r.last, "sample_in_run")
    \cup Clause(r.at >= r.first /\ r.at <= r.last /\ r.last <= Len(x.h)
                => \A k \in r.first..r.last : Abs(x.h[r.at] - q.target) <= Abs(x.h[k] - q.target) + 1, "closest_elevation")
    \cup Clause(r.rise = x.fwd[r.first], "rising")
    \cup Clause(r.rec, "receiver")
    \cup CmpFailing(r.cmp)
OccFailing(q, o) ==
  UNION {RowFailing(q, o.rows[j]) : j \in DOMAIN o.rows}
  \cup Clause(\A i \in DOMAIN q.tx : \A run \in Runs(GoodOf(q.tx[i])) :
                Cardinality({j \in DOMAIN o.rows : o.rows[j].tx = i /\ o.rows[j].first = run[1] /\ o.rows[j].last = run[2]}) = 1, "missing_or_repeated")
  \cup Clause(\A j \in 1..(Len(o.rows) - 1) : o.rows[j].t <= o.rows[j + 1].t, "ordered")
  \cup Clause(o.columns, "columns")
  \cup Clause(o.union, "union_over_transmitters")
=============================================================================
