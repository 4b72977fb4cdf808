--------------------------------- MODULE Dop ---------------------------------
(* Dilution of precision (C26).  A satellite is a direction from the user,   *)
(* on the surface of a small lattice cube; those whose height is at least    *)
(* the threshold are visible.  The dilution is exact: minors of the integer  *)
(* Gram matrix of the rows (x, y, z, 1) over its determinant.                *)
EXTENDS Common
VARIABLES sky, thr
dvars == <<sky, thr>>
Dirs == << <<0, 0, 1>>, <<1, 0, 0>>, <<-1, 1, 0>>, <<0, -1, 1>>, <<1, 0, -1>>, <<-1, -1, 1>>, <<1, 1, 1>>, <<0, -1, 0>>,
           <<-1, 0, 1>>, <<0, 1, 0>>, <<-1, 1, -1>>, <<1, -1, 1>>, <<-1, 0, 0>>, <<1, 1, 0>> >>
Visible(s) == SelectSeq(s, LAMBDA d : Dirs[d][3] >= thr)
Row(d) == <<Dirs[d][1], Dirs[d][2], Dirs[d][3], 1>>
\* Gram matrix of the visible rows
Gram(s) == [i \in 1..4 |-> [j \in 1..4 |-> SumSeq([k \in 1..Len(Visible(s)) |-> Row(Visible(s)[k])[i] * Row(Visible(s)[k])[j]])]]
Det3(m, r, c) == m[r[1]][c[1]] * (m[r[2]][c[2]] * m[r[3]][c[3]] - m[r[2]][c[3]] * m[r[3]][c[2]])
               - m[r[1]][c[2]] * (m[r[2]][c[1]] * m[r[3]][c[3]] - m[r[2]][c[3]] * m[r[3]][c[1]])
               + m[r[1]][c[3]] * (m[r[2]][c[1]] * m[r[3]][c[2]] - m[r[2]][c[2]] * m[r[3]][c[1]])
Rest(i) == IF i = 1 THEN <<2, 3, 4>> ELSE IF i = 2 THEN <<1, 3, 4>> ELSE IF i = 3 THEN <<1, 2, 4>> ELSE <<1, 2, 3>>
Det4(m) == m[1][1] * Det3(m, <<2, 3, 4>>, <<2, 3, 4>>) - m[1][2] * Det3(m, <<2, 3, 4>>, <<1, 3, 4>>)
         + m[1][3] * Det3(m, <<2, 3, 4>>, <<1, 2, 4>>) - m[1][4] * Det3(m, <<2, 3, 4>>, <<1, 2, 3>>)
Minor(m, i) == Det3(m, Rest(i), Rest(i))
\* squared dilution, numerator over Det4
Num(m, S) == LET f[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET i == CHOOSE x \in T : TRUE IN Minor(m, i) + f[T \ {i}] IN f[S]
GDOP == {1, 2, 3, 4}   PDOP == {1, 2, 3}   HDOP == {1, 2}   VDOP == {3}   TDOP == {4}

SkyInit(t) == sky = <<>> /\ thr = t
Rise(d) == sky' = Append(sky, d) /\ UNCHANGED thr
SkyNext(nd) == \E d \in 1..nd : (IF sky = <<>> THEN TRUE ELSE d >= sky[Len(sky)]) /\ Rise(d)

Undefined(s) == Det4(Gram(s)) = 0
WellFormed == LET m == Gram(sky) IN Det4(m) >= 0 /\ \A i \in 1..4 : Minor(m, i) >= 0
FewUndefined == Len(Visible(sky)) <= 3 => Undefined(sky)
SumsOfSquares == LET m == Gram(sky) IN Num(m, GDOP) = Num(m, PDOP) + Num(m, TDOP) /\ Num(m, PDOP) = Num(m, HDOP) + Num(m, VDOP)
OrderIrrelevant == sky # <<>> => Gram(sky) = Gram(Append(Tail(sky), Head(sky)))
\* a satellite more: never a larger dilution; one that is not visible: the same
MoreIsBetter == [][~Undefined(sky) => LET a == Gram(sky)  b == Gram(sky') IN
                     /\ Det4(b) > 0
                     /\ \A i \in 1..4 : Minor(b, i) * Det4(a) <= Minor(a, i) * Det4(b)
                     /\ (Len(Visible(sky')) = Len(Visible(sky)) => a = b)]_dvars

-----------------------------------------------------------------------------
(* Recorded values at one time: v = <<g, p, h, v, t>> (1/10000), w expected. *)
(* vis: visible satellites; amb: one is at the threshold itself; sing: the   *)
(* visible geometry is singular ("yes", "no", or numerically "near" it).     *)
All5(s, P(_)) == \A k \in 1..5 : P(s[k])
Close(x, y) == Abs(x - y) <= 3 + y \div 10000
Sq(x) == (x \div 100) * (x \div 100)
\* |a^2 - b^2 - c^2| within rounding of the scaled values
Pyth(a, b, c) == Abs(Sq(a) - Sq(b) - Sq(c)) <= 4 + 3 * (a \div 100 + b \div 100 + c \div 100)
DopFailing(q, o) ==
  IF q.amb \/ q.sing = "near" THEN {}
  ELSE LET missing == q.vis <= q.min \/ q.sing = "yes" IN
    IF missing THEN Clause(All5(o.v, LAMBDA x : x = NA), "missing") \cup Clause(All5(o.others, LAMBDA x : x = NA), "missing_elsewhere")
    ELSE Clause(All5(o.v, LAMBDA x : x # NA), "present")
      \cup (IF ~All5(o.v, LAMBDA x : x # NA) THEN {} ELSE
            Clause(\A k \in 1..5 : Close(o.v[k], q.w[k]), "value")
            \cup Clause(o.v[1] < 1000000 => Pyth(o.v[1], o.v[2], o.v[5]), "gdop_pythagoras")
            \cup Clause(o.v[1] < 1000000 => Pyth(o.v[2], o.v[3], o.v[4]), "pdop_pythagoras")
            \* another order, without the hidden ones, alone, among other times, method given by name
            \cup Clause(All5(o.others, LAMBDA x : x # NA /\ Close(x, o.v[1])), "independent")
            \cup Clause(o.plus = NA \/ o.plus <= o.v[1] + 3 + o.v[1] \div 10000, "more_is_better"))
TableFailing(o) == Clause(o.rows = o.times, "one_value_per_time") \cup Clause(o.labels, "labelled") \cup Clause(o.located, "located")
                   \cup Clause(o.crs, "crs")
=============================================================================
