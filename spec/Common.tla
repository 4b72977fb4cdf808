------------------------------- MODULE Common -------------------------------
(* Helpers shared by every specification of this framework.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NA == -2147483647                     \* a missing value (NaT / NaN / None)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Range(s) == {s[k] : k \in DOMAIN s}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Near(a, b, tol) == (a = NA /\ b = NA) \/ (a # NA /\ b # NA /\ Abs(a - b) <= tol)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* floor mean of a non-empty sequence, computed against its first element so
\* that no sum of large numbers is formed
MeanSeq(s) == s[1] + (SumSeq([k \in DOMAIN s |-> s[k] - s[1]]) \div Len(s))

\* number of occurrences of x in the sequence s
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})

\* two sequences are permutations of each other
SamePerm(a, b) == /\ Len(a) = Len(b)
                  /\ \A x \in Range(a) \cup Range(b) : Count(a, x) = Count(b, x)

\* the sequence sorted by key K
SortBy(s, K(_)) == SortSeq(s, LAMBDA a, b : K(a) < K(b))

\* set of clause names that fail
Clause(cond, name) == IF cond THEN {} ELSE {name}

\* compared attributes: c is a sequence of [name, got, want, tol]; the names of
\* those whose values differ by more than tol (missing equals only missing)
CmpFailing(c) == UNION {Clause(Near(c[j].got, c[j].want, c[j].tol), c[j].name) : j \in DOMAIN c}

RECURSIVE Join(_)
Join(S) == IF S = {} THEN ""
           ELSE LET x == CHOOSE y \in S : TRUE IN
                IF S = {x} THEN x ELSE x \o "," \o Join(S \ {x})

\* the verdict on trace line i: the set F of failing clause names
Verdict(i, F) ==
  IF F = {} THEN PrintT("V " \o ToString(i) \o " OK")
            ELSE PrintT("V " \o ToString(i) \o " FAIL " \o Join(F))
=============================================================================
