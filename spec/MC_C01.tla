------------------------------- MODULE MC_C01 -------------------------------
(* All windows over all visibility functions of up to two targets.           *)
EXTENDS Visibility, Json, IOUtils
CONSTANTS T, NT
\* transitions of a visibility function f over the slots 0..T
TransOf(f) ==
  LET C == {u \in 1..T : f[u] # f[u - 1]}
      s == SortBy([k \in 1..Cardinality(C) |-> CHOOSE u \in C : Cardinality({v \in C : v < u}) = k - 1], LAMBDA x : x)
  IN [k \in DOMAIN s |-> [t |-> s[k], k |-> IF f[s[k]] THEN "rise" ELSE "set"]]
\* a constant visible function is written as a rise long before the window
Full(f) == IF f[0] THEN <<[t |-> -5, k |-> "rise"]>> \o TransOf(f) ELSE TransOf(f)
Fns == [0..T -> BOOLEAN]
MCInit == \E a, b \in 0..T : a <= b /\
   \/ \E f \in Fns : VisInit(a, b, <<Full(f)>>)
   \/ NT = 2 /\ \E f, h \in Fns : VisInit(a, b, <<Full(f), Full(h)>>)
\* abstract shape of the window for the replay: which part of which pass t0 and
\* t1 fall into
Shape(u) == LET tr == trans[1] IN Cardinality({j \in DOMAIN tr : tr[j].t <= u})
MCFinish == /\ VisDone /\ IOEnv.EXPORT = "1" /\ Len(trans) = 1 /\ t0 < t1
            /\ PrintT("CASE " \o ToJson(<<IF VisibleAt(1, t0) THEN 1 ELSE 0, IF VisibleAt(1, t1 - 1) THEN 1 ELSE 0, Shape(t1 - 1) - Shape(t0)>>))
            /\ FALSE /\ UNCHANGED vvars
MCNext == VisNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_vvars
=============================================================================
