------------------------------- MODULE MC_C02 -------------------------------
(* Requirement filter over all small windows: an exact record set satisfies  *)
(* the judgement and every single deletion or extra record is rejected.      *)
EXTENDS Observation, Json, IOUtils
CONSTANTS T
INSTRUMENTS == {[name |-> "i", minacc |-> m, fixed |-> FALSE, self |-> s, target |-> "none", pointed |-> p] :
                 m \in {0, 2}, s \in {"none", "lit", "dark"}, p \in BOOLEAN}
CONDS == {[self |-> s, target |-> "lit", foot |-> f] : s \in {"lit", "dark", "amb"}, f \in {"in", "out"}}
Fns == {f \in [0..T -> BOOLEAN] : TRUE}
TransOf(f) ==
  LET C == {u \in 1..T : f[u] # f[u - 1]}
      s == SortBy([k \in 1..Cardinality(C) |-> CHOOSE u \in C : Cardinality({v \in C : v < u}) = k - 1], LAMBDA x : x)
  IN [k \in DOMAIN s |-> [t |-> s[k], k |-> IF f[s[k]] THEN "rise" ELSE "set"]]
Full(f) == IF f[0] THEN <<[t |-> -5, k |-> "rise"]>> \o TransOf(f) ELSE TransOf(f)
MCInit == \E a, b \in 0..T : a < b /\ \E f \in Fns : VisInit(a, b, <<Full(f)>>)
MCSpec == MCInit /\ [][VisNext]_vvars

Q == [p |-> 0, x |-> 0, y |-> 0, z |-> 0, sat |-> "s", ins |-> "i", cols |-> <<>>]
Row(p) == [p |-> 0, x |-> 0, y |-> 0, z |-> 0, sat |-> "s", ins |-> "i", s |-> p.s, e |-> p.e, ep |-> (p.s + p.e) \div 2, cmp |-> <<>>]
\* a fixed assignment of conditions to periods
Cond(c, d) == [j \in DOMAIN out |-> IF j = 1 THEN c ELSE d]
Sel(ins, c) == SelectSeq([j \in DOMAIN out |-> [j |-> j, p |-> out[j]]], LAMBDA z : Must(ins, z.p, c[z.j]))
Rows(ins, c) == [k \in DOMAIN Sel(ins, c) |-> Row(Sel(ins, c)[k].p)]
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
JudgementExact ==
  VisDone => \A ins \in INSTRUMENTS, c, d \in CONDS :
    LET C == Cond(c, d)
        R == Rows(ins, C)
    IN /\ ObsFailing(Q, ins, C, R) = {}
       /\ \A k \in DOMAIN R : ObsFailing(Q, ins, C, Drop(R, k)) # {}
       /\ \A j \in DOMAIN out : ~May(ins, out[j], C[j]) => ObsFailing(Q, ins, C, Append(R, Row(out[j]))) # {}
=============================================================================
