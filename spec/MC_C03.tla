------------------------------- MODULE MC_C03 -------------------------------
EXTENDS Merge
CONSTANTS T, NP, NR
R == {[s |-> s, sig |-> g] : s \in 0..T, g \in {"a", "b"}}
Parts == UNION {[1..n -> R] : n \in 0..NR}
MCInit == \E m \in 1..NP : \E P \in [1..m -> Parts] : MergeInit(P)
MCSpec == MCInit /\ [][MergeNext]_mvars
=============================================================================
