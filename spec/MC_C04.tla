------------------------------- MODULE MC_C04 -------------------------------
EXTENDS Aggregate, Json, IOUtils

CONSTANTS T, NMULTI, NSINGLE

Obs(P) == {[p |-> p, s |-> s, e |-> e, ep |-> s + e, sat |-> "", ins |-> "", x |-> p, y |-> 0, z |-> 0] :
             p \in P, s \in 0..T, e \in 0..T}
Proper(P) == {o \in Obs(P) : o.s < o.e}
\* observations of fixed (zero) access time are instants
Weak(P) == {o \in Obs(P) : o.s <= o.e}
Inputs == UNION {[1..n -> Weak({1, 2})] : n \in 1..NMULTI}
          \cup [1..NSINGLE -> Proper({1})] \cup [1..NSINGLE - 1 -> Weak({1})]

MCInit == \E o \in Inputs : AggInit(o)
Export == IOEnv.EXPORT = "1"
MCFinish == /\ AggDone
            /\ Export => PrintT("CASE " \o ToJson([k \in DOMAIN inp |-> <<inp[k].p, inp[k].s, inp[k].e>>]))
            /\ FALSE
            /\ UNCHANGED avars
MCNext == AggNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_avars
=============================================================================
