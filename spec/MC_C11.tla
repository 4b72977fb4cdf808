------------------------------- MODULE MC_C11 -------------------------------
EXTENDS Mutual, Json, IOUtils
MCInit == \E n \in {1, 2, 3, 4, 6, 8, 12, 24}, c \in BOOLEAN : MutInit([n |-> n, cw |-> c])
MCFinish == /\ u = 0 /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<grp.n, IF grp.cw THEN 1 ELSE 0>>))
            /\ FALSE /\ UNCHANGED mvars
MCNext == Advance \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_mvars
=============================================================================
