------------------------------- MODULE MC_C10 -------------------------------
EXTENDS Derive, Json, IOUtils
CONSTANTS DEPTH
Shifts == {<<0, 0>>, <<90000, 0>>, <<-90000, 45000>>, <<360000, -360000>>, <<-1, 1>>, <<1, -1>>, <<725000, 0>>, <<0, -45000>>}
Starts == {0, 1, 180000, 359999}
MCInit == \E a, b \in Starts : DerInit(<<[ma |-> a, raan |-> b]>>)
MCDerive == Len(hist) < DEPTH /\ \E s \in Shifts : Derive(s[1], s[2])
MCFinish == /\ Len(hist) = DEPTH /\ IOEnv.EXPORT = "1" /\ orig[1].ma = 0 /\ orig[1].raan = 0
            /\ PrintT("CASE " \o ToJson(hist))
            /\ FALSE /\ UNCHANGED dvars
MCNext == MCDerive \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_dvars
=============================================================================
