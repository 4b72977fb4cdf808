------------------------------- MODULE MC_C23 -------------------------------
EXTENDS Pixels, Json, IOUtils
CONSTANTS NT, NP
MCInit == \E t \in 0..NT : \E c \in 1..NP : \E a \in 1..NP : \E I \in {0..(t * c * a - 1)} \cup (IF t * c * a <= 9 THEN SUBSET (0..(t * c * a - 1)) ELSE {{}}) :
            PixInit(t, c, a, I)
MCFinish == /\ PixDone /\ IOEnv.EXPORT = "1" /\ inside = 0..(nt * nc * na - 1) /\ nt > 0
            /\ PrintT("CASE " \o ToJson(<<nt, nc, na>>))
            /\ FALSE /\ UNCHANGED pvars
MCNext == Emit \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_pvars
=============================================================================
