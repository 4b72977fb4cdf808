------------------------------- MODULE MC_C32 -------------------------------
EXTENDS Buffer, Json, IOUtils
CONSTANTS MAXD, STRIDE
Places == (-36..35) \X (-18..18)
Some == {p \in Places : p[1] % STRIDE = 0}
MCInit == \E lat \in -18..18 : BufInit(<<0, lat>>)
Export == /\ dist > 0 /\ IOEnv.EXPORT = "1" /\ PrintT("CASE " \o ToJson(<<target[2], dist>>)) /\ FALSE /\ UNCHANGED bvars
MCSpec == MCInit /\ [][Grow(MAXD) \/ Export]_bvars
Kept == Conservative(Some)
Grows == Growing(Some)
Alike == EastWest(Some)
=============================================================================
