------------------------------- MODULE MC_C24 -------------------------------
EXTENDS Footprint, Json, IOUtils
CONSTANTS NA1, ND, NL
MCInit == \E x \in (0 - ND)..ND : \E y \in (0 - ND)..ND : \E r \in BOOLEAN : FootInit(1, 1, x, y, r, 1)
MCNext == /\ (FootNext \/ (IOEnv.EXPORT = "1" /\ PrintT("CASE " \o ToJson(<<c, a, dx, dy, IF rect THEN 1 ELSE 0>>)) /\ FALSE /\ UNCHANGED fvars))
Small == c <= NA1 /\ a <= NA1 /\ lim <= NL
MCSpec == MCInit /\ [][MCNext]_fvars
=============================================================================
