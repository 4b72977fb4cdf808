------------------------------- MODULE MC_C26 -------------------------------
EXTENDS Dop, Json, IOUtils
CONSTANTS ND, NS
MCInit == \E t \in {0, 1} : SkyInit(t)
MCNext == /\ (SkyNext(ND) \/ (IOEnv.EXPORT = "1" /\ PrintT("CASE " \o ToJson(<<thr, sky>>)) /\ FALSE /\ UNCHANGED dvars))
Small == Len(sky) < NS
MCSpec == MCInit /\ [][MCNext]_dvars
=============================================================================
