------------------------------- MODULE MC_C25 -------------------------------
EXTENDS Viewing, Json, IOUtils
CONSTANTS Up
MCInit == \E r \in {25, 65} : ViewInit(r, r + 1)
MCNext == /\ (ViewNext \/ (IOEnv.EXPORT = "1" /\ PrintT("CASE " \o ToJson(<<rad, h, k>>)) /\ FALSE /\ UNCHANGED vvars))
Small == h <= rad + Up
MCSpec == MCInit /\ [][MCNext]_vvars
=============================================================================
