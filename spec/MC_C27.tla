------------------------------- MODULE MC_C27 -------------------------------
EXTENDS Occult, Json, IOUtils
CONSTANTS NC, NL
MCInit == OccInit
MCNext == /\ (OccNext({Classes[k] : k \in 1..NC}) \/ (IOEnv.EXPORT = "1" /\ PrintT("CASE " \o ToJson(samples)) /\ FALSE /\ UNCHANGED ovars))
Small == Len(samples) < NL
MCSpec == MCInit /\ [][MCNext]_ovars
=============================================================================
