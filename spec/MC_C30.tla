------------------------------- MODULE MC_C30 -------------------------------
EXTENDS Schema, Json, IOUtils
MCInit == DefInit
MCNext == /\ (DefNext \/ (IOEnv.EXPORT = "1" /\ form = "input" /\ PrintT("CASE " \o ToJson(<<kind, given>>)) /\ FALSE /\ UNCHANGED hvars))
MCSpec == MCInit /\ [][MCNext]_hvars
=============================================================================
