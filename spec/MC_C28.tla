------------------------------- MODULE MC_C28 -------------------------------
EXTENDS Config, Json, IOUtils
MCInit == ConfInit
MCNext == /\ (ConfNext \/ (IOEnv.EXPORT = "1" /\ PrintT("CASE " \o ToJson(<<doc, vals>>)) /\ FALSE /\ UNCHANGED cvars))
MCSpec == MCInit /\ [][MCNext]_cvars
=============================================================================
