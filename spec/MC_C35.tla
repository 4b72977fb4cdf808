------------------------------- MODULE MC_C35 -------------------------------
EXTENDS Instants, Json, IOUtils
MCNext == \/ InsNext
          \/ IOEnv.EXPORT = "1" /\ steps = 0 /\ (\E b \in truth..MaxTime : b > truth /\ \E z \in Zones : (z # "utc" \/ note.zone # "utc") /\ (z = "dst" \/ note.zone = "dst" \/ (b - truth) % 7 = 0)
             /\ PrintT("CASE " \o ToJson([a |-> truth, b |-> b, za |-> note.zone, zb |-> z, oa |-> Offset(truth, note.zone), ob |-> Offset(b, z)]))) /\ FALSE /\ UNCHANGED insv
MCSpec == InsInit /\ [][MCNext]_insv
=============================================================================
