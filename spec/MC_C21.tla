------------------------------- MODULE MC_C21 -------------------------------
EXTENDS Track, Json, IOUtils
CONSTANTS NS
\* footprints on squares 1..4, the mask covers squares 2 and 3
Foots == {{1}, {2}, {1, 2}, {2, 3}, {3, 4}, {4}}
MCInit == \E n \in 1..NS : \E f \in [1..n -> Foots] : \E b \in BOOLEAN :
            TrackInit([k \in 1..n |-> [t |-> k, pos |-> SetMin(f[k]), foot |-> f[k], valid |-> SetMax(f[k]) # 3]], {2, 3}, b, 2)
MCFinish == /\ TrackDone /\ masked /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson([k \in DOMAIN smp |-> IF smp[k].foot \cap mask = {} THEN 0 ELSE 1]))
            /\ FALSE /\ UNCHANGED kvars
MCNext == TrackNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_kvars
=============================================================================
