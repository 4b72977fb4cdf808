------------------------------- MODULE MC_C20 -------------------------------
EXTENDS Track, Json, IOUtils
CONSTANTS NS, SQ
Foots == {{a, b} : a \in 1..SQ, b \in 1..SQ}
\* times step by 1, the satellite moves over squares 1..SQ
Samples == [pos : 1..SQ, w : {0, 1}, valid : BOOLEAN]
Mk(f) == [k \in DOMAIN f |-> [t |-> k, pos |-> f[k].pos, valid |-> f[k].valid,
                               foot |-> {f[k].pos, Min2(SQ, f[k].pos + f[k].w)}]]
MCInit == \E n \in 1..NS : \E f \in [1..n -> Samples] : \E m \in {{1}, {2, 3}} : \E b \in BOOLEAN : \E p \in {2, 3} :
            TrackInit(Mk(f), m, b, p)
MCFinish == /\ TrackDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson([k \in DOMAIN smp |-> <<IF smp[k].pos \in mask THEN 1 ELSE 0, IF smp[k].valid THEN 1 ELSE 0>>]))
            /\ FALSE /\ UNCHANGED kvars
MCNext == TrackNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_kvars
=============================================================================
