------------------------------- MODULE MC_C05 -------------------------------
EXTENDS Reduce, Json, IOUtils
CONSTANTS VALS, OPT, NREC
Recs == {[p |-> p, a |-> a, b |-> b, x |-> p, y |-> 0, z |-> 0] : p \in {1, 2}, a \in VALS, b \in OPT \cup {NA}}
MCInit == \E n \in 1..NREC : \E R \in [1..n -> Recs] : RedInit(R)
MCFinish == /\ RedDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson([k \in DOMAIN recs |-> <<recs[k].p, recs[k].a, recs[k].b>>]))
            /\ FALSE /\ UNCHANGED rvars
MCNext == RedNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_rvars
=============================================================================
