------------------------------- MODULE MC_C07 -------------------------------
EXTENDS Latency, Json, IOUtils
CONSTANTS T, NOBS, NDL
O == {[sat |-> s, e |-> e, ep |-> e, id |-> 0] : s \in {"A", "B"}, e \in 1..T}
D == {[sat |-> s, s |-> t, ep |-> t + 1, st |-> "G"] : s \in {"A", "B"}, t \in 0..T}
MCInit == \E n \in 1..NOBS : \E m \in 0..NDL :
            \E x \in [1..n -> O] : \E y \in [1..m -> D] : LatInit(x, y)
MCFinish == /\ LatDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<[k \in DOMAIN obs |-> <<obs[k].sat, obs[k].e>>],
                                          [k \in DOMAIN dl |-> <<dl[k].sat, dl[k].s>>]>>))
            /\ FALSE /\ UNCHANGED lvars
MCNext == LatNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_lvars
=============================================================================
