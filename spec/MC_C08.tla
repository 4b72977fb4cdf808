------------------------------- MODULE MC_C08 -------------------------------
EXTENDS Constellation, Json, IOUtils
CONSTANTS TMAX
Pars == {[kind |-> "walker", t |-> t, p |-> p, f |-> f, star |-> s] :
           t \in 1..TMAX, p \in 1..TMAX, f \in 0..(TMAX - 1), s \in BOOLEAN}
MCInit == \E q \in Pars : Valid(q) /\ ConInit(q)
MCFinish == /\ ConDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<par.t, par.p, par.f, IF par.star THEN 1 ELSE 0>>))
            /\ FALSE /\ UNCHANGED cvars
MCNext == ConNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_cvars
=============================================================================
