------------------------------- MODULE MC_C09 -------------------------------
EXTENDS Constellation, Json, IOUtils
CONSTANTS TMAX, MINUTES
MinutesQuick == {-1440, -90, -1, 0, 1, 3, 15, 90, 96, 720, 1439, 1440, 1441, 4320, 10080}
MinutesThorough == MinutesQuick \cup (-20..120) \cup {k * 97 : k \in -20..60}
\* intervals in minutes, mean motion in revolutions per day, node 360 deg/day:
\* an interval of m minutes loses m * n * 250000 and gains m * 250000 units
Pars == {<<t, m, n, g>> : t \in 1..TMAX, m \in MINUTES, n \in {1, 2, 15, 16}, g \in BOOLEAN}
MCInit == \E q \in Pars :
  ConInit([kind |-> "train", t |-> q[1], dm |-> ((((q[2] * 250) % 360000) * q[3]) % 360000) * 1000,
           dr |-> IF q[4] THEN ((q[2] * 250) % 360000) * 1000 ELSE 0, m |-> q[2], rep |-> q[4]])
MCFinish == /\ ConDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<par.t, par.m, IF par.rep THEN 1 ELSE 0>>))
            /\ FALSE /\ UNCHANGED cvars
MCNext == ConNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_cvars
=============================================================================
