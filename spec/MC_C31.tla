------------------------------- MODULE MC_C31 -------------------------------
EXTENDS Sunlit, Json, IOUtils
CONSTANTS LEN, RAD, BOX
Req == {"none", "lit", "dark"}
\* lattice positions above the surface, Sun along the first axis (either way)
Sat == {p \in (-BOX..BOX) \X (-BOX..BOX) \X {0, 1} : Dot(p, p) > RAD * RAD}
Suns == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>}
\* a satellite in the shadow stands over the night side
NightBelow == \A p \in Sat, u \in Suns : Eclipsed(p, u, 1, RAD) => ~TargetLit(p, u)
\* over the day side it is never in the shadow; the shadow is as wide as the Earth
DayLit == \A p \in Sat, u \in Suns : TargetLit(p, u) => SelfLit(p, u, 1, RAD)
WidthExact == \A p \in Sat : Eclipsed(p, <<1, 0, 0>>, 1, RAD) <=> p[1] < 0 /\ p[2] * p[2] + p[3] * p[3] < RAD * RAD
ASSUME NightBelow /\ DayLit /\ WidthExact
\* the states a sample over its sub-satellite point can have
States == {[lit |-> SelfLit(p, u, 1, RAD), day |-> TargetLit(p, u)] : p \in Sat, u \in Suns}
\* a separate target may be dark under a lit satellite or lit under a dark one
AllStates == {[lit |-> a, day |-> b] : a, b \in BOOLEAN}
MCInit == \E rq \in Req \X Req, n \in 1..LEN : \E tr \in [1..n -> AllStates] : SunInit(rq, tr)
OwnPoint == [lit |-> FALSE, day |-> TRUE] \notin States
ASSUME OwnPoint
MCFinish == /\ Len(seen) = Len(track) /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<req, [i \in DOMAIN track |-> <<track[i].lit, track[i].day>>]>>))
            /\ FALSE /\ UNCHANGED svars
MCSpec == MCInit /\ [][Sample \/ MCFinish]_svars
=============================================================================
