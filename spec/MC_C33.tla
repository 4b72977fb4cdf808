------------------------------- MODULE MC_C33 -------------------------------
EXTENDS Pipeline, Json, IOUtils
CONSTANTS T, NOBS, NDL, MANY
Spans == {<<s, e>> \in (0..T) \X (0..T) : s < e}
ObsOf(P, S) == {[p |-> p, s |-> 2 * w[1], e |-> 2 * w[2], ep |-> w[1] + w[2], sat |-> s, x |-> 2 * p, y |-> 1] : p \in P, w \in Spans, s \in S}
Dls(S) == {[sat |-> s, s |-> 2 * t, ep |-> 2 * t + 1] : s \in S, t \in 0..T}
\* two cells: the first holds point 0 only, the second points 0 and 1
Cells2 == <<[id |-> 5, ring |-> <<<<-1, 0>>, <<1, 0>>, <<1, 2>>, <<-1, 2>>>>], [id |-> 3, ring |-> <<<<-1, 0>>, <<3, 0>>, <<3, 2>>, <<-1, 2>>>>]>>
Distinct(D) == \A i, j \in DOMAIN D : i < j => <<D[i].sat, D[i].s>> # <<D[j].sat, D[j].s>>
Worlds == {<<o, d>> : o \in UNION {[1..n -> ObsOf({0, 1}, {"A", "B"})] : n \in 0..NOBS}, d \in UNION {[1..n -> Dls({"A"})] : n \in 0..NDL}}
          \cup {<<o, <<>>>> : o \in [1..MANY -> ObsOf({0}, {"A"})]}
MCInit == \E w \in {x \in Worlds : Distinct(x[2])} : PipeInit(w[1], w[2], Cells2)
MCFinish == /\ PipeDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<obs, dl, cells>>))
            /\ FALSE /\ UNCHANGED pvars
MCNext == PipeNextOrdered \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_pvars
\* the order of simultaneous events does not matter (small worlds)
AnyOrder == MCInit /\ [][PipeNext]_pvars
=============================================================================
