------------------------------- MODULE MC_C19 -------------------------------
EXTENDS Wrap, Json, IOUtils
CONSTANTS XLo, XHi, YLo, YHi
\* natural numbers of the configuration, shifted to start west of the chart
Xs == {x - H - 2 : x \in XLo..XHi}
Ys == {y - Q - 2 : y \in YLo..YHi}
Good(r) == /\ r[1] < r[3] /\ r[2] < r[4] /\ r[3] - r[1] < 2 * H
           /\ ((r[4] > Q \/ r[2] < -Q) => r[3] - r[1] <= H)   \* would otherwise overlap itself
           /\ r[2] < Q /\ r[4] > -Q /\ r[4] - r[2] <= 2 * Q /\ ~(r[4] > Q /\ r[2] < -Q)
           /\ r[1] < H /\ r[3] > -H
MCInit == \E x \in Xs \X Xs : \E y \in Ys \X Ys : LET r == <<x[1], y[1], x[2], y[2]>> IN Good(r) /\ WrapInit(r)
MCFinish == /\ WrapDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(region))
            /\ FALSE /\ UNCHANGED wvars
MCNext == WrapStep \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_wvars
=============================================================================
