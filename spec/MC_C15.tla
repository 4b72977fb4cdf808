------------------------------- MODULE MC_C15 -------------------------------
EXTENDS MultiSet, Json, IOUtils
CONSTANTS SPAN, NSETS
Es == UNION {{e \in [1..n -> {2 * k : k \in 0..SPAN}] : \A i \in 2..n : e[i - 1] <= e[i]} : n \in 2..NSETS}
Ws == {<<a, b>> \in ((-2)..(2 * SPAN + 2)) \X ((-2)..(2 * SPAN + 2)) : a < b}
MCInit == \E e \in Es, w \in Ws : SetInit(e, w[1], w[2])
MCFinish == /\ SetDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson([e |-> eps, w |-> win]))
            /\ FALSE /\ UNCHANGED svars
MCSpec == MCInit /\ [][Tick \/ MCFinish]_svars
=============================================================================
