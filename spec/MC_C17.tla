------------------------------- MODULE MC_C17 -------------------------------
EXTENDS Lattice, Json, IOUtils
CONSTANTS Ths, XS, YS
Boxes == {Globe} \cup {<<a[1] - 180 * U, a[2] - 90 * U, b[1] - 180 * U, b[2] - 90 * U>> : a \in XS \X YS, b \in XS \X YS}
Good(t, b) == \* no cell centre lies on an edge of the box
  b = Globe \/ (b[1] < b[3] /\ b[3] - b[1] <= Full /\ b[1] < 180 * U /\ (b[3] > 180 * U => Full % t = 0) /\ b[2] < b[4] /\ \A i \in 0..(2 * NLon(t)) : CentreX(i, t) \notin {b[1], b[3]}
    /\ \A j \in 0..NLat(t) : CentreY(j, t) \notin {b[2], b[4]})
MCInit == \E t \in Ths : \E b \in {x \in Boxes : Good(t, x)} : \E s \in {"no", "lat", "lon"} : LatticeInit(t, b, s)
MCFinish == /\ LatticeDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<th, box, strip>>))
            /\ FALSE /\ UNCHANGED lvars
MCNext == Emit \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_lvars
=============================================================================
