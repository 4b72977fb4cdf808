------------------------------- MODULE MC_C06 -------------------------------
EXTENDS Grid, Json, IOUtils
CONSTANTS NPTS
Rect(i, x0, y0, x1, y1) == [id |-> i, ring |-> << <<x0, y0>>, <<x1, y0>>, <<x1, y1>>, <<x0, y1>> >>]
\* two neighbours, a third that overlaps both, one that is never hit
CellSets == {<<Rect(7, 0, 0, 4, 4), Rect(3, 4, 0, 8, 4)>>,
             <<Rect(5, 0, 0, 4, 4), Rect(9, 4, 0, 8, 4), Rect(1, 2, 0, 6, 4), Rect(4, 20, 20, 24, 24)>>}
Pts == {[x |-> x, y |-> 2, n |-> n, a |-> a, b |-> b] :
          x \in {1, 3, 4, 7, 11}, n \in {1, 3}, a \in {2, 5}, b \in {6, NA}}
MCInit == \E C \in CellSets : \E n \in 0..NPTS : \E P \in [1..n -> Pts] : GridInit(C, P)
MCFinish == /\ GridDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson(<<cells, pts>>))
            /\ FALSE /\ UNCHANGED gvars
MCNext == GridNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_gvars
=============================================================================
