------------------------------- MODULE MC_C22 -------------------------------
(* Samples of one to NO revolutions, valid or not; groups of the machine are *)
(* those the trace rules use.                                                *)
EXTENDS Track, Json, IOUtils
CONSTANTS NS, NO
MCInit == \E n \in 1..NS : \E o \in [1..n -> 0..(NO - 1)] : \E v \in [1..n -> BOOLEAN] :
            /\ o[1] = 0 /\ (\A k \in 2..n : o[k] >= o[k - 1])
            /\ TrackInit([k \in 1..n |-> [t |-> 10 * o[k] + k, pos |-> k, foot |-> {k}, valid |-> v[k]]], {}, FALSE, 10)
\* the groups built by the machine are those of the trace rules
SameGroups == TrackDone =>
  LET S == [k \in DOMAIN smp |-> [t |-> smp[k].t, valid |-> smp[k].valid, r |-> 1]] IN
  /\ {groups[q] : q \in DOMAIN groups} = AggGroups(S, per, TRUE)
  /\ \A G \in AggGroups(S, per, FALSE) : \E Q \in SUBSET AggGroups(S, per, TRUE) : UNION Q = G
  /\ UNION AggGroups(S, per, FALSE) = {k \in DOMAIN smp : smp[k].valid}
MCFinish == /\ TrackDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson([k \in DOMAIN smp |-> <<Orbit(k), IF smp[k].valid THEN 1 ELSE 0>>]))
            /\ FALSE /\ UNCHANGED kvars
MCNext == TrackNext \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_kvars
=============================================================================
