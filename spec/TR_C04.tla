------------------------------- MODULE TR_C04 -------------------------------
(* Validates recorded calls of aggregate_observations.                       *)
EXTENDS Aggregate, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<avars, l, done>>

TraceInit == \E i \in 1..Len(Trace) : l = i /\ done = FALSE /\ AggInit(Trace[i].in)

Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE AggFailing(o.rows)

TraceNext ==
  \/ AggNext /\ UNCHANGED <<l, done>>
  \/ AggDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<avars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
