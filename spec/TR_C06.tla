------------------------------- MODULE TR_C06 -------------------------------
(* Validates recorded calls of grid_observations and grid_latencies.         *)
EXTENDS Grid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<gvars, l, done>>
TraceInit == \E i \in 1..Len(Trace) : l = i /\ done = FALSE /\ GridInit(Trace[i].in.cells, Trace[i].in.pts)
Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE GridFailing(o.rows)
TraceNext ==
  \/ GridNextOrdered /\ UNCHANGED <<l, done>>
  \/ GridDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<gvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
