------------------------------- MODULE TR_C33 -------------------------------
(* Validates recorded runs of the whole chain from raw tables to grids.      *)
EXTENDS Pipeline, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<pvars, l, done>>
TraceInit == \E i \in 1..Len(Trace) : l = i /\ done = FALSE /\ PipeInit(Trace[i].in.obs, Trace[i].in.dl, Trace[i].in.cells)
Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE
  CoverFailing(o.cover, o.covergrid) \cup LatencyFailing(o.lat, o.latgrid)
TraceNext ==
  \/ PipeNextOrdered /\ UNCHANGED <<l, done>>
  \/ PipeDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<pvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
