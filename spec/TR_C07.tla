------------------------------- MODULE TR_C07 -------------------------------
(* Validates recorded calls of compute_latencies.                            *)
EXTENDS Latency, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<lvars, l, done>>
TraceInit == \E i \in 1..Len(Trace) : l = i /\ done = FALSE /\ LatInit(Trace[i].in.obs, Trace[i].in.dl)
Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE LatFailing(o.rows)
TraceNext ==
  \/ LatNextOrdered /\ UNCHANGED <<l, done>>
  \/ LatDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<lvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
