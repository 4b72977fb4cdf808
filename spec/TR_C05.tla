------------------------------- MODULE TR_C05 -------------------------------
(* Validates recorded calls of reduce_observations and reduce_latencies.     *)
EXTENDS Reduce, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<rvars, l, done>>
TraceInit == \E i \in 1..Len(Trace) : l = i /\ done = FALSE /\ RedInit(Trace[i].in)
Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE RedFailing(o.rows)
TraceNext ==
  \/ RedNextOrdered /\ UNCHANGED <<l, done>>
  \/ RedDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<rvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
