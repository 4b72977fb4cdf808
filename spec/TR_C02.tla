------------------------------- MODULE TR_C02 -------------------------------
(* Validates recorded calls of collect_observations.                         *)
EXTENDS Observation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<vvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) :
  /\ l = n /\ done = FALSE
  /\ VisInit(Trace[n].in.t0, Trace[n].in.t1, <<Trace[n].in.trans>>)
Failing == LET o == Trace[l].out
               q == Trace[l].in IN
  IF o.status # "ok" THEN {o.status} ELSE ObsFailing(q.id, q.instr, q.cond, o.rows)
TraceNext ==
  \/ VisNext /\ UNCHANGED <<l, done>>
  \/ VisDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<vvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
