------------------------------- MODULE TR_C27 -------------------------------
(* Validates recorded radio occultations.                               *)
EXTENDS Occult, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<ovars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ OccInit
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE OccFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<ovars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
