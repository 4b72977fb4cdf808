------------------------------- MODULE TR_C26 -------------------------------
(* Validates recorded dilutions of precision.                                *)
EXTENDS Dop, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<dvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ SkyInit(0)
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE IF Trace[l].kind = "table" THEN TableFailing(o) ELSE DopFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<dvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
