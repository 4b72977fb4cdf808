------------------------------- MODULE TR_C24 -------------------------------
(* Validates recorded footprint outlines, limbs and projected rays.          *)
EXTENDS Footprint, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<fvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ FootInit(1, 1, 0, 0, FALSE, 1)
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE IF Trace[l].kind = "limb" THEN LimbFailing(q, o)
  ELSE IF Trace[l].kind = "ray" THEN RayFailing(q, o)
  ELSE OutlineFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<fvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
