------------------------------- MODULE TR_C25 -------------------------------
(* Validates recorded viewing geometry conversions.                          *)
EXTENDS Viewing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<vvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ ViewInit(25, 26)
Failing == LET q == Trace[l].in  o == Trace[l].out  kd == Trace[l].kind IN
  IF o.status # "ok" THEN {o.status}
  ELSE CmpFailing(o.cmp)
       \cup (IF kd = "regard" THEN RegardFailing(q, o)
             ELSE IF kd = "altitude" THEN AltitudeFailing(q, o)
             ELSE IF kd = "inclination" THEN InclinationFailing(q, o)
             ELSE IF kd = "anomaly" THEN AnomalyFailing(q, o)
             ELSE IF kd = "samples" THEN SamplesFailing(q, o) ELSE {})
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<vvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
