------------------------------- MODULE TR_C30 -------------------------------
(* Validates recorded mission definitions and their serialisation.           *)
EXTENDS Schema, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<hvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ kind = 1 /\ given = [k \in 1..3 |-> "in1"] /\ form = "input" /\ state = <<"none">>
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE IF Trace[l].kind = "trip" THEN TripFailing(q, o) ELSE DefineFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<hvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
