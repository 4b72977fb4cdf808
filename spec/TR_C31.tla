------------------------------- MODULE TR_C31 -------------------------------
(* Validates recorded validity decisions.                                    *)
EXTENDS Sunlit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<svars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ SunInit(<<"none", "none">>, <<>>)
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE SunFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<svars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
