------------------------------- MODULE TR_C32 -------------------------------
(* Validates recorded buffered targets.                                    *)
EXTENDS Buffer, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<bvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ BufInit(<<0, 0>>)
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE BufFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<bvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
