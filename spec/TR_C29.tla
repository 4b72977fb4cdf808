------------------------------- MODULE TR_C29 -------------------------------
(* Validates recorded histories of calls against History.                    *)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<cvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ value = <<>> /\ conf = 0 /\ kept = <<>> /\ log = <<>>
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE CASE Trace[l].kind = "alias" -> AliasFailing(q, o)
         [] Trace[l].kind = "equal" -> EqualFailing(q, o)
         [] OTHER -> CallFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<cvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
