------------------------------- MODULE TR_C28 -------------------------------
(* Validates recorded loads of configuration files and their effects.        *)
EXTENDS Config, Effects, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<cvars, evars, l, done>>
TraceInit == \E ll \in 1..Len(Trace) : l = ll /\ done = FALSE /\ ConfInit /\ EInit
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE IF Trace[l].kind = "history" THEN EffectFailing(q, o)
  ELSE IF Trace[l].kind = "effect" THEN CmpFailing(o.cmp) ELSE LoadFailing(q, o)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<cvars, evars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
