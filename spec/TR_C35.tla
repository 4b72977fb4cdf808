------------------------------- MODULE TR_C35 -------------------------------
(* Validates recorded calls whose times are written in different ways.       *)
EXTENDS Instants, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<insv, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ truth = 0 /\ note = Note(0, "utc") /\ steps = 0
Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE UNION {{o.calls[k].name \o "_" \o x : x \in SameResult(o.calls[k].tried, o.calls[k].utc) \cup Refused(o.calls[k].bare)} : k \in DOMAIN o.calls}
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<insv, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
