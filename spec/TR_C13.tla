------------------------------- MODULE TR_C13 -------------------------------
(* Reads the recorded lists of lines and compares acceptance.                *)
EXTENDS TleFormat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<fvars, l, done>>
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ ReadInit(Trace[n].in.lines)
Failing ==
  Clause(verdict = "accept" => O.status = "ok", "valid_rejected")
  \cup Clause(verdict = "reject" => O.status # "ok", "invalid_accepted")
  \cup Clause(O.status \in {"ok", "raise:ValidationError"}, "error_type:" \o O.status)
  \cup Clause(O.status = "ok" => O.kept, "text_changed")
TraceNext ==
  \/ ReadNext /\ UNCHANGED <<l, done>>
  \/ ReadDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<fvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
