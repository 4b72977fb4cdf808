------------------------------- MODULE TR_C22 -------------------------------
(* Validates recorded aggregated ground tracks.                              *)
EXTENDS Track, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<kvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ TrackInit(<<>>, {}, FALSE, 1)
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF Trace[l].kind = "reject" THEN Clause(o.status = "raise:ValueError", "rejected")
  ELSE IF o.status # "ok" THEN {o.status}
  ELSE AggregateFailing(q.samples, q.period, q.line, q.dissolve, q.masked, o.n, o.probes)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<kvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
