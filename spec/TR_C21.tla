------------------------------- MODULE TR_C21 -------------------------------
(* Validates recorded ground tracks, masked and unmasked.                    *)
EXTENDS Track, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<kvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ TrackInit(<<>>, {}, FALSE, 1)
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE GroundTrackFailing(q.n, o.rows)
       \cup (IF q.masked THEN MaskedTrackFailing(o.meets, o.clip) ELSE {})
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<kvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
