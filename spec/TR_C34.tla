------------------------------- MODULE TR_C34 -------------------------------
(* Validates recorded result tables.                                         *)
EXTENDS Tables, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<tvs, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ TabInit
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status}
  ELSE UNION {TableFailing(o.tabs[j]) : j \in DOMAIN o.tabs} \cup LawFailing(o.rows)
       \cup Clause(\A k \in DOMAIN q.expect : (q.expect[k] = 0) <=> (o.rows[k] = 0), "emptiness")
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<tvs, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
