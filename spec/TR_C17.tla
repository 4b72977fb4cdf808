------------------------------- MODULE TR_C17 -------------------------------
(* Validates recorded generated points.                                      *)
EXTENDS Lattice, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<lvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ LatticeInit(2, Globe, "no")
Failing == LET q == Trace[l].in  o == Trace[l].out  k == Trace[l].kind IN
  IF k = "invalid" THEN Clause(o.status = "raise:ValueError", "invalid_mask")
  ELSE IF o.status # "ok" THEN {o.status}
  ELSE IF k = "grid" THEN GridPointFailing(q.th, q.rings, q.west, q.elev, o.rows)
  ELSE FibFailing(q.n, q.rings, q.wrap, q.elev, o.rows)
       \cup (IF q.rings = <<>> THEN {} ELSE FibMaskFailing(q.rings, q.west, q.wrap, o.all, o.rows) \cup FibFailing(q.n, <<>>, FALSE, 0, o.all))
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<lvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
