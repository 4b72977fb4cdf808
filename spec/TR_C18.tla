------------------------------- MODULE TR_C18 -------------------------------
(* Validates recorded generated cells.                                       *)
EXTENDS Lattice, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<lvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ LatticeInit(2, Globe, "no")
Failing == LET q == Trace[l].in  o == Trace[l].out  k == Trace[l].kind IN
  IF k = "invalid" THEN Clause(o.status = "raise:ValueError", "invalid_mask")
  ELSE IF o.status # "ok" THEN {o.status}
  ELSE (IF k = "box" THEN CellFailing(q.th, q.box, q.strip, q.masked, q.elev, o.rows)
        ELSE PartFailing(q.th, q.box, q.strip, o.part, q.elev, o.rows))
       \cup PairFailing(o.pairs)
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<lvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
