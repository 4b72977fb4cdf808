------------------------------- MODULE TR_C23 -------------------------------
(* Validates recorded ground pixels.                                         *)
EXTENDS Pixels, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<pvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ PixInit(0, 1, 1, {})
Failing == LET q == Trace[l].in  o == Trace[l].out IN
  IF Trace[l].kind = "reject" THEN Clause(o.status = "raise:ValueError", "rejected")
  ELSE IF o.status # "ok" THEN {o.status}
  ELSE DirFailing(q.ins, o.dirs) \cup RowsFailing(q.n, q.ins, o.rows)
       \cup (IF q.masked THEN SelectFailing(o.where, o.kept) ELSE {})
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<pvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
