------------------------------- MODULE TR_C03 -------------------------------
(* Validates recorded calls of collect_multi_observations.                   *)
EXTENDS Merge, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<mvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ MergeInit(Trace[n].in.parts)
Failing == LET o == Trace[l].out
               q == Trace[l].in IN
  IF o.status # "ok" THEN {o.status}
  ELSE MergeFailing(o.rows)
       \cup Clause(Len(q.parts) = SumSeq([k \in DOMAIN q.systems |-> q.systems[k].members * q.systems[k].instruments]), "members")
       \cup Clause(Range(o.cols) = Range(q.cols), "columns")
       \cup Clause(o.index = [k \in DOMAIN o.rows |-> k - 1], "index")
TraceNext ==
  \/ MergeNextOrdered /\ UNCHANGED <<l, done>>
  \/ MergeDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<mvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
