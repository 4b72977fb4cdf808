------------------------------- MODULE TR_C19 -------------------------------
(* Validates recorded splits and normalisations.                             *)
EXTENDS Wrap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<wvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ WrapInit(<<0, 0, 1, 1>>)
Failing == LET q == Trace[l].in  o == Trace[l].out  k == Trace[l].kind IN
  IF k = "invalid" THEN Clause(o.status = "raise:ValueError", "invalid_rejected")
  ELSE IF o.status # "ok" THEN {o.status}
  ELSE IF k = "split" THEN SplitFailing(q.parts, q.probes, o)
  ELSE \* one row per geometry, labels and other columns kept, each the split of its own
       Clause(o.count = q.count, "rows") \cup Clause(o.labels, "labels") \cup Clause(o.each, "each_split")
       \cup Clause(o.input_kept, "input_kept") \cup Clause(o.crs, "crs")
TraceNext == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<wvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
