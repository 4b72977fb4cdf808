------------------------------- MODULE TR_C01 -------------------------------
(* Validates recorded calls of collect_downlinks.                            *)
EXTENDS Downlink, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<vvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) :
  /\ l = n /\ done = FALSE
  /\ VisInit(Trace[n].in.t0, Trace[n].in.t1, [h \in DOMAIN Trace[n].in.st |-> Trace[n].in.st[h].trans])
Failing == LET o == Trace[l].out IN
  IF o.status # "ok" THEN {o.status} ELSE DlFailing(Trace[l].in.st, Trace[l].in.sat, o.rows)
TraceNext ==
  \/ VisNext /\ UNCHANGED <<l, done>>
  \/ VisDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<vvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
