------------------------------- MODULE TR_C09 -------------------------------
(* Validates recorded train constellations.                                  *)
EXTENDS Constellation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<cvars, l, done>>
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\
  ConInit([kind |-> "train", t |-> Trace[n].in.t, dm |-> Trace[n].in.dm, dr |-> Trace[n].in.dr])
Failing == LET o == Trace[l].out
               q == Trace[l].in IN
  IF o.status = "ok" THEN MembersFailing(q, o.members) ELSE {o.status}
TraceNext ==
  \/ ConNext /\ UNCHANGED <<l, done>>
  \/ ConDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<cvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
