------------------------------- MODULE TR_C11 -------------------------------
(* Follows recorded mutual orbiting groups once around the reference.        *)
EXTENDS Mutual, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done, bad
tvars == <<mvars, l, done, bad>>
Q == Trace[l].in
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ MutInit([n |-> Trace[n].in.n, cw |-> Trace[n].in.cw])
               /\ bad = IF Trace[n].out.status = "ok" THEN GroupFailing(Trace[n].in, Trace[n].out.members) ELSE {Trace[n].out.status}
Step == /\ ~done /\ O.status = "ok" /\ u < 23
        /\ bad' = bad \cup OffsetFailing(Q, O.members, u)
        /\ Advance /\ UNCHANGED <<l, done>>
Finish == /\ ~done /\ (O.status # "ok" \/ u = 23)
          /\ Verdict(l, bad) /\ done' = TRUE /\ UNCHANGED <<mvars, l, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_tvars
=============================================================================
