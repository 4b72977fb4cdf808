------------------------------- MODULE TR_C10 -------------------------------
(* Validates recorded histories of orbit derivations, step by step.          *)
EXTENDS Derive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done, bad
tvars == <<dvars, l, done, bad>>
Q == Trace[l].in
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ bad = {} /\
  DerInit([k \in DOMAIN Trace[n].in.sets |-> [ma |-> Trace[n].in.sets[k].ma, raan |-> Trace[n].in.sets[k].raan]])
Step == /\ ~done /\ O.status = "ok" /\ Len(hist) < Len(Q.shifts)
        /\ LET s == Q.shifts[Len(hist) + 1] IN
           /\ Derive(s[1], s[2])
           /\ bad' = bad \cup (IF Len(hist) + 1 \in DOMAIN O.steps
                               THEN StepFailing(Q, cur', O.steps[Len(hist) + 1], Q.tol) ELSE {"step_missing"})
        /\ UNCHANGED <<l, done>>
Finish == /\ ~done /\ (O.status # "ok" \/ Len(hist) = Len(Q.shifts))
          /\ Verdict(l, IF O.status = "ok" THEN bad \cup Clause(O.unchanged, "original_modified") ELSE {O.status})
          /\ done' = TRUE /\ UNCHANGED <<dvars, l, bad>>
TraceNext == Step \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
