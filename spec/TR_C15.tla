------------------------------- MODULE TR_C15 -------------------------------
(* Validates recorded index choices, partitions, tracks and events.          *)
EXTENDS MultiSet, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
K == Trace[l].kind
Q == Trace[l].in
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ SetInit(Trace[n].in.eps, 0, 0)
Failing == IF O.status # "ok" THEN {O.status} ELSE
  CASE K \in {"closest", "scalar"} -> ClosestFailing(eps, O.rows) \cup Clause([k \in DOMAIN O.rows |-> O.rows[k][1]] = Q.ts, "one_per_time")
    [] K = "partition" -> PartFailing(eps, Q.a, Q.b, O.ts, O.is)
    \* dist[k]: metres from the position, or mm/s from the velocity, of a closest set alone
    [] K = "track" -> Clause(Len(O.dist) = Len(Q.ts), "one_per_time") \cup Clause(\A k \in DOMAIN O.dist : O.dist[k] <= 1, "position_of_closest")
                      \cup Clause(O.times, "track_times")
    [] K = "events" -> Clause(SameEvents(O.got, Q.want), "events")
Finish == ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<svars, l>>
TraceSpec == TraceInit /\ [][Finish]_<<svars, l, done>>
=============================================================================
