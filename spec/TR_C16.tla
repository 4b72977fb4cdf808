------------------------------- MODULE TR_C16 -------------------------------
(* Runs the machine along the recorded history of one orbit object.          *)
EXTENDS Repeat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done, bad
tvars == <<rvars, l, done, bad>>
Q == Trace[l].in
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ bad = {} /\
  RepInit([wide |-> Trace[n].in.wide, narrow |-> Trace[n].in.narrow,
           near |-> LET q == Trace[n].in IN IF Trace[n].kind # "search" THEN 0
                    ELSE FirstReturn(q.cands, q.el, q.dp, q.dv, q.dur)])
\* does a set of matching offsets (of the returned position) hold the folded one
Holds(ms, off) == \E k \in DOMAIN ms : Abs(ms[k] - off) <= 8
TrackFailing(op, o) ==
  LET c == IF Uses(op[2], trk) /\ ~Q.multi THEN CycleAsked("wide", "default") ELSE 0 IN
  Clause(\A k \in DOMAIN o.offs : Holds(o.match[k], Fold(o.offs[k], c))
                                  \/ (c > 0 /\ LET f == Abs(o.offs[k]) % c IN f < 10 \/ c - f < 10), IF c = 0 THEN "direct_track" ELSE "folded_track")
  \cup Clause(o.times, "track_times")
EventsFailing(op, o) ==
  LET c == IF Uses(op[2], evt) /\ ~Q.multi THEN CycleAsked("wide", "default") ELSE 0 IN
  IF c > 0 /\ c < o.b - o.a
  THEN Clause(NearEnd(o.first, c, o.a, o.b) \/ SameEvents(o.got, Unroll(o.first, c, o.a, o.b)), "repeated_events")
  ELSE Clause(Abs(c - (o.b - o.a)) < 10 \/ SameEvents(o.got, o.direct), "direct_events")
CycleFailing(op, o) == Clause(Abs(o.got - CycleAsked(op[2], op[3])) <= 1500, "cycle")
Step ==
  /\ ~done /\ O.status = "ok" /\ Len(hist) < Len(Q.ops)
  /\ LET op == Q.ops[Len(hist) + 1]
         o == O.res[Len(hist) + 1] IN
     /\ bad' = bad \cup (CASE op[1] = "cycle" -> CycleFailing(op, o) [] op[1] = "track" -> TrackFailing(op, o)
                           [] op[1] = "events" -> EventsFailing(op, o) [] OTHER -> {})
     /\ CASE op[1] = "cycle" -> IF Q.multi THEN hist' = Append(hist, op) /\ UNCHANGED <<cyc, cache, lazy, trk, evt>> ELSE AskCycle(op[2], op[3])
          [] op[1] = "track" -> IF Q.multi THEN hist' = Append(hist, op) /\ UNCHANGED <<cyc, cache, lazy, trk, evt>> ELSE Track(op[2])
          [] op[1] = "events" -> IF Q.multi THEN hist' = Append(hist, op) /\ UNCHANGED <<cyc, cache, lazy, trk, evt>> ELSE Events(op[2])
          [] op[1] = "set" -> Settings(op[2], op[3], op[4])
  /\ UNCHANGED <<l, done>>
Finish == /\ ~done /\ (O.status # "ok" \/ Len(hist) = Len(Q.ops))
          /\ Verdict(l, IF O.status = "ok" THEN bad ELSE {O.status})
          /\ done' = TRUE /\ UNCHANGED <<rvars, l, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_tvars
=============================================================================
