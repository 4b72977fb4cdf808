------------------------------ MODULE Instants ------------------------------
(* How instants are written (C35).  A zone is "utc", "east" (fixed offset) or *)
(* "dst", whose offset is one hour (three units) larger from Spring to Fall.  *)
(* A notation is a wall clock reading with its zone and, where the reading    *)
(* occurs twice, which occurrence is meant.  A history carries an instant     *)
(* through notations: it may be rewritten in another zone or moved by an      *)
(* elapsed duration; truth is the instant meant.                              *)
EXTENDS Common
CONSTANTS MaxTime, Spring, Fall, MaxSteps
VARIABLES truth, note, steps
insv == <<truth, note, steps>>
Zones == {"utc", "east", "dst"}
Hour == 3
Offset(t, z) == CASE z = "utc" -> 0 [] z = "east" -> 17 [] z = "dst" -> IF Spring <= t /\ t < Fall THEN Hour - 15 ELSE 0 - 15
Wall(t, z) == t + Offset(t, z)
Repeated(t, z) == z = "dst" /\ Fall <= t /\ t < Fall + Hour
Note(t, z) == [wall |-> Wall(t, z), zone |-> z, second |-> Repeated(t, z)]
Denotes(n, t) == n = Note(t, n.zone)
Instant(n) == CHOOSE t \in 0..MaxTime : Denotes(n, t)
InsInit == truth \in 0..MaxTime /\ \E z \in Zones : note = Note(truth, z) /\ steps = 0
Rewrite(z) == note' = Note(Instant(note), z) /\ UNCHANGED truth
Move(d) == /\ truth + d \in 0..MaxTime /\ truth' = truth + d
           /\ note' = Note(Instant(note) + d, note.zone)
InsNext == steps < MaxSteps /\ steps' = steps + 1 /\ ((\E z \in Zones : Rewrite(z)) \/ (\E d \in (0 - MaxTime)..MaxTime : Move(d)))

\* a notation denotes one instant, which rewriting and moving carry along
Resolved == Instant(note) = truth /\ Cardinality({t \in 0..MaxTime : Denotes(note, t)}) = 1
\* adding to the wall clock is moving only when no transition lies between, and
\* wall clocks need not even be in order
WallArithmetic == \A d \in 0..(MaxTime - truth) : (Wall(truth, note.zone) + d = Wall(truth + d, note.zone)) <=> Offset(truth, note.zone) = Offset(truth + d, note.zone)
WallOrder == \A t \in 0..MaxTime : (truth < t /\ Wall(truth, note.zone) >= Wall(t, note.zone)) => (note.zone = "dst" /\ truth < Fall /\ t >= Fall /\ t - truth <= Hour)

-----------------------------------------------------------------------------
(* Recorded calls: the result r under the notation tried and u under universal *)
(* time, each [names, nums, zone]: texts, scaled numbers, and the zones of the *)
(* columns of instants.                                                       *)
SameResult(r, u) ==
  Clause(r.outcome = u.outcome, "outcome")
  \cup (IF r.outcome # "ok" \/ u.outcome # "ok" THEN {}
        ELSE Clause(r.names = u.names, "rows_and_names") \cup Clause(r.zones = u.zones, "zones_of_results")
             \cup Clause(Len(r.nums) = Len(u.nums) /\ \A k \in DOMAIN u.nums : k \in DOMAIN r.nums => Near(r.nums[k], u.nums[k], 2), "values"))

\* a reading without its zone denotes no instant: it is refused, not guessed
Refused(outcome) == Clause(outcome # "ok", "accepted_without_zone")
=============================================================================
