------------------------------- MODULE Derive -------------------------------
(* Derivation of orbits (C10): the machine holds the angles of an orbit's    *)
(* element sets (millidegrees) and applies a history of shifts.              *)
EXTENDS Common

TURN == 360000
Mod(a) == a % TURN
Circ(a, b) == LET d == (a - b) % TURN IN Min2(d, TURN - d)

VARIABLES orig, cur, hist
dvars == <<orig, cur, hist>>

\* s: sequence of [ma, raan]
DerInit(s) == orig = s /\ cur = s /\ hist = <<>>
Derive(dm, dr) ==
  /\ cur' = [k \in DOMAIN cur |-> [ma |-> Mod(cur[k].ma + dm), raan |-> Mod(cur[k].raan + dr)]]
  /\ hist' = Append(hist, <<dm, dr>>)
  /\ UNCHANGED orig

SumOf(j) == SumSeq([k \in DOMAIN hist |-> hist[k][j]])
\* the outcome depends on the total shift only, so opposite shifts and whole
\* turns cancel and histories commute
TotalShift == \A k \in DOMAIN cur :
  /\ cur[k].ma = Mod(orig[k].ma + SumOf(1)) /\ cur[k].raan = Mod(orig[k].raan + SumOf(2))
InRange == \A k \in DOMAIN cur : cur[k].ma \in 0..(TURN - 1) /\ cur[k].raan \in 0..(TURN - 1)
BackAgain == (Mod(SumOf(1)) = 0 /\ Mod(SumOf(2)) = 0) =>
               \A k \in DOMAIN cur : cur[k].ma = Mod(orig[k].ma) /\ cur[k].raan = Mod(orig[k].raan)

-----------------------------------------------------------------------------
\* everything else an orbit must keep
Keeps(m, lead, want) ==
  /\ Abs(m.inc - lead.inc) <= 1 /\ Abs(m.ecc - lead.ecc) <= 1 /\ Abs(m.argp - lead.argp) <= 1
  /\ Abs(m.n - lead.n) <= 2 /\ Abs(m.epd - lead.epd) <= 1 /\ Abs((m.epd - lead.epd) * 86400000 + m.ep - lead.ep) <= 2 /\ Abs(m.alt - lead.alt) <= 1
  /\ m.drag = lead.drag /\ m.type = want

\* rows: the element sets of the orbit the code derived; q: [sets, want, tol]
StepFailing(q, now, step, tol) ==
  LET rows == step.sets
      both == DOMAIN rows \cap DOMAIN now IN
  Clause(Len(rows) = Len(now), "number_of_sets")
  \cup Clause(\A k \in both : Circ(rows[k].ma, now[k].ma) <= tol, "mean_anomaly")
  \cup Clause(\A k \in both : Circ(rows[k].raan, now[k].raan) <= tol, "ascending_node")
  \cup Clause(\A k \in both : Keeps(rows[k], q.sets[k], q.want), "other_elements")
  \cup Clause(step.inrange, "angle_range")
=============================================================================
