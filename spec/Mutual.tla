------------------------------- MODULE Mutual -------------------------------
(* Mutual orbiting groups (C11).  The reference satellite moves on its       *)
(* circle in steps of 15 degrees; member k of n circles it, k/n of a turn    *)
(* ahead.  Offsets are in 1/1000 of the declared half axes: along track      *)
(* (2 a e = half the parallel axis), radial (half of that) and across        *)
(* (a tilt = half the transverse axis).                                      *)
EXTENDS Common

SIN15 == <<0, 259, 500, 707, 866, 966, 1000, 966, 866, 707, 500, 259,
           0, -259, -500, -707, -866, -966, -1000, -966, -866, -707, -500, -259>>
Sin(k) == SIN15[(k % 24) + 1]
Cos(k) == Sin(k + 6)
Sense(cw) == IF cw THEN 1 ELSE -1

\* offset from the reference at mutual phase ph (15 degree units)
Offset(cw, ph) == [along |-> Sense(cw) * Cos(ph), radial |-> Sense(cw) * Sin(ph), across |-> -Sin(ph)]

VARIABLES grp, u
mvars == <<grp, u>>
\* grp: [n, cw] with n dividing 24, or [n, cw] of a recorded group whose
\* members are followed from their own phase origin
MutInit(g) == grp = g /\ u = 0
Advance == u < 24 /\ u' = u + 1 /\ UNCHANGED grp
PhaseOf(k) == u + (24 \div grp.n) * (k - 1)

Members == 1..grp.n
Sq(x) == x * x
\* the members stay on the declared ellipse ...
OnEllipse == \A k \in Members : LET o == Offset(grp.cw, PhaseOf(k)) IN
               Abs(Sq(o.along) + Sq(o.radial) - 1000000) <= 3000 /\ Abs(o.across) <= 1000
\* ... around the reference: their offsets sum to zero (two or more members)
Centred == grp.n > 1 =>
  LET S(f) == SumSeq([k \in Members |-> Offset(grp.cw, PhaseOf(k))[f]])
  IN Abs(S("along")) <= grp.n /\ Abs(S("radial")) <= grp.n /\ Abs(S("across")) <= grp.n
\* never two at one place
Apart == \A j, k \in Members : j # k => Offset(grp.cw, PhaseOf(j)) # Offset(grp.cw, PhaseOf(k))
\* the opposite sense mirrors along track and radially, not across
Mirrored == \A k \in Members : LET a == Offset(TRUE, PhaseOf(k))
                                   b == Offset(FALSE, PhaseOf(k)) IN
              a.along = -b.along /\ a.radial = -b.radial /\ a.across = b.across

-----------------------------------------------------------------------------
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
PaddedName(base, t, k) == base \o " " \o Zeros(Digits(t) - Digits(k)) \o ToString(k)

\* q: [name, n, cw, alt, epd, ep, ecc, tilt, ninst, tol]; rows: members with
\* rel[j] the recorded offset when the member's mutual phase is 15 (j-1) degrees
GroupFailing(q, rows) ==
  Clause(Len(rows) = q.n, "number_of_members")
  \cup Clause(\A k \in DOMAIN rows : rows[k].name = PaddedName(q.name, q.n, k), "names")
  \cup Clause(\A k \in DOMAIN rows : rows[k].alt = q.alt /\ rows[k].epd = q.epd /\ rows[k].ep = q.ep, "altitude_epoch")
  \cup Clause(\A k \in DOMAIN rows : Abs(rows[k].ecc - q.ecc) <= 1, "eccentricity")
  \cup Clause(\A k \in DOMAIN rows : Abs(rows[k].tilt - q.tilt) <= 2, "tilt")
  \cup Clause(\A k \in DOMAIN rows : rows[k].inrange, "angle_range")
  \cup Clause(\A k \in DOMAIN rows : Len(rows[k].inst) = q.ninst /\ \A j \in DOMAIN rows[k].inst : rows[k].inst[j].same, "instruments")
  \cup Clause(\A k \in DOMAIN rows : \A j \in DOMAIN rows[k].inst : rows[k].inst[j].own, "instrument_copies")
\* offsets of every member at the phase reached
OffsetFailing(q, rows, ph) ==
  LET o == Offset(q.cw, ph) IN
  UNION {Clause(Abs(rows[k].rel[ph + 1][1] - o.along) <= q.tol, "along_track")
         \cup Clause(Abs(rows[k].rel[ph + 1][2] - o.radial) <= q.tol, "radial")
         \cup Clause(Abs(rows[k].rel[ph + 1][3] - o.across) <= q.tol, "across_track") : k \in DOMAIN rows}
  \* all members follow the same relative path, whatever the size of the axes
  \cup Clause(\A k \in DOMAIN rows : \A c \in 1..3 : Abs(rows[k].rel[ph + 1][c] - rows[1].rel[ph + 1][c]) <= 2, "same_path")
=============================================================================
