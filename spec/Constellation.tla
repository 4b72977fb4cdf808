--------------------------- MODULE Constellation ---------------------------
(* Member generation of Walker, streets-of-coverage and train constellations *)
(* (C08, C09).  Angles are in millidegrees.                                  *)
(*                                                                           *)
(* The machine places the members one after the other, keeping plane and     *)
(* slot counters; offsets are relative to the lead orbit.                    *)
EXTENDS Common

VARIABLES par, plane, slot, mem
cvars == <<par, plane, slot, mem>>

TURN == 360000
Ceil(a, b) == (a + b - 1) \div b
Mod(a) == a % TURN
Circ(a, b) == LET d == (a - b) % TURN IN Min2(d, TURN - d)

\* par: [kind, t, p, f, star] or [kind |-> "train", t, dm, dr] with dm, dr the
\* anomaly lost and node gained per member, in 1/1000 millidegree modulo a turn
FINE == 360000000
ConInit(q) == par = q /\ plane = 0 /\ slot = 0 /\ mem = <<>>

PerPlane == Ceil(par.t, par.p)
Spread == IF par.star THEN TURN \div 2 ELSE TURN

\* rounded quotient
Quo(a, b) == (2 * a + b) \div (2 * b)

\* a member joins the plane in progress
PlaceWalker ==
  /\ par.kind = "walker" /\ Len(mem) < par.t /\ slot < PerPlane
  /\ mem' = Append(mem, [plane |-> plane, slot |-> slot,
                         dma |-> Mod(Quo(slot * TURN, PerPlane) + Quo(plane * par.f * TURN, par.t)),
                         draan |-> Mod(Quo(plane * Spread, par.p))])
  /\ slot' = slot + 1
  /\ UNCHANGED <<par, plane>>
\* the plane is full: the next one opens
NextPlane ==
  /\ par.kind = "walker" /\ Len(mem) < par.t /\ slot = PerPlane
  /\ plane' = plane + 1 /\ slot' = 0
  /\ UNCHANGED <<par, mem>>
\* a train grows by one member behind the last
PlaceTrain ==
  /\ par.kind = "train" /\ Len(mem) < par.t
  /\ LET um == IF mem = <<>> THEN 0 ELSE (mem[Len(mem)].um - par.dm) % FINE
         ur == IF mem = <<>> THEN 0 ELSE (mem[Len(mem)].ur + par.dr) % FINE
     IN mem' = Append(mem, [plane |-> 0, slot |-> slot, um |-> um, ur |-> ur,
                            dma |-> Mod(Quo(um, 1000)), draan |-> Mod(Quo(ur, 1000))])
  /\ slot' = slot + 1
  /\ UNCHANGED <<par, plane>>

ConNext == PlaceWalker \/ NextPlane \/ PlaceTrain
ConDone == Len(mem) = par.t

-----------------------------------------------------------------------------
Valid(q) == q.p <= q.t /\ q.f < q.p

\* declarative pattern: member k (from 0) of a Walker t/p/f constellation
WalkerPattern ==
  (ConDone /\ par.kind = "walker") =>
    \A k \in 0..(par.t - 1) :
      LET m == mem[k + 1]
          spp == PerPlane
      IN /\ m.plane = k \div spp /\ m.slot = k % spp
         /\ m.plane < par.p
         \* exact relation without rounding, in units of 1/(spp*t)
         /\ Circ(m.dma, Mod(Quo((k % spp) * TURN, spp) + Quo((k \div spp) * par.f * TURN, par.t))) <= 1

\* no two members coincide (full planes of a delta pattern)
WalkerDistinct ==
  (ConDone /\ par.kind = "walker") =>
    \A a, b \in DOMAIN mem : a # b => (mem[a].dma # mem[b].dma \/ mem[a].draan # mem[b].draan)

\* a delta pattern with full planes is the same whichever plane is taken as the
\* first: the relative offsets of successive planes are all equal
WalkerSymmetric ==
  (ConDone /\ par.kind = "walker" /\ par.t = par.p * PerPlane) =>
    \A a \in DOMAIN mem : \A b \in DOMAIN mem :
      (mem[b].plane = mem[a].plane + 1 /\ mem[b].slot = mem[a].slot) =>
        /\ Circ(mem[b].dma - mem[a].dma, Quo(par.f * TURN, par.t)) <= 2
        /\ Circ(mem[b].draan - mem[a].draan, Quo(Spread, par.p)) <= 2

\* a train member k trails the lead by k intervals (no product beyond 32 bits)
RECURSIVE Times(_, _)
Times(k, d) == IF k = 0 THEN 0 ELSE (Times(k - 1, d) + d) % FINE
TrainPattern ==
  (ConDone /\ par.kind = "train") =>
    \A k \in DOMAIN mem :
      /\ mem[k].um = (-Times(k - 1, par.dm)) % FINE /\ mem[k].ur = Times(k - 1, par.dr)
      /\ (k > 1 => \A j \in DOMAIN mem : j + 1 = k =>
            (mem[j].um - mem[k].um - par.dm) % FINE = 0)

-----------------------------------------------------------------------------
(* Judgement of recorded members against the lead orbit.                     *)
\* lead and members: [ma, raan, inc, ecc, argp, n, ep, alt, drag, type]
Keeps(m, lead, want) ==
  /\ Abs(m.inc - lead.inc) <= 1 /\ Abs(m.ecc - lead.ecc) <= 1 /\ Abs(m.argp - lead.argp) <= 1
  /\ Abs(m.n - lead.n) <= 2 /\ Abs(m.epd - lead.epd) <= 1 /\ Abs((m.epd - lead.epd) * 86400000 + m.ep - lead.ep) <= 2 /\ Abs(m.alt - lead.alt) <= 1
  /\ m.drag = lead.drag /\ m.type = want

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
PaddedName(base, t, k) == base \o " " \o Zeros(Digits(t) - Digits(k)) \o ToString(k)

\* q: [name, lead, mtype, ninst, tol]; rows: members [name, el, inst] with inst
\* a sequence of [same, own]: equal to the declared instrument, and not shared
MembersFailing(q, rows) ==
  LET both == DOMAIN rows \cap DOMAIN mem IN
  Clause(Len(rows) = Len(mem), "number_of_members")
  \cup Clause(\A k \in both : rows[k].name = PaddedName(q.name, par.t, k), "names")
  \cup Clause(\A k \in both : Circ(rows[k].el.ma, q.lead.ma + mem[k].dma) <= q.tol, "mean_anomaly")
  \cup Clause(\A k \in both : Circ(rows[k].el.raan, q.lead.raan + mem[k].draan) <= q.tol, "ascending_node")
  \cup Clause(\A k \in both : Keeps(rows[k].el, q.lead, q.mtype), "other_elements")
  \cup Clause(\A k \in both : Len(rows[k].inst) = q.ninst /\ \A j \in DOMAIN rows[k].inst : rows[k].inst[j].same, "instruments")
  \cup Clause(\A k \in both : \A j \in DOMAIN rows[k].inst : rows[k].inst[j].own, "instrument_copies")
=============================================================================
