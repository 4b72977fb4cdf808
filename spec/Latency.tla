------------------------------- MODULE Latency -------------------------------
(* Pairing of observations with downlink contacts (C07).                     *)
(*                                                                           *)
(* obs: sequence of [sat, e, ep, id, ...]; dl: sequence of [sat, s, ep, st]. *)
(* The machine sweeps backwards in time over observation ends and contact    *)
(* starts, remembering per satellite the contact that starts next; at one    *)
(* instant contacts come first, so a contact starting exactly at the end of  *)
(* an observation is its downlink.  Contacts of one satellite that start at  *)
(* the same time are interchangeable.                                        *)
EXTENDS Common

VARIABLES obs, dl, ho, hd, nxt, pair

lvars == <<obs, dl, ho, hd, nxt, pair>>

LatInit(O, D) ==
  /\ obs = O /\ dl = D
  /\ ho = DOMAIN O /\ hd = DOMAIN D
  /\ nxt = [s \in {O[k].sat : k \in DOMAIN O} |-> {}]
  /\ pair = << >>

LatestD == {k \in hd : \A j \in hd : dl[j].s <= dl[k].s}
LatestO == {k \in ho : \A j \in ho : obs[j].e <= obs[k].e}

Contact(k) ==
  /\ k \in LatestD
  /\ \A j \in ho : obs[j].e <= dl[k].s
  /\ hd' = hd \ {k}
  /\ nxt' = IF dl[k].sat \in DOMAIN nxt
            THEN [nxt EXCEPT ![dl[k].sat] =
                    {j \in @ : dl[j].s = dl[k].s} \cup {k}]
            ELSE nxt
  /\ UNCHANGED <<obs, dl, ho, pair>>

Observe(k) ==
  /\ k \in LatestO
  /\ \A j \in hd : dl[j].s < obs[k].e
  /\ ho' = ho \ {k}
  /\ pair' = [q \in DOMAIN pair \cup {k} |-> IF q = k THEN nxt[obs[k].sat] ELSE pair[q]]
  /\ UNCHANGED <<obs, dl, hd, nxt>>

LatNext == \/ \E k \in hd : Contact(k)
           \/ \E k \in ho : Observe(k)
\* one representative order, used when validating traces
LatNextOrdered == \/ LatestD # {} /\ Contact(SetMin(LatestD))
                  \/ LatestO # {} /\ Observe(SetMin(LatestO))
LatDone == ho = {}

-----------------------------------------------------------------------------
Later(k) == {j \in DOMAIN dl : dl[j].sat = obs[k].sat /\ dl[j].s >= obs[k].e}
First(k) == {j \in Later(k) : \A i \in Later(k) : dl[j].s <= dl[i].s}

LatencyCorrect == LatDone => \A k \in DOMAIN obs : pair[k] = First(k)

\* rows: [id, sat, ins, p, x, y, alt, az, ob, st, dn, lat], in reported order
LatFailing(rows) ==
  LET ids == {rows[r].id : r \in DOMAIN rows}
      row(k) == rows[CHOOSE r \in DOMAIN rows : rows[r].id = obs[k].id]
      hit == {k \in DOMAIN obs : obs[k].id \in ids}
  IN IF obs = <<>> \/ dl = <<>> THEN Clause(rows = <<>>, "empty_input")
     ELSE Clause(ids = {obs[k].id : k \in DOMAIN obs}, "observations")
     \cup Clause(Len(rows) = Len(obs), "one_row_per_observation")
     \cup Clause(\A k \in hit : row(k).ob = obs[k].ep, "observed")
     \cup Clause(\A k \in hit :
            LET r == row(k) IN
            IF pair[k] = {} THEN r.st = "" /\ r.dn = NA /\ r.lat = NA
            ELSE \E j \in pair[k] : r.st = dl[j].st /\ r.dn = dl[j].ep, "next_downlink")
     \cup Clause(\A k \in hit : LET r == row(k) IN r.dn # NA => r.lat = r.dn - r.ob, "latency")
     \cup Clause(\A k \in hit : LET r == row(k) IN
            <<r.sat, r.ins, r.p, r.x, r.y, r.z, r.alt, r.az>> =
            <<obs[k].sat, obs[k].ins, obs[k].p, obs[k].x, obs[k].y, obs[k].z, obs[k].alt, obs[k].az>>, "attributes")
     \cup Clause(\A a, b \in DOMAIN rows : a < b => rows[a].ob <= rows[b].ob, "order")
=============================================================================
