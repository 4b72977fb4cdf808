------------------------------ MODULE Downlink ------------------------------
(* Downlink contacts (C01): visible periods kept when long enough.           *)
EXTENDS Visibility

CONSTANTS TOL,     \* resolution (ms) of the event search
          GRAZE    \* passes shorter than this may be missed by the search

Len_(p) == p.e - p.s
\* the unclipped length of the pass a period belongs to is at least GRAZE
Grazing(h, p) ==
  LET tr == trans[h]
      R == {j \in DOMAIN tr : tr[j].k = "rise" /\ tr[j].t <= p.s + TOL}
      S == {j \in DOMAIN tr : tr[j].k = "set" /\ tr[j].t >= p.e - TOL}
  IN R # {} /\ S # {} /\ tr[SetMin(S)].t - tr[SetMax(R)].t < GRAZE

Slack(h, p) == IF WholeWindow(h, p, TOL) THEN 0 ELSE 2 * TOL
Must(h, p, minacc) == Len_(p) >= minacc + Slack(h, p) /\ Len_(p) >= Slack(h, p) /\ ~Grazing(h, p)
May(h, p, minacc)  == Len_(p) >= minacc - Slack(h, p)

Same(r, p) == Abs(r.s - p.s) <= TOL /\ Abs(r.e - p.e) <= TOL

\* st: sequence of stations [name, x, y, minacc]; rows: [st, sat, x, y, s, e, ep]
DlFailing(st, sat, rows) ==
  LET at(h, r) == st[h].name = r.st /\ st[h].x = r.x /\ st[h].y = r.y /\ st[h].z = r.z
      named == {k \in DOMAIN rows : \E h \in DOMAIN st : st[h].name = rows[k].st}
      known == {k \in named : \E h \in DOMAIN st : at(h, rows[k])}
      stOf(r) == CHOOSE h \in DOMAIN st : at(h, r)
      cand(k) == {j \in DOMAIN out : out[j].g = stOf(rows[k]) /\ Same(rows[k], out[j])
                                     /\ May(out[j].g, out[j], st[out[j].g].minacc)}
  IN Clause(named = DOMAIN rows, "station")
     \cup Clause(known = named, "geometry")
     \cup Clause(\A k \in DOMAIN rows : rows[k].sat = sat, "satellite")
     \cup Clause(\A k \in known : cand(k) # {}, "no_other_contact")
     \cup Clause(\A k, j \in known : (k # j /\ stOf(rows[k]) = stOf(rows[j])) =>
                   (rows[k].e <= rows[j].s \/ rows[j].e <= rows[k].s), "disjoint")
     \cup Clause(\A j \in DOMAIN out : Must(out[j].g, out[j], st[out[j].g].minacc) =>
                   Cardinality({k \in known : j \in cand(k)}) = 1, "no_missing_contact")
     \cup Clause(\A k \in DOMAIN rows : t0 <= rows[k].s /\ rows[k].s < rows[k].e /\ rows[k].e <= t1, "inside_window")
     \cup Clause(\A k \in known : rows[k].e - rows[k].s >= st[stOf(rows[k])].minacc - (IF rows[k].s = t0 /\ rows[k].e = t1 THEN 0 ELSE 1), "minimum_access")
     \cup Clause(\A k \in DOMAIN rows : Abs(2 * (rows[k].ep - rows[k].s) - (rows[k].e - rows[k].s)) <= 4, "epoch_middle")
     \cup Clause(\A k, j \in DOMAIN rows : k < j => rows[k].s <= rows[j].s, "order")
=============================================================================
