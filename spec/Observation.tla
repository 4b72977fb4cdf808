---------------------------- MODULE Observation ----------------------------
(* Observations of a point (C02): visible periods that meet every            *)
(* requirement of the instrument at their middle.                            *)
EXTENDS Visibility

CONSTANTS TOL, GRAZE

\* ins: [name, minacc, fixed, self, target, pointed]; requirements are
\* "none", "lit" or "dark".  cond[j]: conditions at the middle of period j,
\* [self, target, foot] each "lit"/"dark" resp. "in"/"out", or "amb" when the
\* condition changes within the resolution of the search.
Meets(req, c) == IF req = "none" THEN "yes" ELSE IF c = "amb" THEN "amb" ELSE IF c = req THEN "yes" ELSE "no"
Verdicts(ins, c) == {Meets(ins.self, c.self), Meets(ins.target, c.target),
                     IF ~ins.pointed THEN "yes" ELSE IF c.foot = "in" THEN "yes" ELSE IF c.foot = "out" THEN "no" ELSE "amb"}
Length(p) == p.e - p.s
Grazing(p) ==
  LET tr == trans[1]
      R == {j \in DOMAIN tr : tr[j].k = "rise" /\ tr[j].t <= p.s + TOL}
      S == {j \in DOMAIN tr : tr[j].k = "set" /\ tr[j].t >= p.e - TOL}
  IN R # {} /\ S # {} /\ tr[SetMin(S)].t - tr[SetMax(R)].t < GRAZE
Slack(p) == IF WholeWindow(1, p, TOL) THEN 0 ELSE 2 * TOL
Must(ins, p, c) == /\ Length(p) >= ins.minacc + Slack(p) /\ Length(p) >= Slack(p) /\ ~Grazing(p)
                   /\ Verdicts(ins, c) = {"yes"}
May(ins, p, c) == Length(p) >= ins.minacc - Slack(p) /\ "no" \notin Verdicts(ins, c)

\* rows: [p, x, y, sat, ins, s, e, ep, cmp] with cmp a sequence of
\* [name, got, want, tol] of epoch attributes
Same(ins, r, p) ==
  IF ins.fixed
  THEN Abs(2 * r.ep - p.s - p.e) <= 2 * TOL
  ELSE Abs(r.s - p.s) <= TOL /\ Abs(r.e - p.e) <= TOL

ObsFailing(q, ins, cond, rows) ==
  LET cand(k) == {j \in DOMAIN out : Same(ins, rows[k], out[j]) /\ May(ins, out[j], cond[j])}
  IN Clause(Len(cond) = Len(out), "oracle")
     \cup Clause(\A k \in DOMAIN rows : cand(k) # {}, "no_other_observation")
     \cup Clause(\A j \in DOMAIN out : Must(ins, out[j], cond[j]) =>
                   Cardinality({k \in DOMAIN rows : j \in cand(k)}) = 1, "no_missing_observation")
     \cup Clause(\A k, j \in DOMAIN rows : k # j => rows[k].ep # rows[j].ep, "duplicate")
     \cup Clause(\A k \in DOMAIN rows : Abs(2 * (rows[k].ep - rows[k].s) - (rows[k].e - rows[k].s)) <= 4, "epoch_middle")
     \cup Clause(\A k \in DOMAIN rows : ins.fixed => Abs(rows[k].e - rows[k].s - ins.minacc) <= 2, "fixed_access")
     \cup Clause(\A k \in DOMAIN rows : ~ins.fixed => t0 <= rows[k].s /\ rows[k].e <= t1, "inside_window")
     \cup Clause(\A k \in DOMAIN rows : ~ins.fixed => rows[k].e - rows[k].s >= ins.minacc - (IF rows[k].s = t0 /\ rows[k].e = t1 THEN 0 ELSE 1), "minimum_access")
     \cup Clause(\A k \in DOMAIN rows :
            <<rows[k].p, rows[k].x, rows[k].y, rows[k].z, rows[k].sat, rows[k].ins>> = <<q.p, q.x, q.y, q.z, q.sat, q.ins>>, "identity")
     \cup Clause(\A k \in DOMAIN rows : {rows[k].cmp[j].name : j \in DOMAIN rows[k].cmp} = Range(q.cols), "columns")
     \cup UNION {CmpFailing(rows[k].cmp) : k \in DOMAIN rows}
=============================================================================
