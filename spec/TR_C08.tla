------------------------------- MODULE TR_C08 -------------------------------
(* Validates recorded Walker, streets-of-coverage and rejected definitions.  *)
EXTENDS Constellation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
tvars == <<cvars, l, done>>
K(n) == Trace[n].kind
\* rejected definitions have no members to place; neither have mere sizes of patterns
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\
  IF K(n) \in {"define", "size"} THEN ConInit([kind |-> "none", t |-> 0, p |-> 1, f |-> 0, star |-> FALSE])
  ELSE ConInit([kind |-> "walker", t |-> Trace[n].in.par.t, p |-> Trace[n].in.par.p,
                f |-> Trace[n].in.par.f, star |-> Trace[n].in.par.star])
\* streets of coverage: spacing (millionths of a degree) allowed between
\* satellites of a plane (gf) and between planes (gp), and no more than needed
Enough(n, g) == n * g >= 360000000 - n
Needed(n, g) == (n - 1) * g < 360000000 + n
SocFailing(q) ==
  Clause(q.par.t = q.par.p * Ceil(q.par.t, q.par.p), "full_planes")
  \cup Clause(Enough(Ceil(q.par.t, q.par.p), q.gf), "satellite_spacing")
  \cup Clause(Enough(q.par.p, q.gp), "plane_spacing")
  \cup Clause(Needed(Ceil(q.par.t, q.par.p), q.gf) /\ Needed(q.par.p, q.gp), "pattern_size")
  \cup Clause(~q.par.star, "delta")
Failing == LET o == Trace[l].out
               q == Trace[l].in IN
  IF o.status = "ok" /\ K(l) # "define"
  THEN (IF K(l) = "size" THEN {} ELSE MembersFailing(q, o.members)) \cup (IF K(l) \in {"soc", "size"} THEN SocFailing(q) ELSE {})
  ELSE IF K(l) = "define"
  THEN Clause((o.status = "ok") = Valid(q), IF Valid(q) THEN "valid_rejected" ELSE "invalid_accepted")
       \cup Clause(o.status \in {"ok", "raise:ValidationError"}, o.status)
  ELSE {o.status}
TraceNext ==
  \/ ConNext /\ UNCHANGED <<l, done>>
  \/ ConDone /\ ~done /\ Verdict(l, Failing) /\ done' = TRUE /\ UNCHANGED <<cvars, l>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
