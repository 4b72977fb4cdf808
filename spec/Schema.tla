------------------------------- MODULE Schema -------------------------------
(* Mission definitions (C30).  A definition is a kind and values of its      *)
(* settings, each given inside its range ("in", one of several values),      *)
(* outside ("low", "high"), of another type, or not given; some settings are *)
(* required.  It is accepted or rejected, and an accepted definition is      *)
(* carried through the forms object, dictionary and JSON text.               *)
EXTENDS Common
VARIABLES kind, given, form, state
hvars == <<kind, given, form, state>>
Classes == {"in1", "in2", "low", "high", "type", "none"}
Inside(c) == c \in {"in1", "in2"}
\* settings 1 and 2 are required, 3 has a default (in1)
Required == {1, 2}
Kinds == 1..3
\* which classes a setting of a kind can have: 3 has no upper bound in kind 2
CanBe(kd, k, c) == ~(kd = 2 /\ k = 3 /\ c = "high")
Accepted(f) == \A k \in 1..3 : Inside(f[k]) \/ (f[k] = "none" /\ k \notin Required)
Loaded(f) == [k \in 1..3 |-> IF f[k] = "none" THEN "in1" ELSE f[k]]
DefInit == kind \in Kinds /\ given \in [1..3 -> Classes] /\ (\A k \in 1..3 : CanBe(kind, k, given[k])) /\ form = "input" /\ state = <<"none">>
Define == form = "input" /\ state' = (IF Accepted(given) THEN <<"ok", kind, Loaded(given)>> ELSE <<"rejected">>) /\ form' = "object" /\ UNCHANGED <<kind, given>>
Dump == form = "object" /\ state[1] = "ok" /\ form' \in {"dict", "json"} /\ UNCHANGED <<kind, given, state>>
Load == form \in {"dict", "json"} /\ form' = "object" /\ state' = <<"ok", state[2], Loaded(state[3])>> /\ UNCHANGED <<kind, given>>
DefNext == Define \/ Dump \/ Load

RejectedExactly == (form = "object" /\ state[1] = "rejected") => \E k \in 1..3 : given[k] \in {"low", "high", "type"} \/ (given[k] = "none" /\ k \in Required)
AcceptedExactly == (state[1] = "ok") => \A k \in 1..3 : (given[k] # "none" => state[3][k] = given[k]) /\ Inside(state[3][k])
KindKept == state[1] = "ok" => state[2] = kind
RoundTrip == [][(form \in {"dict", "json"} /\ form' = "object") => state' = state]_hvars

-----------------------------------------------------------------------------
(* Recorded definitions: f per setting [name, given ("in", "out", "none"),   *)
(* need, want, dflt] with values written as text ("?" is any).               *)
DefineFailing(q, o) ==
  LET bad == (\E k \in DOMAIN q.f : q.f[k].given = "out" \/ (q.f[k].given = "none" /\ q.f[k].need)) \/ q.cross IN
  Clause(o.outcome \in {"accepted", "rejected"}, "another_exception")
  \cup Clause(bad => o.outcome # "accepted", "accepted_invalid")
  \cup Clause(~bad => o.outcome # "rejected", "rejected_valid")
  \cup (IF bad \/ o.outcome # "accepted" THEN {}
        ELSE Clause(o.kind = q.kind, "kind")
             \cup UNION {Clause(LET w == IF q.f[k].given = "in" THEN q.f[k].want ELSE q.f[k].dflt IN w = "?" \/ o.got[k] = w, q.f[k].name) : k \in DOMAIN q.f})
\* recorded round trips through one form
TripFailing(q, o) ==
  Clause(o.kinds = q.kinds, "same_kinds")
  \cup Clause(o.values = q.values, "same_values")
  \cup Clause(o.equal, "equal")
  \cup Clause(o.members = q.members, "same_members")
  \cup Clause(q.kinds = q.built, "built_kinds")
=============================================================================
