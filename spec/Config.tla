------------------------------- MODULE Config -------------------------------
(* Configuration files (C28).  A file is absent, broken, a document that is  *)
(* not a mapping, or a mapping from settings to values; settings are of the  *)
(* kinds "int", "float" and "bool".  Value classes: "none" (not given),      *)
(* "default", "other" (another allowed value), "range" (outside its range),  *)
(* "type" (of another type).  active is the configuration in use.            *)
EXTENDS Common
VARIABLES doc, vals, active, result
cvars == <<doc, vals, active, result>>
Kinds == <<"int", "float", "bool">>
Values == {"none", "default", "other", "range", "type"}
Allowed(v) == v \in {"none", "default", "other"}
Effective(v) == IF v = "other" THEN "other" ELSE "default"
Builtin == [k \in 1..3 |-> "default"]
ConfInit == doc = "absent" /\ vals = [k \in 1..3 |-> "none"] /\ active = Builtin /\ result = <<"nothing">>
Write(d) == doc' = d /\ result' = <<"nothing">> /\ UNCHANGED <<vals, active>>
Give(k, v) == /\ doc = "mapping" /\ (Kinds[k] = "bool" => v # "range") /\ vals' = [vals EXCEPT ![k] = v] /\ result' = <<"nothing">>
              /\ UNCHANGED <<doc, active>>
Outcome(d, f) == IF d = "mapping" /\ \A k \in 1..3 : Allowed(f[k]) THEN <<"loaded", [k \in 1..3 |-> Effective(f[k])]>> ELSE <<"error">>
Load == result' = Outcome(doc, vals) /\ UNCHANGED <<doc, vals, active>>
Use == result[1] = "loaded" /\ active' = result[2] /\ UNCHANGED <<doc, vals, result>>
ConfNext == (\E d \in {"absent", "broken", "list", "mapping"} : Write(d)) \/ (\E k \in 1..3 : \E v \in Values : Give(k, v)) \/ Load \/ Use

Exact == result[1] = "loaded" => \A k \in 1..3 : (vals[k] = "none" => result[2][k] = "default") /\ (vals[k] # "none" => result[2][k] = vals[k])
ErrorsOnly == (result[1] = "error") => (doc # "mapping" \/ \E k \in 1..3 : vals[k] \in {"range", "type"})
\* only using a configuration changes the active one
LoadingIsPure == [][(active' # active) => (result[1] = "loaded" /\ active' = result[2])]_cvars

-----------------------------------------------------------------------------
(* Recorded loads.  f: per setting [given, ok ("yes", "no", or "either" for  *)
(* a value of another type that denotes an allowed one), want, dflt]; values *)
(* are scaled integers.                                                      *)
LoadFailing(q, o) ==
  LET bad == q.doc # "mapping" \/ \E k \in DOMAIN q.f : q.f[k].given /\ q.f[k].ok = "no"
      perhaps == \E k \in DOMAIN q.f : q.f[k].given /\ q.f[k].ok = "either" IN
  Clause(o.outcome \in {"loaded", "error"}, "another_exception")
  \cup Clause(bad => o.outcome = "error", "accepted")
  \cup Clause((~bad /\ ~perhaps) => o.outcome = "loaded", "rejected")
  \cup (IF o.outcome # "loaded" \/ bad THEN {}
        ELSE UNION {Clause(o.got[k] = (IF q.f[k].given THEN q.f[k].want ELSE q.f[k].dflt), q.f[k].name) : k \in DOMAIN q.f})
  \cup Clause(o.active, "active_configuration_changed")
  \cup Clause(o.again, "loads_share_state")
=============================================================================
