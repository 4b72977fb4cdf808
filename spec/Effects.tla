------------------------------- MODULE Effects ------------------------------
(* Settings in effect (C28).  act maps every setting to one of two levels; a *)
(* caller changes single settings or replaces the whole configuration, and   *)
(* calls an operation that reads one setting, either stating the level it    *)
(* wants or leaving it to the active configuration.  Operations that may     *)
(* reuse an earlier result (lazy ones) keep a cached one per setting.        *)
EXTENDS Common
CONSTANTS Settings, MaxOps
VARIABLES act, cache, last, steps
evars == <<act, cache, last, steps>>
Levels == {1, 2}
EInit == act = [s \in Settings |-> 1] /\ cache = [s \in Settings |-> 0] /\ last = <<"none">> /\ steps = 0
SetOne(s, v) == act' = [act EXCEPT ![s] = v] /\ last' = <<"set", s>> /\ UNCHANGED cache
Replace(f) == act' = f /\ last' = <<"replace">> /\ UNCHANGED cache
\* an explicit argument takes precedence for that call only
InForce(a, s, x) == IF x = 0 THEN a[s] ELSE x
Call(s, x) == last' = <<"call", s, x, InForce(act, s, x)>> /\ cache' = [cache EXCEPT ![s] = InForce(act, s, x)] /\ UNCHANGED act
ENext == /\ steps < MaxOps /\ steps' = steps + 1
         /\ (\E s \in Settings : \E v \in Levels : SetOne(s, v)) \/ (\E f \in [Settings -> Levels] : Replace(f))
            \/ (\E s \in Settings : \E x \in 0..2 : Call(s, x))
\* a call left to the configuration uses what is active when it is made
LateBinding == last[1] = "call" => last[4] = IF last[3] = 0 THEN act[last[2]] ELSE last[3]
CallsDoNotConfigure == [][last'[1] = "call" => act' = act]_evars
OthersUntouched == [][\A s \in Settings : last' = <<"set", s>> => \A u \in Settings \ {s} : act'[u] = act[u]]_evars

-----------------------------------------------------------------------------
(* Recorded histories.  ops[k] is [op |-> "set", s, v], [op |-> "replace", f] *)
(* (a level per setting) or [op |-> "call", s, x, got, exp, tol] with exp     *)
(* the values the operation yields when each level is stated; got under x.    *)
RECURSIVE LevelsAt(_, _, _)
LevelsAt(ops, k, a) == IF k = 0 THEN a
  ELSE LET b == LevelsAt(ops, k - 1, a) IN
       IF ops[k].op = "set" THEN [b EXCEPT ![ops[k].s] = ops[k].v] ELSE IF ops[k].op = "replace" THEN ops[k].f ELSE b
EffectFailing(q, o) ==
  UNION {LET p == o.ops[k]  a == LevelsAt(o.ops, k, q.start) IN
         IF p.op # "call" THEN {}
         ELSE Clause(Near(p.got, p.exp[InForce(a, p.s, p.x)], p.tol), q.names[p.s])
       : k \in DOMAIN o.ops}
  \cup Clause(\A s \in DOMAIN q.start : LevelsAt(o.ops, Len(o.ops), q.start)[s] = o.final[s], "settings_changed_by_calls")
=============================================================================
