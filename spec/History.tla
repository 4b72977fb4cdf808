------------------------------ MODULE History -------------------------------
(* Histories of calls over shared objects (C29).  A world is a set of        *)
(* objects with values and a configuration.  A plain call reads an object; a *)
(* lazy call computes a value of an object once and keeps it with the object *)
(* (the documented lazily loaded element set, epochs and repeat cycle); the  *)
(* caller may spoil an object it was handed as a result, or change the       *)
(* configuration.  A call hands out a fresh object, never one kept or given. *)
EXTENDS Common
CONSTANTS Objs, Depth
VARIABLES value, conf, kept, log
cvars == <<value, conf, kept, log>>
Value0(x) == x
\* what a call of kind f on a value under a configuration denotes
Plain(v, c) == 100 * v + 10 * c
Lazy(v) == 1000 * v
Denotes(f, x, c) == IF f = "plain" THEN Plain(Value0(x), c) ELSE Lazy(Value0(x))
HistInit == value = [x \in Objs |-> Value0(x)] /\ conf = 0 /\ kept = [x \in Objs |-> NA] /\ log = <<>>
\* a result is the content of a new cell; log keeps the call and what it returned
Call(x) == /\ log' = Append(log, [f |-> "plain", x |-> x, c |-> conf, r |-> Plain(value[x], conf), spoilt |-> FALSE])
           /\ UNCHANGED <<value, conf, kept>>
CallLazy(x) == LET v == IF kept[x] = NA THEN Lazy(value[x]) ELSE kept[x] IN
           /\ log' = Append(log, [f |-> "lazy", x |-> x, c |-> conf, r |-> v, spoilt |-> FALSE])
           /\ kept' = [kept EXCEPT ![x] = v]
           /\ UNCHANGED <<value, conf>>
Spoil == /\ log # <<>> /\ ~log[Len(log)].spoilt
         /\ log' = [log EXCEPT ![Len(log)].spoilt = TRUE]
         /\ UNCHANGED <<value, conf, kept>>
SetConf == conf' = 1 - conf /\ UNCHANGED <<value, kept, log>>
HistNext == Len(log) < Depth /\ ((\E x \in Objs : Call(x) \/ CallLazy(x)) \/ Spoil \/ SetConf)

SameResult == \A k \in DOMAIN log : log[k].r = Denotes(log[k].f, log[k].x, log[k].c)
ArgumentsKept == value = [x \in Objs |-> Value0(x)]
KeptSound == \A x \in Objs : kept[x] \in {NA, Lazy(Value0(x))}
\* what is kept is only ever added
KeptStable == [][\A x \in Objs : kept[x] # NA => kept'[x] = kept[x]]_cvars
\* any two calls of the same kind on the same object under the same configuration agree
Agree == \A j, k \in DOMAIN log : (log[j].f = log[k].f /\ log[j].x = log[k].x /\ log[j].c = log[k].c) => log[j].r = log[k].r

-----------------------------------------------------------------------------
(* Recorded calls: q.want is what the call returns in a new process on newly *)
(* built objects under the same configuration, o.got what it returned in     *)
(* this history, o.changed the objects of the world whose value it changed,  *)
(* o.earlier those results handed out before that it changed.                *)
CallFailing(q, o) ==
  Clause(o.got = q.want, "other_result")
  \cup Clause(o.changed = <<>>, "changed_argument")
  \cup Clause(o.earlier = <<>>, "changed_result")
\* recorded members: pairs of owners that share a mutable object, and which
\* other owners changed when one was changed
AliasFailing(q, o) ==
  Clause(o.shared = <<>>, "shared_state")
  \cup Clause(o.touched = <<>>, "changed_together")
\* recorded comparisons of two definitions of equal fields, used differently before
EqualFailing(q, o) == Clause(o.equal = q.equal, "compare")
=============================================================================
