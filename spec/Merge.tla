------------------------------- MODULE Merge -------------------------------
(* Union of the observations of several members (C03) or transmitters (C27): *)
(* a k-way merge by start of parts that are each a sequence of [s, sig].     *)
EXTENDS Common

VARIABLES parts, pos, merged
mvars == <<parts, pos, merged>>

\* the parts are taken as sorted by start
MergeInit(P) ==
  /\ parts = [k \in DOMAIN P |-> SortBy(P[k], LAMBDA r : r.s)]
  /\ pos = [k \in DOMAIN P |-> 1]
  /\ merged = <<>>
Left == {k \in DOMAIN parts : pos[k] <= Len(parts[k])}
Head_(k) == parts[k][pos[k]]
Take(k) ==
  /\ k \in Left
  /\ \A j \in Left : Head_(k).s <= Head_(j).s
  /\ merged' = Append(merged, Head_(k))
  /\ pos' = [pos EXCEPT ![k] = @ + 1]
  /\ UNCHANGED parts
MergeNext == \E k \in Left : Take(k)
MergeNextOrdered == Left # {} /\ Take(CHOOSE k \in Left : \A j \in Left : Head_(k).s < Head_(j).s \/ (Head_(k).s = Head_(j).s /\ k <= j))
MergeDone == Left = {}

RECURSIVE Concat(_)
Concat(P) == IF P = <<>> THEN <<>> ELSE Head(P) \o Concat(Tail(P))

MergeCorrect ==
  MergeDone => /\ SamePerm(merged, Concat(parts))
               /\ \A a, b \in DOMAIN merged : a < b => merged[a].s <= merged[b].s

MergeFailing(rows) ==
  Clause(Len(rows) = Len(merged), "count")
  \cup Clause(\A x \in Range(merged) : Count(rows, x) >= Count(merged, x), "lost_or_altered")
  \cup Clause(\A x \in Range(rows) : Count(rows, x) <= Count(merged, x), "extra_or_duplicated")
  \cup Clause(\A k \in 1..(Len(rows) - 1) : rows[k].s <= rows[k + 1].s, "order")
=============================================================================
