------------------------------ MODULE Aggregate ------------------------------
(* Aggregation of observations (property C04).                               *)
(*                                                                           *)
(* The machine scans the observations of one point after the other in order  *)
(* of start, keeping the group in progress with its running latest end.      *)
(* An observation that starts after that end closes the group.               *)
EXTENDS Common

VARIABLES
  inp,     \* sequence of observations [p, s, e, ep, sat, ins, x, y]
  pts,     \* points not yet scanned
  todo,    \* observations of the current point, by start
  grp,     \* members of the group in progress
  out      \* emitted groups

avars == <<inp, pts, todo, grp, out>>

AggInit(obs) ==
  /\ inp = obs
  /\ pts = {obs[k].p : k \in DOMAIN obs}
  /\ todo = <<>>
  /\ grp = <<>>
  /\ out = <<>>

GStart(g) == SetMin({g[k].s : k \in DOMAIN g})
GEnd(g)   == SetMax({g[k].e : k \in DOMAIN g})

Close(g, o) ==
  LET p == g[1].p
      prev == {k \in DOMAIN o : o[k].p = p}
      s == GStart(g)
      e == GEnd(g)
  IN Append(o, [p |-> p, s |-> s, e |-> e,
                ep |-> MeanSeq([k \in DOMAIN g |-> g[k].ep]),
                mem |-> g,
                acc |-> e - s,
                rev |-> IF prev = {} THEN NA ELSE s - o[SetMax(prev)].e])

\* take the next point: its observations, ordered by start
TakePoint ==
  /\ todo = <<>> /\ grp = <<>> /\ pts # {}
  /\ LET p == SetMin(pts) IN
       /\ pts' = pts \ {p}
       /\ todo' = SortBy(SelectSeq(inp, LAMBDA o : o.p = p), LAMBDA o : o.s)
  /\ UNCHANGED <<inp, grp, out>>

\* the first observation of a point opens a group
Open ==
  /\ todo # <<>> /\ grp = <<>>
  /\ grp' = <<Head(todo)>>
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<inp, pts, out>>

\* overlapping or touching: joins the group in progress
Extend ==
  /\ todo # <<>> /\ grp # <<>> /\ Head(todo).s <= GEnd(grp)
  /\ grp' = Append(grp, Head(todo))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<inp, pts, out>>

\* a gap: emit the group in progress and open the next
Gap ==
  /\ todo # <<>> /\ grp # <<>> /\ Head(todo).s > GEnd(grp)
  /\ out' = Close(grp, out)
  /\ grp' = <<Head(todo)>>
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<inp, pts>>

\* end of the point's observations
Flush ==
  /\ todo = <<>> /\ grp # <<>>
  /\ out' = Close(grp, out)
  /\ grp' = <<>>
  /\ UNCHANGED <<inp, pts, todo>>

AggNext == TakePoint \/ Open \/ Extend \/ Gap \/ Flush
AggDone == pts = {} /\ todo = <<>> /\ grp = <<>>

-----------------------------------------------------------------------------
(* The declarative property, independent of the machine: a group is a        *)
(* connected component of the overlap-or-touch relation of one point.        *)

Touch(a, b) == a.p = b.p /\ a.s <= b.e /\ b.s <= a.e

RECURSIVE Reach(_, _, _)
Reach(obs, S, n) ==
  IF n = 0 THEN S
  ELSE Reach(obs, S \cup {k \in DOMAIN obs : \E j \in S : Touch(obs[j], obs[k])}, n - 1)

Component(obs, k) == Reach(obs, {k}, Len(obs))
Components(obs) == {Component(obs, k) : k \in DOMAIN obs}

\* rows agree with the components of obs
GroupsAreComponents(obs, rows) ==
  /\ Len(rows) = Cardinality(Components(obs))
  /\ \A C \in Components(obs) :
       \E r \in DOMAIN rows :
          /\ rows[r].p = obs[CHOOSE k \in C : TRUE].p
          /\ rows[r].s = SetMin({obs[k].s : k \in C})
          /\ rows[r].e = SetMax({obs[k].e : k \in C})

Ordered(rows) ==
  \A a, b \in DOMAIN rows : (a < b /\ rows[a].p = rows[b].p) => rows[a].e < rows[b].s

Metrics(rows) ==
  \A b \in DOMAIN rows :
    LET prev == {a \in DOMAIN rows : a < b /\ rows[a].p = rows[b].p} IN
    /\ rows[b].acc = rows[b].e - rows[b].s
    /\ rows[b].rev = IF prev = {} THEN NA ELSE rows[b].s - rows[SetMax(prev)].e

AggregateCorrect ==
  AggDone => /\ GroupsAreComponents(inp, out)
             /\ Ordered(out)
             /\ Metrics(out)

\* the joined names list the members by start; observations that start at the
\* same time may appear in either order
NamesOk(mem, names) ==
  LET want == [k \in DOMAIN mem |-> <<mem[k].sat, mem[k].ins>>]
      starts == {mem[k].s : k \in DOMAIN mem}
  IN /\ Len(names) = Len(mem)
     /\ \A s \in starts :
          LET K == {k \in DOMAIN mem : mem[k].s = s} IN
          \A x \in {want[k] : k \in K} \cup {names[k] : k \in K} :
             Cardinality({k \in K : want[k] = x}) = Cardinality({k \in K : names[k] = x})

\* comparison of the machine's result with the rows reported by the code
RowFor(rows, o) == {r \in DOMAIN rows : rows[r].p = o.p /\ rows[r].s = o.s /\ rows[r].e = o.e}

AggFailing(rows) ==
  LET m == [k \in DOMAIN out |-> RowFor(rows, out[k])]
      hit == {k \in DOMAIN out : m[k] # {}}
      row == [k \in hit |-> rows[SetMin(m[k])]]
  IN Clause(GroupsAreComponents(inp, rows), "groups")
     \cup Clause(Len(rows) = Len(out) /\ hit = DOMAIN out, "group_set")
     \cup Clause(Ordered(rows), "order")
     \cup Clause(Metrics(rows), "access_revisit")
     \cup Clause(\A k \in hit : Abs(row[k].ep - out[k].ep) <= 1, "epoch")
     \cup Clause(\A k \in hit : row[k].rev = out[k].rev, "revisit")
     \cup Clause(\A k \in hit : NamesOk(out[k].mem, row[k].names), "names")
     \cup Clause(\A k \in hit : <<row[k].x, row[k].y, row[k].z>> = <<out[k].mem[1].x, out[k].mem[1].y, out[k].mem[1].z>>, "geometry")
=============================================================================
