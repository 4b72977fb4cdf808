------------------------------ MODULE MultiSet ------------------------------
(* Orbits with several element sets (C15).  Time moves through a window; the *)
(* set in use is always one whose epoch is closest.                          *)
EXTENDS Common

VARIABLES eps, win, now, cur, parts
svars == <<eps, win, now, cur, parts>>

Closest(es, t) == {i \in DOMAIN es : \A j \in DOMAIN es : Abs(t - es[i]) <= Abs(t - es[j])}
\* ties go to the later set
Pick(es, t) == SetMax(Closest(es, t))

\* eps: epochs in order; times are even numbers so that midpoints are integers
SetInit(es, a, b) == eps = es /\ win = <<a, b>> /\ now = a /\ cur = Pick(es, a) /\ parts = <<[from |-> a, set |-> Pick(es, a)]>>
Tick == /\ now < win[2]
        /\ now' = now + 1
        /\ cur' = Pick(eps, now + 1)
        /\ parts' = IF Pick(eps, now + 1) = cur THEN parts ELSE Append(parts, [from |-> now + 1, set |-> Pick(eps, now + 1)])
        /\ UNCHANGED <<eps, win>>
SetDone == now = win[2]

AlwaysClosest == cur \in Closest(eps, now)
NeverBack == \A k \in DOMAIN parts : k > 1 => parts[k].set > parts[k - 1].set
\* the set changes only at the midpoints between epochs
AtMidpoints == \A k \in DOMAIN parts : k > 1 =>
  \E i \in DOMAIN eps : i > 1 /\ 2 * parts[k].from = eps[i] + eps[i - 1]

-----------------------------------------------------------------------------
(* Judgement of recorded results.  Epochs and times in whole seconds.        *)
\* rows of [t, i]: index used at t, counted from 0
ClosestFailing(es, rows) ==
  Clause(\A k \in DOMAIN rows : rows[k][2] + 1 \in DOMAIN es, "index_range")
  \cup Clause(\A k \in DOMAIN rows : rows[k][2] + 1 \in DOMAIN es => rows[k][2] + 1 \in Closest(es, rows[k][1]), "closest")
\* ts: partition times, is: labels (one per time, the last for the end)
ClosestNear(es, t, i) == \A j \in DOMAIN es : Abs(t - es[i]) <= Abs(t - es[j]) + 2
PartFailing(es, a, b, ts, is) ==
  IF Len(ts) < 2 \/ Len(is) # Len(ts) THEN {"partition_shape"} ELSE
  Clause(ts[1] = a /\ ts[Len(ts)] = b, "window_ends")
  \cup Clause(\A k \in DOMAIN ts : k > 1 => ts[k - 1] <= ts[k], "ordered")
  \cup Clause(\A k \in DOMAIN is : is[k] + 1 \in DOMAIN es, "label_range")
  \cup (IF \A k \in DOMAIN is : is[k] + 1 \in DOMAIN es
        THEN Clause(\A k \in 1..(Len(ts) - 1) : ClosestNear(es, ts[k], is[k] + 1) /\ ClosestNear(es, ts[k + 1], is[k] + 1), "part_label")
             \cup Clause(ClosestNear(es, ts[Len(ts)], is[Len(is)] + 1), "end_label")
        ELSE {})
\* recorded events against those of the parts: sequences of <<ms, code>>
SameEvents(got, want) ==
  Len(got) = Len(want) /\ \A k \in DOMAIN got : got[k][2] = want[k][2] /\ Abs(got[k][1] - want[k][1]) <= 1500
=============================================================================
