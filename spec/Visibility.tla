----------------------------- MODULE Visibility -----------------------------
(* Visible periods of targets inside an analysis window (C01, C02).          *)
(*                                                                           *)
(* trans[g] is the time-ordered sequence of transitions [t, k] of target g   *)
(* with k = "rise" or "set" (alternating) over a horizon that contains the   *)
(* window [t0, t1).  The machine sweeps the transitions of one target after  *)
(* the other, keeping the start of the period in progress.                   *)
EXTENDS Common

VARIABLES t0, t1, trans, g, i, open, out

vvars == <<t0, t1, trans, g, i, open, out>>

FirstUp(tr) == tr # <<>> /\ tr[1].k = "set"
VisInit(a, b, T) ==
  /\ t0 = a /\ t1 = b /\ trans = T
  /\ g = 1 /\ i = 1
  /\ open = IF T # <<>> /\ FirstUp(T[1]) THEN a ELSE NA
  /\ out = <<>>

Cur == trans[g][i]
Active == g <= Len(trans)
More == Active /\ i <= Len(trans[g])

\* a transition at or before the start of the window
Before ==
  /\ More /\ Cur.t <= t0
  /\ open' = IF Cur.k = "rise" THEN t0 ELSE NA
  /\ i' = i + 1
  /\ UNCHANGED <<t0, t1, trans, g, out>>
Rise ==
  /\ More /\ t0 < Cur.t /\ Cur.t < t1 /\ Cur.k = "rise"
  /\ open' = Cur.t
  /\ i' = i + 1
  /\ UNCHANGED <<t0, t1, trans, g, out>>
Set ==
  /\ More /\ t0 < Cur.t /\ Cur.t < t1 /\ Cur.k = "set"
  /\ out' = Append(out, [g |-> g, s |-> open, e |-> Cur.t])
  /\ open' = NA
  /\ i' = i + 1
  /\ UNCHANGED <<t0, t1, trans, g>>
\* the window ends: a period in progress is clipped to it
Finish ==
  /\ Active
  /\ IF More THEN Cur.t >= t1 /\ Cur.t > t0 ELSE TRUE
  /\ out' = IF open # NA /\ t0 < t1 THEN Append(out, [g |-> g, s |-> open, e |-> t1]) ELSE out
  /\ g' = g + 1
  /\ i' = 1
  /\ open' = IF g < Len(trans) /\ FirstUp(trans[g + 1]) THEN t0 ELSE NA
  /\ UNCHANGED <<t0, t1, trans>>

VisNext == Before \/ Rise \/ Set \/ Finish
VisDone == ~Active

\* a period that is the whole window, with no transition within tol of its ends:
\* its length is known exactly
WholeWindow(h, p, tol) == p.s = t0 /\ p.e = t1 /\ \A j \in DOMAIN trans[h] :
                            trans[h][j].t < t0 - tol \/ trans[h][j].t > t1 + tol

-----------------------------------------------------------------------------
\* target h is visible at instant u: the last transition at or before u is a rise
VisibleAt(h, u) ==
  LET tr == trans[h]
      P == {j \in DOMAIN tr : tr[j].t <= u}
  IN IF P = {} THEN FirstUp(tr) ELSE tr[SetMax(P)].k = "rise"

InOut(h, u) == \E j \in DOMAIN out : out[j].g = h /\ out[j].s <= u /\ u < out[j].e

\* the reported periods cover exactly the visible instants of the window,
\* are non-empty, and are separated (maximal)
VisibilityCorrect ==
  VisDone =>
    /\ \A h \in DOMAIN trans : \A u \in t0..(t1 - 1) : InOut(h, u) = VisibleAt(h, u)
    /\ \A j \in DOMAIN out : t0 <= out[j].s /\ out[j].s < out[j].e /\ out[j].e <= t1
    /\ \A j, k \in DOMAIN out :
         (j # k /\ out[j].g = out[k].g) => (out[j].e < out[k].s \/ out[k].e < out[j].s)
=============================================================================
