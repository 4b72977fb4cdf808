------------------------------- MODULE Repeat -------------------------------
(* Repeat cycles (C16): one orbit object, its cached cycle, the settings and *)
(* the folding of tracks and events.  Times in milliseconds from the epoch   *)
(* of the elements.                                                          *)
EXTENDS Common

VARIABLES cyc, cache, lazy, trk, evt, hist
rvars == <<cyc, cache, lazy, trk, evt, hist>>

Unset == NA
\* cyc: function from tolerance setting to true cycle (0: none)
RepInit(c) == cyc = c /\ cache = Unset /\ lazy = TRUE /\ trk = TRUE /\ evt = TRUE /\ hist = <<>>

\* asking for the cycle under tolerance w, lz in {"yes", "no", "default"}
Lazy(lz) == IF lz = "default" THEN lazy ELSE lz = "yes"
CycleAsked(w, lz) == IF Lazy(lz) /\ cache # Unset THEN cache ELSE cyc[w]
AskCycle(w, lz) == /\ cache' = CycleAsked(w, lz)
                   /\ hist' = Append(hist, <<"cycle", w, lz>>)
                   /\ UNCHANGED <<cyc, lazy, trk, evt>>
Settings(a, b, c) == lazy' = a /\ trk' = b /\ evt' = c /\ hist' = Append(hist, <<"set", a, b, c>>) /\ UNCHANGED <<cyc, cache>>
\* try: "yes", "no" or "default" for the use of the cycle
Uses(try, dflt) == IF try = "default" THEN dflt ELSE try = "yes"
Track(try) == /\ cache' = IF Uses(try, trk) THEN CycleAsked("wide", "default") ELSE cache
              /\ hist' = Append(hist, <<"track", try>>) /\ UNCHANGED <<cyc, lazy, trk, evt>>
Events(try) == /\ cache' = IF Uses(try, evt) THEN CycleAsked("wide", "default") ELSE cache
               /\ hist' = Append(hist, <<"events", try>>) /\ UNCHANGED <<cyc, lazy, trk, evt>>

\* The first return: candidates are the culminations over the initial ground
\* point, <<time, elevation, distance, speed difference>> in time order; a return is a
\* candidate at least el high, strictly within the tolerances, inside the search.
FirstReturn(cands, el, dp, dv, dur) ==
  LET ok == {k \in DOMAIN cands : cands[k][1] <= dur /\ cands[k][2] >= el /\ cands[k][3] < dp /\ cands[k][4] < dv}
  IN IF ok = {} THEN 0 ELSE cands[CHOOSE k \in ok : \A j \in ok : k <= j][1]

\* the cached value is always a true cycle of some tolerance asked for
CacheTrue == cache \in {Unset} \cup {cyc[w] : w \in DOMAIN cyc}
LazyOnly == \A w \in DOMAIN cyc : CycleAsked(w, "no") = cyc[w]

-----------------------------------------------------------------------------
SignOf(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Fold(off, c) == IF c = 0 THEN off ELSE SignOf(off) * (Abs(off) % c)
\* folding keeps the side, stays inside a cycle, moves by whole cycles
FoldMeaning(off, c) == c > 0 =>
  /\ Abs(Fold(off, c)) < c /\ Abs(Fold(off, c)) <= Abs(off)
  /\ (off - Fold(off, c)) % c = 0
  /\ (Fold(off, c) = 0 \/ SignOf(Fold(off, c)) = SignOf(off))

\* events of the first cycle repeated until the end of the window; first is a
\* sequence of <<time, code>>
RECURSIVE Unroll(_, _, _, _)
Unroll(first, c, a, b) ==
  IF a > b THEN <<>>
  ELSE SelectSeq(first, LAMBDA e : e[1] <= b)
       \o Unroll([k \in DOMAIN first |-> <<first[k][1] + c, first[k][2]>>], c, a + c, b)
InOrder(es) == \A k \in DOMAIN es : k > 1 => es[k - 1][1] <= es[k][1]
\* an event lies within slack of the end of the window, where rounding decides
NearEnd(first, c, a, b) == \E k \in DOMAIN first : LET d == (b - first[k][1]) % c IN d < 60 \/ c - d < 60
SameEvents(got, want) ==
  Len(got) = Len(want) /\ \A k \in DOMAIN got : got[k][2] = want[k][2] /\ Abs(got[k][1] - want[k][1]) <= 60
=============================================================================
