------------------------------- MODULE MC_C16 -------------------------------
EXTENDS Repeat, Json, IOUtils
CONSTANTS DEPTH
Tri == {"yes", "no", "default"}
MCInit == \E a \in {0, 7}, b \in {0, 7} : RepInit([wide |-> a, narrow |-> b])
MCOp == Len(hist) < DEPTH /\
  \/ \E w \in {"wide", "narrow"}, lz \in Tri : AskCycle(w, lz)
  \/ \E a, b, c \in BOOLEAN : Settings(a, b, c)
  \/ \E t \in Tri : Track(t) \/ Events(t)
FoldSound == \A off \in -25..25 : FoldMeaning(off, 7)
UnrollSound == \A es \in {<<>>, <<<<1, 0>>, <<2, 1>>, <<4, 2>>>>, <<<<0, 2>>, <<6, 0>>>>} : \A b \in 8..20 :
  LET u == Unroll(es, 7, 0, b) IN
  /\ InOrder(u) /\ \A k \in DOMAIN u : u[k][1] <= b
  /\ \A e \in Range(es), j \in 0..2 : (e[1] + 7 * j <= b) => <<e[1] + 7 * j, e[2]>> \in Range(u)
  /\ \A x \in Range(u) : \E e \in Range(es) : x[2] = e[2] /\ (x[1] - e[1]) % 7 = 0
Cand == {<<t, e, p, v>> : t \in {3, 5}, e \in {1, 2}, p \in {1, 3}, v \in {1, 3}}
\* a wider search never finds a later return, and what it finds qualifies
ReturnSound == \A a, b \in Cand : a[1] < b[1] =>
  \A el \in 1..3, dp, dv \in {1, 2, 4}, dur \in 2..6 :
    LET f(x, y, z, d) == FirstReturn(<<a, b>>, x, y, z, d)
        r == f(el, dp, dv, dur) IN
    /\ r # 0 => \E c \in {a, b} : c[1] = r /\ r <= dur /\ c[2] >= el /\ c[3] < dp /\ c[4] < dv
    /\ r # 0 => f(el - 1, dp + 1, dv + 1, dur + 1) \in 1..r
    /\ r = 0 => ~\E c \in {a, b} : c[1] <= dur /\ c[2] >= el /\ c[3] < dp /\ c[4] < dv
ASSUME ReturnSound
MCFinish == /\ Len(hist) = DEPTH /\ IOEnv.EXPORT = "1" /\ cyc = [wide |-> 7, narrow |-> 0]
            /\ \E k \in DOMAIN hist : hist[k][1] \in {"track", "events"}
            /\ PrintT("CASE " \o ToJson(hist))
            /\ FALSE /\ UNCHANGED rvars
MCNext == MCOp \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_rvars
=============================================================================
