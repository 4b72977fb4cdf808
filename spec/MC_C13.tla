------------------------------- MODULE MC_C13 -------------------------------
(* Every single character change of two element sets, with the checksum left *)
(* or repaired, and every order of up to three sets.                         *)
EXTENDS TleFormat, Json, IOUtils
CONSTANTS CHARS, COLS
Base1 == <<<<"1", " ", "2", "5", "5", "4", "4", "U", " ", "9", "8", "0", "6", "7", "A", " ", " ", " ", "2", "2", "1", "5", "2", ".", "5", "0", "0", "0", "0", "0", "0", "0", " ", " ", ".", "0", "0", "0", "0", "3", "4", "3", "2", " ", " ", "0", "0", "0", "0", "0", "-", "0", " ", " ", "7", "0", "5", "4", "1", "-", "4", " ", "0", " ", " ", "9", "9", "9", "0">>,
          <<"2", " ", "2", "5", "5", "4", "4", " ", " ", "5", "1", ".", "6", "4", "5", "5", " ", " ", "4", "1", ".", "4", "9", "6", "9", " ", "0", "0", "0", "3", "5", "0", "8", " ", " ", "6", "8", ".", "0", "4", "3", "2", " ", " ", "7", "8", ".", "3", "3", "9", "5", " ", "1", "5", ".", "4", "8", "9", "5", "7", "5", "3", "4", "2", "8", "6", "7", "5", "4">>>>
Base2 == <<<<"1", " ", "A", "0", "0", "0", "1", "U", " ", "5", "7", "0", "0", "1", "B", "C", "D", " ", "2", "2", "1", "5", "3", ".", "0", "0", "0", "0", "8", "1", "0", "2", " ", "-", ".", "0", "0", "0", "0", "2", "1", "8", "2", " ", "+", "1", "2", "3", "4", "5", "-", "9", " ", "-", "1", "1", "6", "0", "6", "-", "4", " ", "0", " ", " ", " ", " ", "1", "9">>,
          <<"2", " ", "A", "0", "0", "0", "1", " ", " ", " ", "0", ".", "0", "0", "0", "0", " ", " ", " ", "5", ".", "2", "5", "0", "0", " ", "0", "0", "0", "1", "0", "0", "0", " ", " ", "1", "0", ".", "0", "0", "0", "0", " ", "3", "0", "0", ".", "0", "0", "0", "0", " ", "1", "5", ".", "1", "0", "0", "0", "0", "0", "0", "0", " ", " ", " ", " ", "5", "2">>>>
Bases == <<Base1, Base2>>
VARIABLES how
mcvars == <<fvars, how>>
Change(b, li, c, ch) == [Bases[b] EXCEPT ![li] = [@ EXCEPT ![c] = ch]]
Later(b, d) == [Bases[b] EXCEPT ![1] = [@ EXCEPT ![23] = ToString((Val(@) + d) % 10)]]
Repair(x) == [x EXCEPT ![69] = ToString(Sum68(x) % 10)]
Fixed(p) == <<Repair(p[1]), Repair(p[2])>>
CharsQuick == Digit \cup {" ", ".", "+", "-", "U", "I", "O", "Z", "a", "_"}
CharsThorough == CharsQuick \cup Upper
ColsAll == 1..69
MCInit ==
  \/ \E b \in 1..2, li \in 1..2, c \in COLS, ch \in CHARS, fx \in BOOLEAN :
       /\ how = [k |-> "change", a |-> <<b, li, c, IF fx THEN 1 ELSE 0>>, ch |-> ch]
       /\ ReadInit(IF fx /\ c < 69 THEN Fixed(Change(b, li, c, ch)) ELSE Change(b, li, c, ch))
  \/ \E n \in 1..3 : \E f \in [1..n -> {0, 1, 2}] :
       /\ how = [k |-> "order", a |-> f, ch |-> ""]
       /\ ReadInit([j \in 1..(2 * n) |-> Fixed(Later(1, f[(j + 1) \div 2]))[IF j % 2 = 1 THEN 1 ELSE 2]])
  \/ \E s \in {<<>>, <<1>>, <<2>>, <<2, 1>>, <<1, 1>>, <<2, 2>>, <<1, 2, 1>>, <<1, 2, 2, 1>>, <<1, 2, 1, 2>>, <<1, 1, 2, 2>>} :
       /\ how = [k |-> "lines", a |-> s, ch |-> ""]
       /\ ReadInit([j \in DOMAIN s |-> Base1[s[j]]])
\* a change is harmless when it writes the same character, exchanges blank,
\* plus and zero in a numeric or sign column, or letters in a letter column
Even == {" ", "+", "0"}
Letters == Upper \cup {" "}
Harmless(b, li, c, ch) == LET old == Bases[b][li][c] IN
  \/ old = ch
  \/ old \in Even /\ ch \in Even
  \/ old \in Letters /\ ch \in Letters /\ ((li = 1 /\ c \in {8, 15, 16, 17}) \/ c = 3)
  \/ li = 1 /\ c = 3 /\ old \in Letters \cup {"0"} /\ ch \in Letters \cup {"0"}
  \/ li = 2 /\ c = 3 /\ old \in Letters \cup {"0"} /\ ch \in Letters \cup {"0"}
CorruptionRejected ==
  (ReadDone /\ how.k = "change" /\ how.a[4] = 0 /\ verdict = "accept") =>
    Harmless(how.a[1], how.a[2], how.a[3], how.ch)
\* with the checksum repaired, separators, points and line numbers still count
SeparatorsKept ==
  (ReadDone /\ how.k = "change" /\ verdict = "accept" /\ Bases[how.a[1]][how.a[2]][how.a[3]] = "." ) => how.ch = "."
MCFinish == /\ ReadDone /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o ToJson([k |-> how.k, a |-> how.a, ch |-> how.ch]))
            /\ FALSE /\ UNCHANGED mcvars
MCNext == (ReadNext /\ UNCHANGED how) \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_mcvars
=============================================================================
