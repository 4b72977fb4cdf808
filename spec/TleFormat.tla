------------------------------ MODULE TleFormat ------------------------------
(* The two line element format (C13, C14): columns, checksum, epochs and the *)
(* reader that accepts or rejects a list of lines.  A line is a sequence of  *)
(* one character strings.                                                    *)
EXTENDS Common

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blank == Digit \cup {" "}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
          "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Alpha5 == Blank \cup (Upper \ {"I", "O"})
Sign == {" ", "+", "-"}

\* column classes; the two columns of the mean motion derivative are joint
Class1(c) ==
  IF c = 1 THEN {"1"} ELSE IF c = 3 THEN Alpha5 ELSE IF c = 8 THEN Upper
  ELSE IF c \in {2, 9, 18, 33, 44, 53, 62, 64} THEN {" "}
  ELSE IF c \in 15..17 THEN Upper \cup {" "}
  ELSE IF c = 24 THEN {"."} ELSE IF c \in {45, 54} THEN Sign
  ELSE IF c \in {51, 60} THEN {"+", "-"} ELSE IF c = 69 THEN Digit ELSE Blank
NDot(x) == \/ x[34] \in Sign \cup {"0"} /\ x[35] = "." /\ x[36] \in Blank
           \/ x[34] = " " /\ x[35] \in Sign /\ x[36] = "."
Class2(c) ==
  IF c = 1 THEN {"2"} ELSE IF c = 3 THEN Alpha5
  ELSE IF c \in {2, 8, 17, 26, 34, 43, 52} THEN {" "}
  ELSE IF c \in {12, 21, 38, 47, 55} THEN {"."} ELSE IF c = 69 THEN Digit ELSE Blank

Val(ch) == CASE ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4 [] ch = "5" -> 5
             [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9 [] OTHER -> 0
Weight(ch) == IF ch = "-" THEN 1 ELSE Val(ch)
Sum68(x) == SumSeq([c \in 1..68 |-> Weight(x[c])])
Checked(x) == Val(x[69]) = Sum68(x) % 10

Line1(x) == /\ Len(x) = 69
            /\ \A c \in (1..69) \ {34, 35, 36} : x[c] \in Class1(c)
            /\ NDot(x) /\ Checked(x)
Line2(x) == Len(x) = 69 /\ (\A c \in 1..69 : x[c] \in Class2(c)) /\ Checked(x)

-----------------------------------------------------------------------------
\* number written in columns a..b, blanks counting as nothing
RECURSIVE Num(_, _, _)
Num(x, a, b) == IF a > b THEN 0
                ELSE LET h == Num(x, a, b - 1) IN IF x[b] = " " THEN h ELSE 10 * h + Val(x[b])
\* the same for fields whose digits have fixed places (fractions)
RECURSIVE Places(_, _, _)
Places(x, a, b) == IF a > b THEN 0 ELSE 10 * Places(x, a, b - 1) + Val(x[b])

Year(yy) == IF yy < 57 THEN 2000 + yy ELSE 1900 + yy
DayOfYear(x) == Num(x, 21, 23)
\* days since 1957 (1956 and 2000 are leap years, so every fourth year is)
EpochDay(x) == LET y == Year(Num(x, 19, 20)) IN (y - 1957) * 365 + ((y - 1957) \div 4) + DayOfYear(x) - 1
EpochFrac(x) == Places(x, 25, 32)                \* 1e-8 days
NotAfter(x, y) == \/ EpochDay(x) < EpochDay(y)
                  \/ EpochDay(x) = EpochDay(y) /\ EpochFrac(x) <= EpochFrac(y)
PossibleDay(x) == DayOfYear(x) \in 1..366

-----------------------------------------------------------------------------
(* The reader: takes pair after pair, remembering the last epoch line.       *)
VARIABLES lines, pos, verdict
fvars == <<lines, pos, verdict>>
ReadInit(ls) == lines = ls /\ pos = 0
                /\ verdict = IF Len(ls) = 0 \/ Len(ls) % 2 = 1 THEN "reject" ELSE "reading"
ReadPair ==
  /\ verdict = "reading" /\ pos < Len(lines)
  /\ LET a == lines[pos + 1]
         b == lines[pos + 2] IN
     verdict' = IF ~Line1(a) \/ ~Line2(b) THEN "reject"
                ELSE IF ~PossibleDay(a) THEN "either"
                ELSE IF pos > 0 /\ ~NotAfter(lines[pos - 1], a) THEN "reject" ELSE "reading"
  /\ pos' = pos + 2 /\ UNCHANGED lines
Accept == verdict = "reading" /\ pos = Len(lines) /\ verdict' = "accept" /\ UNCHANGED <<lines, pos>>
ReadNext == ReadPair \/ Accept
ReadDone == verdict \in {"accept", "reject", "either"}

\* what acceptance means, declaratively
AcceptMeaning ==
  (ReadDone /\ verdict # "either") =>
    (verdict = "accept" <=>
      /\ Len(lines) > 0 /\ Len(lines) % 2 = 0
      /\ \A k \in 1..(Len(lines) \div 2) : Line1(lines[2 * k - 1]) /\ Line2(lines[2 * k])
      /\ \A k \in 2..(Len(lines) \div 2) : NotAfter(lines[2 * k - 3], lines[2 * k - 1]))
=============================================================================
