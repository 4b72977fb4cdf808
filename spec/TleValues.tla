------------------------------ MODULE TleValues ------------------------------
(* The values written in the columns of an element set (C14).                *)
EXTENDS TleFormat

Letters5 == <<"A", "B", "C", "D", "E", "F", "G", "H", "J", "K", "L", "M",
              "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lead(ch) == IF ch \in Blank THEN Val(ch)
            ELSE 9 + (CHOOSE k \in DOMAIN Letters5 : Letters5[k] = ch)
Catalog(x) == IF x[3] \in Upper THEN Lead(x[3]) * 10000 + Places(x, 4, 7) ELSE Num(x, 3, 7)

SignOf(ch) == IF ch = "-" THEN -1 ELSE 1
\* first derivative in 1e-8: sign and point in one of two places
FirstDerivative(x) == IF x[35] = "." THEN SignOf(x[34]) * Places(x, 36, 43)
                      ELSE SignOf(x[35]) * Places(x, 37, 43) * 10
\* mantissa with five digits and exponent, normalised: <<0, 0>> or a leading
\* digit different from zero
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF Abs(m) >= 10000 THEN <<m, e>> ELSE Norm(10 * m, e - 1)
Exponent(x, a) == Norm(SignOf(x[a]) * Places(x, a + 1, a + 5), SignOf(x[a + 6]) * Val(x[a + 7]))

RECURSIVE Text(_, _, _)
Text(x, a, b) == IF a > b THEN "" ELSE x[a] \o Text(x, a + 1, b)
Launch(x) == IF x[10] \in Digit /\ x[11] \in Digit
             THEN (IF Num(x, 10, 11) < 57 THEN "20" ELSE "19") \o Text(x, 10, 14) ELSE ""

\* l1, l2 of one set
Values(a, b) ==
  [catalog |-> Catalog(a), class |-> a[8], launchyear |-> Year(Num(a, 10, 11)), launchno |-> Num(a, 12, 14),
   epd |-> EpochDay(a), epf |-> EpochFrac(a), ndot |-> FirstDerivative(a), nddot |-> Exponent(a, 45),
   bstar |-> Exponent(a, 54), ephtype |-> Num(a, 63, 63), setno |-> Num(a, 65, 68),
   inc |-> Num(b, 9, 11) * 10000 + Places(b, 13, 16), raan |-> Num(b, 18, 20) * 10000 + Places(b, 22, 25),
   ecc |-> Places(b, 27, 33), argp |-> Num(b, 35, 37) * 10000 + Places(b, 39, 42),
   ma |-> Num(b, 44, 46) * 10000 + Places(b, 48, 51), n |-> Num(b, 53, 54) * 100000000 + Places(b, 56, 63),
   rev |-> Num(b, 64, 68)]

\* writing a value and reading it back (the machine of the model: an element
\* set is written field by field, each into its own columns)
ValuesFailing(w, g) ==
  Clause(g.catalog = w.catalog, "catalog_number") \cup Clause(g.class = w.class, "classification")
  \cup Clause(g.launchyear = w.launchyear /\ g.launchno = w.launchno, "international_designator")
  \cup Clause(g.epd = w.epd /\ Abs(g.epf - w.epf) <= 1, "epoch")
  \cup Clause(g.ndot = w.ndot, "first_derivative") \cup Clause(g.nddot = w.nddot, "second_derivative")
  \cup Clause(g.bstar = w.bstar, "b_star") \cup Clause(g.ephtype = w.ephtype, "ephemeris_type")
  \cup Clause(g.setno = w.setno, "element_set_number") \cup Clause(g.inc = w.inc, "inclination")
  \cup Clause(g.raan = w.raan, "ascending_node") \cup Clause(g.ecc = w.ecc, "eccentricity")
  \cup Clause(g.argp = w.argp, "perigee_argument") \cup Clause(g.ma = w.ma, "mean_anomaly")
  \cup Clause(g.n = w.n, "mean_motion") \cup Clause(g.rev = w.rev, "revolution_number")
=============================================================================
