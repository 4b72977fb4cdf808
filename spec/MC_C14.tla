------------------------------- MODULE MC_C14 -------------------------------
(* A writer fills one field after the other of an element set, choosing among *)
(* extreme values; reading must give back what was written last, whatever    *)
(* the other fields hold (fields do not share columns).                      *)
EXTENDS TleValues, Json, IOUtils
CONSTANTS DEPTH
VARIABLES w, exp, ops
wvars == <<w, exp, ops>>
\* an all-zero set
Zero1 == <<"1", " ", "0", "0", "0", "0", "0", "U", " ", "0", "0", "0", "0", "0", "A", " ", " ", " ",
           "0", "0", "0", "0", "1", ".", "0", "0", "0", "0", "0", "0", "0", "0", " ",
           " ", ".", "0", "0", "0", "0", "0", "0", "0", "0", " ",
           " ", "0", "0", "0", "0", "0", "-", "0", " ", " ", "0", "0", "0", "0", "0", "-", "0", " ", "0", " ",
           "0", "0", "0", "0", "0">>
Zero2 == <<"2", " ", "0", "0", "0", "0", "0", " ", "0", "0", "0", ".", "0", "0", "0", "0", " ",
           "0", "0", "0", ".", "0", "0", "0", "0", " ", "0", "0", "0", "0", "0", "0", "0", " ",
           "0", "0", "0", ".", "0", "0", "0", "0", " ", "0", "0", "0", ".", "0", "0", "0", "0", " ",
           "0", "1", ".", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>
\* field -> line, first column, values as character sequences
Fields ==
  [catalog |-> [ln |-> 1, c |-> 3, v |-> {<<"A", "0", "0", "0", "1">>, <<"Z", "9", "9", "9", "9">>, <<" ", " ", " ", " ", "5">>, <<"9", "9", "9", "9", "9">>}],
   class |-> [ln |-> 1, c |-> 8, v |-> {<<"C">>, <<"S">>}],
   launch |-> [ln |-> 1, c |-> 10, v |-> {<<"5", "7", "0", "0", "1">>, <<"5", "6", "9", "9", "9">>, <<"9", "9", "1", "2", "3">>}],
   epoch |-> [ln |-> 1, c |-> 19, v |-> {<<"5", "7", "0", "0", "1", ".", "0", "0", "0", "0", "0", "0", "0", "1">>, <<"0", "0", "3", "6", "6", ".", "9", "9", "9", "9", "9", "9", "9", "9">>, <<"5", "6", "0", "6", "0", ".", "5", "0", "0", "0", "0", "0", "0", "0">>}],
   ndot |-> [ln |-> 1, c |-> 34, v |-> {<<"-", ".", "1", "2", "3", "4", "5", "6", "7", "8">>, <<" ", "-", ".", "9", "9", "9", "9", "9", "9", "9">>, <<"0", ".", "0", "0", "0", "0", "0", "0", "0", "1">>}],
   nddot |-> [ln |-> 1, c |-> 45, v |-> {<<"-", "1", "2", "3", "4", "5", "-", "9">>, <<" ", "0", "0", "1", "0", "0", "-", "1">>, <<"+", "9", "9", "9", "9", "9", "+", "1">>}],
   bstar |-> [ln |-> 1, c |-> 54, v |-> {<<"-", "1", "2", "3", "4", "5", "-", "3">>, <<" ", "0", "0", "0", "0", "1", "-", "4">>, <<"+", "1", "0", "0", "0", "0", "+", "0">>}],
   ephtype |-> [ln |-> 1, c |-> 63, v |-> {<<"4">>}],
   setno |-> [ln |-> 1, c |-> 65, v |-> {<<" ", " ", " ", "7">>, <<"9", "9", "9", "9">>}],
   inc |-> [ln |-> 2, c |-> 9, v |-> {<<"1", "7", "9", ".", "9", "9", "9", "9">>, <<" ", " ", "5", ".", "0", "0", "0", "1">>}],
   raan |-> [ln |-> 2, c |-> 18, v |-> {<<"3", "5", "9", ".", "9", "9", "9", "9">>, <<" ", "4", "2", ".", "5", "0", "0", "0">>}],
   ecc |-> [ln |-> 2, c |-> 27, v |-> {<<"9", "0", "0", "0", "0", "0", "1">>, <<"0", "0", "0", "0", "0", "1", "2">>}],
   argp |-> [ln |-> 2, c |-> 35, v |-> {<<"3", "5", "9", ".", "9", "9", "9", "9">>, <<" ", " ", "1", ".", "0", "2", "0", "3">>}],
   ma |-> [ln |-> 2, c |-> 44, v |-> {<<"3", "5", "9", ".", "9", "9", "9", "8">>, <<" ", " ", "0", ".", "0", "0", "0", "1">>}],
   n |-> [ln |-> 2, c |-> 53, v |-> {<<"1", "6", ".", "1", "2", "3", "4", "5", "6", "7", "8">>, <<" ", "1", ".", "0", "0", "2", "7", "0", "0", "0", "1">>}],
   rev |-> [ln |-> 2, c |-> 64, v |-> {<<"9", "9", "9", "9", "9">>, <<" ", " ", " ", "1", "2">>}]]
Put(x, c, s) == [k \in DOMAIN x |-> IF k >= c /\ k < c + Len(s) THEN s[k - c + 1] ELSE x[k]]
Sealed(x) == [x EXCEPT ![69] = ToString(Sum68(x) % 10)]
MCInit == w = <<Sealed(Zero1), Sealed(Zero2)>> /\ exp = Values(Zero1, Zero2) /\ ops = <<>>
          /\ lines = <<>> /\ pos = 0 /\ verdict = "accept"
Changes(f) == CASE f = "launch" -> {"launchyear", "launchno"} [] f = "epoch" -> {"epd", "epf"} [] OTHER -> {f}
Write(f) == \E v \in Fields[f].v :
  LET x == Sealed(Put(w[Fields[f].ln], Fields[f].c, v))
      nw == [w EXCEPT ![Fields[f].ln] = x]
      now == Values(nw[1], nw[2]) IN
  /\ w' = nw
  /\ exp' = [k \in DOMAIN exp |-> IF k \in Changes(f) THEN now[k] ELSE exp[k]]
  /\ ops' = Append(ops, f) /\ UNCHANGED fvars
\* no field disturbs another, and the set stays well formed
FieldsApart == Values(w[1], w[2]) = exp
StaysValid == Line1(w[1]) /\ Line2(w[2])
MCFinish == /\ Len(ops) = DEPTH /\ IOEnv.EXPORT = "1"
            /\ PrintT("CASE " \o Text(w[1], 1, 69) \o "|" \o Text(w[2], 1, 69))
            /\ FALSE /\ UNCHANGED <<wvars, fvars>>
MCNext == (Len(ops) < DEPTH /\ \E f \in DOMAIN Fields : Write(f)) \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_<<wvars, fvars>>
=============================================================================
