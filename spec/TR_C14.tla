------------------------------- MODULE TR_C14 -------------------------------
(* Compares the recorded accessor values of every set with its columns.      *)
EXTENDS TleValues, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done, bad
tvars == <<fvars, l, done, bad>>
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ bad = {} /\ ReadInit(Trace[n].in.lines)
\* a set was read: its values
Step == /\ ~done /\ ReadPair
        /\ LET i == (pos \div 2) + 1
               v == Values(lines[pos + 1], lines[pos + 2]) IN
           bad' = bad \cup (IF O.status # "ok" THEN {O.status}
                            ELSE IF i \in DOMAIN O.sets
                            THEN ValuesFailing(v, O.sets[i]) \cup CmpFailing(O.sets[i].derived)
                                 \cup Clause(Launch(lines[pos + 1]) = "" \/ O.sets[i].launch = Launch(lines[pos + 1]) \o O.sets[i].piece, "designator_text")
                            ELSE {"set_missing"})
        /\ UNCHANGED <<l, done>>
Finish == /\ ~done /\ (verdict # "reading" \/ pos = Len(lines))
          /\ Verdict(l, bad \cup Clause(verdict = "reading", "input_not_valid")
                            \cup (IF O.status = "ok" THEN Clause(O.count = Len(lines) \div 2 /\ Len(O.sets) = O.count, "count") ELSE {}))
          /\ done' = TRUE /\ UNCHANGED <<fvars, l, bad>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_tvars
=============================================================================
