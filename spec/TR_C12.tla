------------------------------- MODULE TR_C12 -------------------------------
(* Runs the conversion machine along the recorded history of one orbit.      *)
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done, nret
tvars == <<vvars, l, done, nret>>
Q == Trace[l].in
O == Trace[l].out
TraceInit == \E n \in 1..Len(Trace) : l = n /\ done = FALSE /\ nret = 0 /\ ConvInit(1)
Do(op) == IF op = "tle_yes" THEN ToTle("yes") ELSE IF op = "tle_no" THEN ToTle("no") ELSE IF op = "tle_default" THEN ToTle("default")
          ELSE IF op = "lazy_on" THEN Configure(TRUE) ELSE IF op = "lazy_off" THEN Configure(FALSE)
          ELSE IF op = "copy" THEN Copy ELSE Use(op)
Step == /\ ~done /\ Len(ops) < Len(Q.ops) /\ Do(Q.ops[Len(ops) + 1])
        /\ nret' = nret + (IF ret' = None THEN 0 ELSE 1)
        /\ UNCHANGED <<l, done>>
Finish == /\ ~done /\ Len(ops) = Len(Q.ops)
          /\ Verdict(l, IF O.status # "ok" THEN {O.status}
                        ELSE ConvFailing(Q, O) \cup Clause(Len(O.rows) = nret, "conversions")
                             \cup (IF Trace[l].kind = "tle" THEN Clause(O.identity, "converts_to_itself") ELSE {}))
          /\ done' = TRUE /\ UNCHANGED <<vvars, l, nret>>
TraceSpec == TraceInit /\ [][Step \/ Finish]_tvars
=============================================================================
