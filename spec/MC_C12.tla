------------------------------- MODULE MC_C12 -------------------------------
EXTENDS Convert, Json, IOUtils
CONSTANTS DEPTH
MCInit == \E d \in 1..2 : ConvInit(d)
MCOp == Len(ops) < DEPTH /\
  \/ \E lz \in {"yes", "no", "default"} : ToTle(lz)
  \/ \E b \in BOOLEAN : Configure(b)
  \/ \E w \in {"derive", "dump", "track"} : Use(w)
  \/ Copy
Conversions == Cardinality({k \in DOMAIN ops : ops[k] \in {"tle_yes", "tle_no", "tle_default"}})
MCFinish == /\ Len(ops) = DEPTH /\ IOEnv.EXPORT = "1" /\ def = 1 /\ Conversions >= 2
            /\ PrintT("CASE " \o ToJson(ops))
            /\ FALSE /\ UNCHANGED vvars
MCNext == MCOp \/ MCFinish
MCSpec == MCInit /\ [][MCNext]_vvars
=============================================================================
