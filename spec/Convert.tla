------------------------------ MODULE Convert ------------------------------
(* Conversion of an orbit object to two line elements with a lazily loaded   *)
(* cache (C12).  A text stands for the definition it was made from.          *)
EXTENDS Common

VARIABLES def, cache, lazycfg, ops, ret
vvars == <<def, cache, lazycfg, ops, ret>>

None == 0
TextOf(d) == d
ConvInit(d) == def = d /\ cache = None /\ lazycfg = TRUE /\ ops = <<>> /\ ret = None

\* lazy: "yes", "no" or "default" (the configured setting)
UsesCache(lz) == IF lz = "default" THEN lazycfg ELSE lz = "yes"
ToTle(lz) ==
  /\ ret' = IF UsesCache(lz) /\ cache # None THEN cache ELSE TextOf(def)
  /\ cache' = IF UsesCache(lz) /\ cache # None THEN cache ELSE TextOf(def)
  /\ ops' = Append(ops, "tle_" \o lz)
  /\ UNCHANGED <<def, lazycfg>>
Configure(b) == lazycfg' = b /\ ops' = Append(ops, IF b THEN "lazy_on" ELSE "lazy_off") /\ ret' = None /\ UNCHANGED <<def, cache>>
\* any other use of the object: deriving, dumping, propagating, accessors
Use(w) == ops' = Append(ops, w) /\ ret' = None /\ UNCHANGED <<def, cache, lazycfg>>
\* a copy is an object of its own with the same definition
Copy == cache' = None /\ ops' = Append(ops, "copy") /\ ret' = None /\ UNCHANGED <<def, lazycfg>>

SameText == ret \in {None, TextOf(def)}
CacheSound == cache \in {None, TextOf(def)}

-----------------------------------------------------------------------------
\* rows: one per conversion: [el, text, valid, sets]; text numbers equal texts
ElFailing(w, g) ==
  Clause(Abs(g.inc - w.inc) <= 1, "inclination")
  \cup Clause(LET d == (g.raan - w.raan) % 360000 IN Min2(d, 360000 - d) <= 1, "ascending_node")
  \cup Clause(LET d == (g.argp - w.argp) % 3600000 IN Min2(d, 3600000 - d) <= 1, "perigee_argument")
  \cup Clause(Abs(g.ecc - w.ecc) <= 1, "eccentricity")
  \cup Clause(LET d == (g.ma - w.ma) % 360000 IN Min2(d, 360000 - d) <= 1, "mean_anomaly")
  \cup Clause(Abs(g.n - w.n) <= 2, "mean_motion")
  \cup Clause(Abs(g.epd - w.epd) <= 1 /\ Abs((g.epd - w.epd) * 86400000 + g.ep - w.ep) <= 2, "epoch")
ConvFailing(q, o) ==
  UNION {ElFailing(q.want, o.rows[k].el) : k \in DOMAIN o.rows}
  \cup Clause(\A k \in DOMAIN o.rows : o.rows[k].sets = 1, "single_set")
  \cup Clause(\A k \in DOMAIN o.rows : o.rows[k].valid, "valid_text")
  \cup Clause(\A k \in DOMAIN o.rows : o.rows[k].text = 1, "same_text")
  \cup Clause(o.unchanged, "definition_changed")
=============================================================================
