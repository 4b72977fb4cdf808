------------------------------- MODULE Tables -------------------------------
(* Result tables (C34).  Every operation returns a table of one kind; the    *)
(* columns depend on the kind and on the options asked for, never on how many *)
(* rows there are.  tab[k] is the number of rows of the last table of kind k  *)
(* (-1: not computed yet, 2: several); the operations form pipelines.         *)
EXTENDS Common
VARIABLES tab, opts
tvs == <<tab, opts>>
Base == [obs |-> {"point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"},
         agg |-> {"point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "access", "revisit"},
         red |-> {"point_id", "geometry", "access", "revisit", "samples"},
         grid |-> {"cell_id", "geometry", "samples", "access", "revisit"},
         down |-> {"station", "geometry", "satellite", "start", "end", "epoch"},
         lat |-> {"point_id", "geometry", "satellite", "instrument", "sat_alt", "sat_az", "station", "downlinked", "latency", "observed"},
         rlat |-> {"point_id", "geometry", "latency", "samples"},
         glat |-> {"cell_id", "geometry", "samples", "latency"},
         orbit |-> {"time", "satellite", "instrument", "swath_width", "valid_obs", "geometry"},
         ground |-> {"time", "satellite", "instrument", "valid_obs", "geometry"},
         pixels |-> {"time", "satellite", "instrument", "valid_obs", "geometry"},
         swath |-> {"time", "satellite", "instrument", "valid_obs", "geometry"},
         ro |-> {"receiver", "transmitter", "is_rising", "geometry", "position", "rx_tx_pitch", "rx_tx_yaw", "tp_tx_azimuth", "start", "end", "time"},
         dop |-> {"dop", "geometry"},
         points |-> {"point_id", "geometry"},
         cells |-> {"cell_id", "geometry"}]
TableKinds == DOMAIN Base
Added == [solar |-> {"sat_sunlit", "solar_alt", "solar_az", "solar_time"}, velocity |-> {"velocity"}, sat_sunlit |-> {"sat_sunlit"},
          solar_altaz |-> {"solar_alt", "solar_az"}, solar_beta |-> {"solar_beta"}, sat_altaz |-> {"sat_alt", "sat_az"}, line |-> {"swath_width"}]
Options == [k \in TableKinds |-> CASE k = "obs" -> {"solar"} [] k = "orbit" -> {"velocity", "sat_sunlit", "solar_altaz", "solar_beta"}
                                   [] k \in {"ground", "pixels"} -> {"sat_altaz", "solar_altaz"} [] k = "swath" -> {"line"} [] OTHER -> {}]
Declared(k, o) == Base[k] \cup UNION {Added[x] : x \in o}
\* instants and durations among the columns
Instants(k) == IF k \in {"obs", "agg", "down"} THEN {"start", "epoch", "end"} ELSE IF k = "lat" THEN {"downlinked", "observed"}
               ELSE IF k \in {"orbit", "ground", "pixels", "swath"} THEN {"time"} ELSE IF k = "ro" THEN {"start", "end", "time"} ELSE {}
Durations(k) == Base[k] \cap {"access", "revisit", "latency"}

\* operations: the kinds they read, with the columns they rely on, and the kind they return
Reads == [agg |-> [obs |-> {"point_id", "satellite", "instrument", "start", "epoch", "end", "geometry"}],
          red |-> [agg |-> {"point_id", "access", "revisit", "geometry"}],
          grid |-> [red |-> {"geometry", "samples", "access", "revisit"}, cells |-> {"cell_id", "geometry"}],
          lat |-> [obs |-> {"point_id", "satellite", "instrument", "epoch", "end", "geometry", "sat_alt", "sat_az"}, down |-> {"satellite", "station", "start", "epoch"}],
          rlat |-> [lat |-> {"point_id", "latency", "geometry"}],
          glat |-> [rlat |-> {"geometry", "latency", "samples"}, cells |-> {"cell_id", "geometry"}]]
Derived == DOMAIN Reads
Rows(k, t) == CASE k = "agg" -> IF t.obs = 0 THEN {0} ELSE 1..t.obs
                [] k = "red" -> IF t.agg = 0 THEN {0} ELSE 1..t.agg
                [] k = "grid" -> IF t.red = 0 THEN {t.cells} ELSE 0..2
                [] k = "lat" -> IF t.down = 0 THEN {0} ELSE {t.obs}
                [] k = "rlat" -> IF t.lat = 0 THEN {0} ELSE 1..t.lat
                [] k = "glat" -> IF t.rlat = 0 THEN {t.cells} ELSE 0..2
                [] OTHER -> 0..2
TabInit == tab = [k \in TableKinds |-> -1] /\ opts = [k \in TableKinds |-> {}]
Collect(k, o, r) == k \notin Derived /\ tab[k] = -1 /\ tab' = [tab EXCEPT ![k] = r] /\ opts' = [opts EXCEPT ![k] = o]
Derive(k) == /\ \A i \in DOMAIN Reads[k] : tab[i] >= 0
             /\ tab[k] = -1 /\ \E r \in Rows(k, tab) : tab' = [tab EXCEPT ![k] = r]
             /\ UNCHANGED opts
TabNext == (\E k \in TableKinds : \E o \in SUBSET Options[k] : \E r \in 0..2 : Collect(k, o, r)) \/ (\E k \in Derived : Derive(k))

\* whatever the number of rows and the options, the columns an operation relies on are there
NeedsMet == \A k \in Derived : \A i \in DOMAIN Reads[k] : tab[i] >= 0 => Reads[k][i] \subseteq Declared(i, opts[i])
NothingFromNothing == /\ (tab.obs = 0 => tab.agg <= 0 /\ tab.lat <= 0) /\ (tab.agg = 0 => tab.red <= 0)
                      /\ (tab.down = 0 => tab.lat <= 0 /\ tab.rlat <= 0)
OptionsKept == [][\A k \in TableKinds : tab[k] >= 0 => (tab'[k] = tab[k] /\ opts'[k] = opts[k])]_tvs

-----------------------------------------------------------------------------
(* Recorded tables: [kind, opts, rows, cols, geom, crs, labels, instants, *)
(* durations].                                                               *)
TableFailing(t) ==
  LET o == Range(t.opts)  want == Declared(t.kind, o) IN
  {t.kind \o "_" \o x : x \in
     Clause(want \subseteq Range(t.cols), "lacks_columns") \cup Clause(Range(t.cols) \subseteq want, "has_other_columns")
     \cup Clause(Len(t.cols) = Cardinality(Range(t.cols)), "repeats_columns")
     \cup Clause(t.geom = "geometry", "geometry_column") \cup Clause(t.crs = 4326, "reference_system")
     \cup Clause(t.labels, "row_labels")
     \cup Clause(Instants(t.kind) \subseteq Range(t.instants), "instants") \cup Clause(Durations(t.kind) \subseteq Range(t.durations), "durations")}
Few(n) == IF n > 2 THEN 2 ELSE n
\* the numbers of rows of one pipeline (kind -> rows)
LawFailing(rows) ==
  UNION {IF k \in DOMAIN rows /\ \A i \in DOMAIN Reads[k] : i \in DOMAIN rows
         THEN Clause(rows[k] >= 0 /\ IF k \in {"agg", "red", "rlat"} THEN LET i == CHOOSE j \in DOMAIN Reads[k] : TRUE IN
                                       (rows[k] = 0 <=> rows[i] = 0) /\ rows[k] <= rows[i]
                                     ELSE IF k = "lat" THEN rows[k] = (IF rows["down"] = 0 THEN 0 ELSE rows["obs"])
                                     ELSE LET i == IF k = "grid" THEN "red" ELSE "rlat" IN IF rows[i] = 0 THEN rows[k] = rows["cells"] ELSE rows[k] <= rows["cells"],
                     k \o "_rows")
         ELSE {} : k \in Derived}
=============================================================================
