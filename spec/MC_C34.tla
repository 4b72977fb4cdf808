------------------------------- MODULE MC_C34 -------------------------------
EXTENDS Tables, Json, IOUtils
MCInit == TabInit
Order == <<"cells", "obs", "down", "agg", "red", "grid", "lat", "rlat", "glat">>
InOrder == \A i, j \in 1..9 : (i < j /\ Order[i] \in {"cells", "obs", "down"} /\ tab[Order[j]] >= 0) => tab[Order[i]] >= 0
Solo == Cardinality({k \in TableKinds : tab[k] >= 0}) <= 1
Full == tab.glat >= 0 /\ tab.grid >= 0
MCNext == \/ TabNext /\ ((InOrder' /\ \A k \in TableKinds \ Range(Order) : tab'[k] = -1) \/ Solo')
          \/ IOEnv.EXPORT = "1" /\ (Full \/ (Solo /\ \E k \in TableKinds \ Range(Order) : tab[k] >= 0))
             /\ PrintT("CASE " \o ToJson([tab |-> tab, opts |-> [k \in {j \in TableKinds : tab[j] >= 0} |-> opts[k]]])) /\ FALSE /\ UNCHANGED tvs
MCSpec == MCInit /\ [][MCNext]_tvs
=============================================================================
