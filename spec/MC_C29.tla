------------------------------- MODULE MC_C29 -------------------------------
EXTENDS History, Json, IOUtils
VARIABLE word
mvars == <<cvars, word>>
MCInit == HistInit /\ word = <<>>
Letter(n) == word' = Append(word, n)
MCNext == /\ Len(word) < Depth
          /\ \/ \E x \in Objs : Call(x) /\ Letter("p" \o ToString(x))
             \/ \E x \in Objs : CallLazy(x) /\ Letter("l" \o ToString(x))
             \/ (Spoil /\ Letter("s"))
             \/ (SetConf /\ Letter("c"))
          /\ (IF IOEnv.EXPORT = "1" /\ Len(word') = Depth THEN PrintT("CASE " \o ToJson(word')) ELSE TRUE)
MCSpec == MCInit /\ [][MCNext]_mvars
=============================================================================
