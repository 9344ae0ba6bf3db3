----------------------------- MODULE ViewModel -----------------------------
(***************************************************************************)
(* Which readings of a whole map does FixedMap admit?  All maps over small *)
(* constants against all candidate readings.                               *)
(***************************************************************************)
EXTENDS FixedMap
CONSTANTS NK, NV
VARIABLE e   \* a candidate list of entries
vm == <<rank, maps, its, ent, e>>
Pairs == (1..NK) \X (1..NV)
Lists == UNION {[1..m -> Pairs] : m \in 0..(NK - 1)} \cup {s \in [1..NK -> Pairs] : \A i \in 1..NK : s[i][1] = i \/ s[i][1] = NK + 1 - i}
Init ==
    /\ rank = [i \in 1..NK |-> i] /\ its = NoFn /\ ent = NoEnt
    /\ \E m \in [1..NK -> 0..NV] : maps = (1 :> m)
    /\ e \in Lists
Next == UNCHANGED vm
Spec == Init /\ [][Next]_vm
M == maps[1]
\* an accepted list of entries is exactly the graph of the map, without repetition
Graph == {<<k, M[k]>> : k \in Dom(M)}
LawViews ==
    LET ok == EntriesOf(M, e) IN
    /\ ok <=> ({e[i] : i \in 1..Len(e)} = Graph /\ Len(e) = Cardinality(Graph))
    /\ (ENABLED ViewEntries(1, e)) <=> ok
    /\ (ENABLED Views(1, e, KeysOf(e), ValsOf(e))) <=> ok
    \* order adds exactly: strictly increasing key positions
    /\ (ENABLED OrdEntries(1, e)) <=> (ok /\ \A i \in 1..(Len(e) - 1) : e[i][1] < e[i + 1][1])
LawLen == \A r \in 0..(NK + 1) : (ENABLED MapLen(1, r)) <=> r = Cardinality(Graph)
=============================================================================
