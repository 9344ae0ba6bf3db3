---------------------------- MODULE CompareLaws ----------------------------
(***************************************************************************)
(* Equality, hashing and cloning over all pairs of small maps, however     *)
(* they were reached.                                                      *)
(***************************************************************************)
EXTENDS FixedMap
CONSTANTS NK, NV
VARIABLES op,    \* last operation
          prev   \* the maps before it
cv == <<rank, maps, its, ent, op, prev>>
Init ==
    /\ rank = [i \in 1..NK |-> i] /\ its = NoFn /\ ent = NoEnt
    /\ maps = (1 :> EmptyMap) @@ (2 :> EmptyMap)
    /\ op = <<"init">> /\ prev = maps
Do(o) == op' = o /\ prev' = maps
Next == \E o \in {1, 2} :
    \/ \E k \in Keys, v \in (1..NV) \cup {Odd} : Insert(o, k, v, maps[o][k]) /\ Do(<<"insert", o, k>>)
    \/ \E k \in Keys : Remove(o, k, maps[o][k]) /\ Do(<<"remove", o, k>>)
    \/ Clear(o) /\ Do(<<"clear", o>>)
    \/ New(o) /\ Do(<<"new", o>>)
    \/ Clone(o, 3 - o) /\ Do(<<"clone", o>>)
Spec == Init /\ [][Next]_cv

A == maps[1]
B == maps[2]
SameEntries == /\ \A k \in Keys : (A[k] # Absent) = (B[k] # Absent)
               /\ \A k \in Keys : A[k] # Absent => A[k] = B[k]
\* exactly one pair of answers of == and != is admitted
\* equal entries: the same keys, with values that equal each other
EqualEntries == SameEntries /\ \A k \in Keys : A[k] # Odd
LawSelf == \A e, n \in BOOLEAN : (ENABLED Equal(1, 1, e, n)) <=> (e = (\A k \in Keys : A[k] # Odd) /\ n = ~e)
LawEq == \A e, n \in BOOLEAN : (ENABLED Equal(1, 2, e, n)) <=> (e = EqualEntries /\ n = ~EqualEntries)
LawSym == \A e, n \in BOOLEAN : (ENABLED Equal(1, 2, e, n)) <=> (ENABLED Equal(2, 1, e, n))
\* different hashes are admitted for different contents only
LawHash == (ENABLED HashAgree(1, 2, FALSE)) <=> ~EqualEntries
LawClone ==
    /\ op[1] = "clone" => SameEntries /\ maps[op[2]] = prev[op[2]]
    \* an operation on one leaves the other alone
    /\ op[1] \notin {"clone", "init"} => maps[3 - op[2]] = prev[3 - op[2]]
LawFresh == op[1] \in {"new", "clear"} => \A k \in Keys : maps[op[2]][k] = Absent
=============================================================================
