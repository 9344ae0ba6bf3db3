----------------------------- MODULE InterModel -----------------------------
(***************************************************************************)
(* Intersection of all pairs of small sets, driven to the end; and the     *)
(* implementation idea (walk the smaller operand, filter by membership in  *)
(* the larger one) against it.                                             *)
(***************************************************************************)
EXTENDS FixedSet
CONSTANTS NK
VARIABLES got, skip
iv == <<rank, sets, its, got, skip>>
Init ==
    /\ rank = [i \in 1..NK |-> i] /\ its = NoFn /\ got = <<>> /\ skip = 0
    /\ \E a, b \in SUBSET (1..NK) : sets = (1 :> a) @@ (2 :> b)
Live == 1 \in DOMAIN its
Next ==
    \/ ~Live /\ got = <<>> /\ InterNew(1, 1, 2) /\ UNCHANGED <<got, skip>>
    \/ Live /\ \E k \in Keys : Next1(1, <<k>>) /\ got' = Append(got, k) /\ UNCHANGED skip
    \/ Live /\ Next1(1, <<>>) /\ UNCHANGED <<got, skip>>
    \/ Live /\ \E k \in Keys : Nth(1, 1, <<k>>) /\ got' = Append(got, k) /\ skip' = skip + 1
    \/ Live /\ Nth(1, 1, <<>>) /\ skip' = skip + Cardinality(its[1].rem) /\ UNCHANGED got
Spec == Init /\ [][Next]_iv
Common == sets[1] \cap sets[2]
\* nothing but common keys, each once, in order; without skipping, all of them
LawCommon ==
    /\ \A i \in 1..Len(got) : got[i] \in Common
    /\ \A i \in 1..(Len(got) - 1) : got[i] < got[i + 1]
    /\ Live => Len(got) + skip + Cardinality(its[1].rem) = Cardinality(Common)
    /\ (Live /\ its[1].rem = {} /\ skip = 0) => Elems(got) = Common
LawCommute == Common = sets[2] \cap sets[1]
\* the bounds an implementation may report: never more than the smaller operand suffices
LawBounds ==
    Live => LET m == CHOOSE x \in {Cardinality(sets[1]), Cardinality(sets[2])} :
                        x <= Cardinality(sets[1]) /\ x <= Cardinality(sets[2])
            IN /\ ENABLED SizeHint(1, 0, m)
               /\ \A lo, hi \in 0..NK : (ENABLED SizeHint(1, lo, hi)) <=> (lo <= Cardinality(its[1].rem) /\ Cardinality(its[1].rem) <= hi)
\* walking the smaller side and filtering gives the same run
RECURSIVE Walk(_, _, _)
Walk(s, t, k) == IF k > NK THEN <<>> ELSE (IF k \in s /\ k \in t THEN <<k>> ELSE <<>>) \o Walk(s, t, k + 1)
Small == IF Cardinality(sets[1]) <= Cardinality(sets[2]) THEN sets[1] ELSE sets[2]
Large == IF Cardinality(sets[1]) <= Cardinality(sets[2]) THEN sets[2] ELSE sets[1]
LawSmaller == IsRun(rank, Common, Walk(Small, Large, 1))
LawUnchanged == [][sets' = sets]_iv
=============================================================================
