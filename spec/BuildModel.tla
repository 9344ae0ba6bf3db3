----------------------------- MODULE BuildModel -----------------------------
(***************************************************************************)
(* Building from every short sequence against inserting one by one.        *)
(***************************************************************************)
EXTENDS FixedMap, Json
CONSTANTS NK, NV, MaxLen
VARIABLES seq, i
bv == <<rank, maps, its, ent, seq, i>>
Seqs == UNION {[1..n -> (1..NK) \X (1..NV)] : n \in 0..MaxLen}
\* slot 1: built at once; slot 2: inserted one by one
Init ==
    /\ rank = [x \in 1..NK |-> x] /\ its = NoFn /\ ent = NoEnt
    /\ maps = (1 :> [k \in 1..NK |-> Absent]) @@ (2 :> [k \in 1..NK |-> Absent])
    /\ seq \in Seqs /\ i = 0
Next ==
    \/ i = 0 /\ FromSeq(1, seq, Len(seq)) /\ i' = 1 /\ UNCHANGED seq
    \/ i \in 1..Len(seq) /\ Insert(2, seq[i][1], seq[i][2], maps[2][seq[i][1]]) /\ i' = i + 1 /\ UNCHANGED seq
Spec == Init /\ [][Next]_bv
EmitT == (i = 0) => PrintT(ToJson(seq))
Done == i > Len(seq)
LawInserts == Done => maps[1] = maps[2]
LawLast == Done => \A k \in Keys : \A x \in 1..Len(seq) :
    (seq[x][1] = k /\ \A y \in (x + 1)..Len(seq) : seq[y][1] # k) => maps[1][k] = seq[x][2]
LawOnly == Done => \A k \in Dom(maps[1]) : \E x \in 1..Len(seq) : seq[x] = <<k, maps[1][k]>>
\* as keys only: the set of the keys, each once
LawSet == Done => Dom(maps[1]) = {seq[x][1] : x \in 1..Len(seq)} /\ Cardinality(Dom(maps[1])) <= Len(seq)
=============================================================================
