----------------------------- MODULE RetainModel -----------------------------
(***************************************************************************)
(* Filtering: every small map against every candidate record of predicate  *)
(* calls (including wrong ones, which must not be admitted).               *)
(***************************************************************************)
EXTENDS FixedMap
CONSTANTS NK
VARIABLES before, vis, done
rv == <<rank, maps, its, ent, before, vis, done>>
\* a call: key, value seen (its own or a wrong one), decision, value left
Calls == (1..NK) \X {0, 1} \X {0, 1} \X {0, 1}
Dec(c) == <<c[1], c[1] + c[2], c[3], IF c[4] = 0 THEN c[1] + c[2] ELSE 10 + c[1]>>
Lists == UNION {[1..n -> Calls] : n \in 0..(NK - 1)}
         \cup {s \in [1..NK -> {c \in Calls : c[2] = 0}] : {s[x][1] : x \in 1..NK} = 1..NK}
Init ==
    /\ rank = [x \in 1..NK |-> x] /\ its = NoFn /\ ent = NoEnt
    /\ \E s \in SUBSET (1..NK) : maps = (1 :> [k \in 1..NK |-> IF k \in s THEN k ELSE Absent])
    /\ before = maps[1]
    /\ \E l \in Lists : vis = [x \in 1..Len(l) |-> Dec(l[x])]
    /\ done = FALSE
Next == ~done /\ Retain(1, vis) /\ done' = TRUE /\ UNCHANGED <<before, vis>>
Spec == Init /\ [][Next]_rv
Times(k) == Cardinality({x \in 1..Len(vis) : vis[x][1] = k})
\* admitted exactly when every present entry was shown once, with its value
LawOnceEach == ~done =>
    ((ENABLED Retain(1, vis)) <=>
        /\ \A k \in Keys : Times(k) = (IF before[k] # Absent THEN 1 ELSE 0)
        /\ \A x \in 1..Len(vis) : vis[x][2] = before[vis[x][1]])
LawNever == done => \A k \in Keys : before[k] = Absent => (Times(k) = 0 /\ maps[1][k] = Absent)
LawExact == done => \A x \in 1..Len(vis) : (maps[1][vis[x][1]] # Absent) = (vis[x][3] = 1)
LawWrites == done => \A x \in 1..Len(vis) : vis[x][3] = 1 => maps[1][vis[x][1]] = vis[x][4]
=============================================================================
