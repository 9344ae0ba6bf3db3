----------------------------- MODULE PanicModel -----------------------------
(***************************************************************************)
(* Filtering interrupted by a panic of the predicate, for every content,   *)
(* visiting order, decisions and panic position; and all states that may   *)
(* be found afterwards.                                                    *)
(***************************************************************************)
EXTENDS FixedMap
CONSTANTS NK
VARIABLES before, vis, phase
pv == <<rank, maps, its, ent, before, vis, phase>>
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A x, y \in 1..Cardinality(S) : x # y => s[x] # s[y]}
Init ==
    /\ rank = [x \in 1..NK |-> x] /\ its = NoFn /\ ent = NoEnt
    /\ \E s \in SUBSET (1..NK) : maps = (1 :> [k \in 1..NK |-> IF k \in s THEN k ELSE Absent])
    /\ before = maps[1] /\ vis = <<>> /\ phase = 0
\* candidates for what lookups find: any subset of the keys, each with its
\* old value or the one the predicate left (10 + k)
Posts == UNION {{ [x \in 1..Cardinality(s) |->
                     LET k == CHOOSE y \in s : Cardinality({z \in s : z < y}) = x - 1 IN <<k, f[k]>>]
                   : f \in [s -> {1, 2, 3, 11, 12, 13}]} : s \in SUBSET (1..NK)}
Next ==
    \/ /\ phase = 0 /\ phase' = 1 /\ UNCHANGED before
       /\ \E c \in 1..Cardinality(Dom(maps[1])), p \in Perms(Dom(maps[1])), d \in [1..NK -> {0, 1}], w \in [1..NK -> {0, 10}] :
            LET v == [x \in 1..c |-> <<p[x], p[x], d[p[x]], p[x] + w[p[x]]>>] IN
            /\ vis' = v
            /\ \E post \in Posts : RetainPanic(1, v, post)
    \/ /\ phase = 1 /\ phase' = 2 /\ UNCHANGED <<before, vis>>
       \* again, approving everything
       /\ LET s == Dom(maps[1])  m == maps[1]
              p == CHOOSE q \in Perms(s) : TRUE
          IN Retain(1, [x \in 1..Cardinality(s) |-> <<p[x], m[p[x]], 1, m[p[x]]>>])
Spec == Init /\ [][Next]_pv
Cut1 == vis[Len(vis)][1]
LawKept == phase >= 1 => \A x \in 1..Len(vis) : (vis[x][3] = 1 \/ vis[x][1] = Cut1) => maps[1][vis[x][1]] = vis[x][4]
LawUntouched == phase >= 1 => \A k \in Keys : k \notin Visited(vis) => maps[1][k] = before[k]
LawAny == phase >= 1 => \A k \in Keys :
    /\ maps[1][k] # Absent => before[k] # Absent
    /\ maps[1][k] = Absent => (before[k] = Absent \/ (k \in Visited(vis) /\ k # Cut1 /\ VisitOf(vis, k)[3] = 0))
\* repeating is always possible and keeps what is there
LawAgain == phase = 1 => ENABLED Next
=============================================================================
