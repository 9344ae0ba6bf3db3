------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* Who owns which value.  FixedMap with two slots of NK keys, where values *)
(* are identities: every value ever made is in exactly one place: held by  *)
(* one cell of one map (or of one owning iterator), handed out, or dropped.*)
(* With Emit, the labelled transitions over presence patterns are printed. *)
(***************************************************************************)
EXTENDS FixedMap, Json
CONSTANTS NK, MaxId, Emit
VARIABLES next,    \* next fresh identity
          out,     \* identities handed to the caller
          dropped, \* identities released
          lost,    \* identities given up when a destructor panicked
          op
om == <<rank, maps, its, ent, next, out, dropped, lost, op>>

Slots == {1, 2}
Held == UNION {{maps[o][k] : k \in Dom(maps[o])} : o \in DOMAIN maps}
Init ==
    /\ rank = [i \in 1..NK |-> i] /\ maps = NoFn /\ its = NoFn /\ ent = NoEnt
    /\ next = 1 /\ out = {} /\ dropped = {} /\ lost = {} /\ op = <<"init">>

\* account: n fresh values came in, `o` were handed out; the rest of what
\* is no longer held has been dropped
Acc(n, handed, label) ==
    /\ next + n <= MaxId + 1
    /\ next' = next + n /\ out' = out \cup handed
    /\ dropped' = dropped \cup ((Held \cup next..(next + n - 1)) \ (Held' \cup handed))
    /\ op' = label /\ UNCHANGED lost
Bit(b) == IF b THEN 1 ELSE 0
Some1(v) == IF v = Absent THEN {} ELSE {v}
Live(o) == o \in DOMAIN maps
Keeps == [1..NK -> {0, 1}]
\* renumber the values of m that are present as fresh ones, in key order
Fresh(m) == [k \in Keys |-> IF m[k] = Absent THEN Absent
                            ELSE next + Cardinality({x \in Dom(m) : x < k})]
PairsOf(m) == [i \in 1..Cardinality(Dom(m)) |->
                 LET k == CHOOSE x \in Dom(m) : Cardinality({y \in Dom(m) : y < x}) = i - 1 IN <<k, m[k]>>]
Lists == UNION {[1..n -> 1..NK] : n \in 0..2}

\* the same when a destructor panics: d (not empty, the last one panicked) have
\* been dropped; of the rest some are still there, some are lost
AccBoom(n, d, label) ==
    /\ next + n <= MaxId + 1
    /\ next' = next + n /\ d # {} /\ dropped' = dropped \cup d /\ UNCHANGED out
    /\ d \cap Held' = {}
    /\ lost' = lost \cup ((Held \cup next..(next + n - 1)) \ (Held' \cup d))
    /\ op' = label
\* lookups of all slots when slot o holds the part s of its content m
After(o, m, s) == LET ss == {x \in Slots : Live(x)}
                      L(x) == PairsOf(IF x # o THEN maps[x] ELSE [k \in Keys |-> IF k \in s THEN m[k] ELSE Absent])
                  IN IF ss = {1, 2} THEN <<<<1, L(1)>>, <<2, L(2)>>>> ELSE <<<<o, L(o)>>>>
Blow(o) ==
    \/ \E s \in SUBSET Dom(maps[o]), d \in SUBSET {maps[o][k] : k \in Dom(maps[o])} :
         Boom("clear", o, After(o, maps[o], s), <<>>, {}) /\ AccBoom(0, d, <<"boom", "clear">>)
    \/ \E d \in SUBSET {maps[o][k] : k \in Dom(maps[o])} :
         Boom("drop", o, IF Live(3 - o) THEN <<<<3 - o, PairsOf(maps[3 - o])>>>> ELSE <<>>, <<>>, {}) /\ AccBoom(0, d, <<"boom", "drop">>)
    \* the value an occupied entry did not need
    \/ Dom(maps[o]) # {} /\ Boom("entry", o, After(o, maps[o], Dom(maps[o])), <<>>, {}) /\ AccBoom(1, {next}, <<"boom", "entry">>)
    \/ \E f \in Keeps, i \in 1..NK, s \in SUBSET Dom(maps[o]), d \in SUBSET {maps[o][k] : k \in Dom(maps[o])} :
         LET p == PairsOf(maps[o])
             vis == [x \in 1..i |-> <<p[x][1], p[x][2], f[p[x][1]], p[x][2]>>] IN
         /\ i <= Len(p)
         /\ Boom("retain", o, After(o, maps[o], s), vis, {}) /\ AccBoom(0, d, <<"boom", "retain">>)
         /\ \A x \in 1..i : vis[x][3] = 1 => maps'[o][vis[x][1]] = maps[o][vis[x][1]]

Next ==
    \E o \in Slots :
       \/ ~Emit /\ Live(o) /\ Blow(o)
       \/ ~Live(o) /\ New(o) /\ Acc(0, {}, <<"new", o>>)
       \/ Live(o) /\ DropMap(o) /\ Acc(0, {}, <<"drop", o>>)
       \/ Live(o) /\ Clear(o) /\ Acc(0, {}, <<"clear", o>>)
       \/ Live(o) /\ \E k \in Keys : Insert(o, k, next, maps[o][k]) /\ Acc(1, Some1(maps[o][k]), <<"insert", o, k>>)
       \/ Live(o) /\ \E k \in Keys : Remove(o, k, maps[o][k]) /\ Acc(0, Some1(maps[o][k]), <<"remove", o, k>>)
       \/ Live(o) /\ \E k \in Keys : maps[o][k] # Absent
            /\ GetMut(o, k, maps[o][k], next) /\ Acc(1, {maps[o][k]}, <<"getmut", o, k>>)
       \/ Live(o) /\ \E f \in Keeps :
            LET p == PairsOf(maps[o]) IN
            /\ Retain(o, [i \in 1..Len(p) |-> <<p[i][1], p[i][2], f[p[i][1]], p[i][2]>>])
            /\ Acc(0, {}, <<"retain", o, f>>)
       \* a panicking predicate at the i-th call, everything before rejected
       \/ Live(o) /\ \E i \in 1..NK :
            LET p == PairsOf(maps[o]) IN
            /\ i <= Len(p)
            /\ RetainPanic(o, [x \in 1..i |-> <<p[x][1], p[x][2], 0, p[x][2]>>], SubSeq(p, i, Len(p)))
            /\ Acc(0, {}, <<"retainpanic", o, i>>)
       \/ \E s \in Lists : ~Live(o) /\ FromSeq(o, [i \in 1..Len(s) |-> <<s[i], next + i - 1>>], Len(s)) /\ Acc(Len(s), {}, <<"from", o, s>>)
       \/ \E s \in Lists : ~Live(o) /\ NotBuilt /\ Acc(Len(s), {}, <<"frompanic", o, s>>)
       \/ Live(o) /\ ~Live(3 - o) /\ CloneFresh(o, 3 - o, PairsOf(Fresh(maps[o]))) /\ Acc(Cardinality(Dom(maps[o])), {}, <<"clone", o, 3 - o>>)
       \/ Live(o) /\ ~Live(3 - o) /\ \E i \in 1..NK : i <= Cardinality(Dom(maps[o]))
            /\ NotBuilt /\ Acc(i - 1, {}, <<"clonepanic", o, 3 - o, i>>)
       \* an owning iterator from which f values are taken at the front and b at the back
       \/ Live(o) /\ \E f, b \in 0..NK :
            LET p == PairsOf(maps[o])  n == Len(p) IN
            /\ f + b <= n
            /\ DropMap(o)
            /\ Acc(0, {p[i][2] : i \in (1..f) \cup ((n - b + 1)..n)}, <<"into", o, f, b>>)
       \/ Live(o) /\ \E k \in Keys :
            LET v == maps[o][k] IN
            \/ v = Absent /\ Insert(o, k, next, Absent) /\ Acc(1, {}, <<"e_or", o, k>>)
            \/ v # Absent /\ Idle /\ Acc(1, {}, <<"e_or", o, k>>)       \* the unused argument dies
            \/ v # Absent /\ Insert(o, k, next, v) /\ Acc(1, {v}, <<"e_insert", o, k>>)
            \/ v = Absent /\ Insert(o, k, next, v) /\ Acc(1, {}, <<"e_insert", o, k>>)
            \/ v # Absent /\ Remove(o, k, v) /\ Acc(0, {v}, <<"e_remove", o, k>>)
            \/ Idle /\ Acc(0, {}, <<"e_drop", o, k>>)
            \/ v = Absent /\ Idle /\ Acc(0, {}, <<"e_with_panic", o, k>>)
            \/ v # Absent /\ Idle /\ Acc(0, {}, <<"e_modify_panic", o, k>>)
Spec == Init /\ [][Next]_om

Pattern(ms) == [o \in Slots |-> IF o \in DOMAIN ms THEN [k \in Keys |-> Bit(ms[o][k] # Absent)] ELSE <<>>]
View == IF Emit THEN <<Pattern(maps)>> ELSE <<maps, next, out, dropped, lost>>
EmitT == Emit => PrintT(ToJson([f |-> Pattern(maps), op |-> op', t |-> Pattern(maps')]))

-----------------------------------------------------------------------------
LawSomewhere == 1..(next - 1) = Held \cup out \cup dropped \cup lost
LawOnce == /\ Held \cap out = {} /\ Held \cap dropped = {} /\ out \cap dropped = {}
           /\ lost \cap (Held \cup out \cup dropped) = {}
\* nothing is ever lost but by the panic of a destructor
LawLost == [][lost' # lost => op'[1] = "boom"]_om
LawSingle == \A o1, o2 \in DOMAIN maps : \A k1, k2 \in Keys :
    (maps[o1][k1] # Absent /\ maps[o1][k1] = maps[o2][k2]) => (o1 = o2 /\ k1 = k2)
LawGone == [][out \subseteq out' /\ dropped \subseteq dropped']_om
\* nothing is left when both maps are gone
LawEnd == DOMAIN maps = {} => Held = {}
=============================================================================
