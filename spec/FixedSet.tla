------------------------------ MODULE FixedSet ------------------------------
(***************************************************************************)
(* The observable behaviour of fixed_map::Set (and of its intersection).   *)
(* sets[o] is the set of key numbers contained in set slot o.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Cursor

VARIABLES rank, sets, its
svars == <<rank, sets, its>>

N == Len(rank)
Keys == 1..N
NoFn == [x \in {} |-> 0]
Put(f, x, y) == (x :> y) @@ f
Del(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
Elems(s) == {s[i] : i \in 1..Len(s)}
InKeys(s) == \A i \in 1..Len(s) : s[i] \in Keys

SetInit == rank = <<>> /\ sets = NoFn /\ its = NoFn
Begin(rk) == rank' = rk /\ sets' = NoFn /\ its' = NoFn
Only(x) == x /\ UNCHANGED <<rank, its>>
OnlyIt(x) == x /\ UNCHANGED <<rank, sets>>
Idle == UNCHANGED svars

-----------------------------------------------------------------------------
New(o)     == Only(sets' = Put(sets, o, {}))
DropSet(o) == Only(o \in DOMAIN sets /\ sets' = Del(sets, o))
\* insert reports "newly added", remove reports "was present"
Insert(o, k, r) == k \in Keys /\ r = (k \notin sets[o]) /\ Only(sets' = [sets EXCEPT ![o] = @ \cup {k}])
Remove(o, k, r) == k \in Keys /\ r = (k \in sets[o])    /\ Only(sets' = [sets EXCEPT ![o] = @ \ {k}])
Contains(o, k, r) == k \in Keys /\ r = (k \in sets[o]) /\ Idle
Clear(o) == Only(sets' = [sets EXCEPT ![o] = {}])
Snap(o, c)  == IsListing(sets[o], c) /\ Idle
Adopt(o, c) == InKeys(c) /\ Only(sets' = Put(sets, o, Elems(c)))

SetLen(o, r)     == r = Cardinality(sets[o]) /\ Idle
SetIsEmpty(o, r) == r = (sets[o] = {}) /\ Idle
ViewKeys(o, ks)  == IsListing(sets[o], ks) /\ Idle
Consume(o, ks)   == IsListing(sets[o], ks) /\ Only(sets' = Del(sets, o))
OrdKeys(o, ks)   == IsRun(rank, sets[o], ks) /\ Idle
RevKeys(o, ks)   == IsRunBack(rank, sets[o], ks) /\ Idle

\* retain: vis is the sequence of <<k, keep>> calls of the predicate
VisitsOk(s, vis) ==
    /\ Cardinality({vis[i][1] : i \in 1..Len(vis)}) = Len(vis)   \* no key twice
    /\ {vis[i][1] : i \in 1..Len(vis)} \subseteq s
Visited(vis) == {vis[i][1] : i \in 1..Len(vis)}
Approved(vis) == {vis[i][1] : i \in {j \in 1..Len(vis) : vis[j][2] = 1}}
Retain(o, vis) ==
    /\ VisitsOk(sets[o], vis) /\ Visited(vis) = sets[o]
    /\ Only(sets' = [sets EXCEPT ![o] = Approved(vis)])
RetainPanic(o, vis, post) ==
    /\ vis # <<>> /\ VisitsOk(sets[o], vis)
    /\ LET p == Elems(post)
           cut == vis[Len(vis)][1]
           must == (sets[o] \ Visited(vis)) \cup Approved(vis) \cup {cut}
       IN must \subseteq p /\ p \subseteq sets[o]
          /\ IsListing(p, post) /\ Only(sets' = [sets EXCEPT ![o] = p])

OrdConsume(o, ks) == IsRun(rank, sets[o], ks) /\ Only(sets' = Del(sets, o))
FromSeq(o, s, all) == InKeys(s) /\ Len(s) = all /\ Only(sets' = Put(sets, o, Elems(s)))
Clone(o, o2)  == Only(sets' = Put(sets, o2, sets[o]))
Equal(o, o2, eq, ne) == eq = (sets[o] = sets[o2]) /\ ne = ~eq /\ Idle
HashAgree(o, o2, same) == (sets[o] = sets[o2] => same) /\ Idle

NotBuilt == Idle
SerializeTo(o, n, s) == n = Cardinality(sets[o]) /\ IsRun(rank, sets[o], s) /\ Idle
DeserializeFrom(o, s, mal, ok) ==
    /\ ok = ~mal
    /\ IF ok THEN Only(sets' = Put(sets, o, Elems(s))) ELSE Idle
RoundTrip(o, o2, ok) == ok /\ Only(sets' = Put(sets, o2, sets[o]))

\* raw integers: bits lists the positions (from 0) of the one bits
AsRaw(o, bits) == Elems(bits) = {k - 1 : k \in sets[o]} /\ Len(bits) = Cardinality(sets[o]) /\ Idle
FromRaw(o, bits) == Only(sets' = Put(sets, o, {b + 1 : b \in Elems(bits)} \cap Keys))

-----------------------------------------------------------------------------
(* Iterators; kind "iter", "into", "inter".  Items are <<k>> or <<>>.        *)
Start(j, rem) == j \notin DOMAIN its /\ its' = Put(its, j, [rem |-> rem])
IterNew(j, o, kind) ==
    /\ Start(j, sets[o]) /\ UNCHANGED rank
    /\ sets' = IF kind = "into" THEN Del(sets, o) ELSE sets
InterNew(j, o, o2) == OnlyIt(Start(j, sets[o] \cap sets[o2]))
Cut(j, gone) == OnlyIt(its' = [its EXCEPT ![j] = [@ EXCEPT !.rem = @ \ gone]])
Dry(j) == OnlyIt(its' = [its EXCEPT ![j] = [@ EXCEPT !.rem = {}]])
Next1(j, r) ==
    IF its[j].rem = {} THEN r = <<>> /\ Dry(j)
    ELSE r # <<>> /\ IsFirst(rank, its[j].rem, r[1]) /\ Cut(j, {r[1]})
NextBack1(j, r) ==
    IF its[j].rem = {} THEN r = <<>> /\ Dry(j)
    ELSE r # <<>> /\ IsLast(rank, its[j].rem, r[1]) /\ Cut(j, {r[1]})
Nth(j, c, r) ==
    IF Cardinality(its[j].rem) <= c THEN r = <<>> /\ Dry(j)
    ELSE r # <<>> /\ \E sk \in Prefixes(rank, its[j].rem, c) :
           IsFirst(rank, its[j].rem \ sk, r[1]) /\ Cut(j, sk \cup {r[1]})
NthBack(j, c, r) ==
    IF Cardinality(its[j].rem) <= c THEN r = <<>> /\ Dry(j)
    ELSE r # <<>> /\ \E sk \in Suffixes(rank, its[j].rem, c) :
           IsLast(rank, its[j].rem \ sk, r[1]) /\ Cut(j, sk \cup {r[1]})
SizeHint(j, lo, hi) == BoundsOk(its[j].rem, lo, hi) /\ Idle
ExactLen(j, r) == r = Cardinality(its[j].rem) /\ Idle
IterClone(j, j2) == OnlyIt(Start(j2, its[j].rem))
IterDrop(j) == OnlyIt(its' = Del(its, j))
Firsts(items) == [i \in 1..Len(items) |-> items[i][1]]
Drain(j, items)     == IsRun(rank, its[j].rem, Firsts(items)) /\ OnlyIt(its' = Del(its, j))
DrainBack(j, items) == IsRunBack(rank, its[j].rem, Firsts(items)) /\ OnlyIt(its' = Del(its, j))
\* folding interrupted by a panic of the closure at the last item shown
CutFold(j, items) ==
    LET s == Elems(Firsts(items)) IN
    /\ s \subseteq its[j].rem /\ Cardinality(s) = Len(items) /\ Ascending(rank, Firsts(items))
    /\ {x \in s : \E y \in its[j].rem \ s : rank[x] > rank[y]} = {}
    /\ OnlyIt(its' = Del(its, j))
CutFoldBack(j, items) ==
    LET s == Elems(Firsts(items)) IN
    /\ s \subseteq its[j].rem /\ Cardinality(s) = Len(items) /\ Descending(rank, Firsts(items))
    /\ {x \in s : \E y \in its[j].rem \ s : rank[x] < rank[y]} = {}
    /\ OnlyIt(its' = Del(its, j))
\* looking at an iterator without consuming it (debug output)
Peek(j, items) == IsRun(rank, its[j].rem, Firsts(items)) /\ Idle
Count(j, r) == r = Cardinality(its[j].rem) /\ OnlyIt(its' = Del(its, j))
Last(j, r) ==
    /\ IF its[j].rem = {} THEN r = <<>> ELSE r # <<>> /\ IsLast(rank, its[j].rem, r[1])
    /\ OnlyIt(its' = Del(its, j))
\* searching until key `want` is met; seen: what the predicate saw
FindRun(j, want, seen, r, back) ==
    LET n   == Len(seen)
        ks  == Firsts(seen)
        s   == Elems(ks)
        rem == its[j].rem
    IN /\ s \subseteq rem /\ Cardinality(s) = n
       /\ IF back THEN Descending(rank, ks) ELSE Ascending(rank, ks)
       /\ {x \in s : \E y \in rem \ s : IF back THEN rank[x] < rank[y] ELSE rank[x] > rank[y]} = {}
       /\ {i \in 1..n : ks[i] = want} = (IF want \in rem THEN {n} ELSE {})
       /\ IF want \in rem THEN r = <<want>> ELSE r = <<>> /\ s = rem
       /\ Cut(j, s)
\* p: where the item is, counted from the front of what remained (rposition) or
\* by the items seen
FindAt(j, want, seen, how, p) ==
    p = IF want \notin its[j].rem THEN 0
        ELSE IF how = "rposition" THEN Cardinality(its[j].rem) + 1 - Len(seen) ELSE Len(seen)
Find(j, want, seen, r, p) == FindRun(j, want, seen, r, FALSE) /\ FindAt(j, want, seen, "", p)
FindBack(j, want, seen, r, how, p) == FindRun(j, want, seen, r, TRUE) /\ FindAt(j, want, seen, how, p)

SetTypeOK == \A o \in DOMAIN sets : sets[o] \subseteq Keys
=============================================================================
