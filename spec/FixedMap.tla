------------------------------ MODULE FixedMap ------------------------------
(***************************************************************************)
(* The observable behaviour of fixed_map::Map: every public call is one    *)
(* action, parameterised by its arguments and by what it returned.         *)
(*                                                                         *)
(* maps[o] is the abstract content of map slot o: a function from key      *)
(* numbers to values, 0 meaning "absent".  its[j] is an iterator, ent the  *)
(* entry being completed.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Cursor

VARIABLES rank,   \* promised order of the keys of the key type in use
          maps,   \* live maps: slot -> [1..n -> Nat]
          its,    \* live iterators: id -> record
          ent     \* entry in progress

mvars == <<rank, maps, its, ent>>

N == Len(rank)
Keys == 1..N
Absent == 0
NoEnt == [st |-> "none"]
NoFn == [x \in {} |-> 0]

EmptyMap == [k \in Keys |-> Absent]
Dom(m) == {k \in DOMAIN m : m[k] # Absent}
Put(f, x, y) == (x :> y) @@ f
Del(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]

\* a sequence of [key, value] pairs as a partial function, last pair wins
RECURSIVE Build(_, _, _)
Build(m, s, i) == IF i > Len(s) THEN m ELSE Build([m EXCEPT ![s[i][1]] = s[i][2]], s, i + 1)
KeysOf(s) == [i \in 1..Len(s) |-> s[i][1]]
ValsOf(s) == [i \in 1..Len(s) |-> s[i][2]]
WellKeyed(s) == \A i \in 1..Len(s) : s[i][1] \in Keys

MapInit == rank = <<>> /\ maps = NoFn /\ its = NoFn /\ ent = NoEnt

Begin(rk) == rank' = rk /\ maps' = NoFn /\ its' = NoFn /\ ent' = NoEnt

Only(x) == x /\ UNCHANGED <<rank, its, ent>>
Idle == UNCHANGED mvars

-----------------------------------------------------------------------------
(* Construction, mutation and lookup *)

New(o)          == Only(maps' = Put(maps, o, EmptyMap))
DropMap(o)      == Only(o \in DOMAIN maps /\ maps' = Del(maps, o))
Insert(o, k, v, r) ==
    /\ k \in Keys /\ v # Absent /\ r = maps[o][k]
    /\ Only(maps' = [maps EXCEPT ![o] = [@ EXCEPT ![k] = v]])
Remove(o, k, r) ==
    /\ k \in Keys /\ r = maps[o][k]
    /\ Only(maps' = [maps EXCEPT ![o] = [@ EXCEPT ![k] = Absent]])
Get(o, k, r)      == k \in Keys /\ r = maps[o][k] /\ Idle
Contains(o, k, r) == k \in Keys /\ r = (maps[o][k] # Absent) /\ Idle
\* get_mut: r is the value seen through the reference; w (if not 0) is written
GetMut(o, k, r, w) ==
    /\ k \in Keys /\ r = maps[o][k]
    /\ Only(maps' = [maps EXCEPT ![o] = [@ EXCEPT ![k] = IF r # Absent /\ w # 0 THEN w ELSE r]])
Clear(o) == Only(maps' = [maps EXCEPT ![o] = EmptyMap])

\* look every key up: g lists [k, value] of the successful lookups, c the
\* keys reported as contained
Snap(o, g, c) ==
    /\ WellKeyed(g) /\ IsListing(Dom(maps[o]), KeysOf(g))
    /\ \A i \in 1..Len(g) : g[i][2] = maps[o][g[i][1]]
    /\ IsListing(Dom(maps[o]), c)
    /\ Idle
\* adopt what the lookups report as the state (for properties about
\* agreement with the lookups)
Adopt(o, g) == WellKeyed(g) /\ Only(maps' = Put(maps, o, Build(EmptyMap, g, 1)))

-----------------------------------------------------------------------------
(* Whole-map views *)

MapLen(o, r)     == r = Cardinality(Dom(maps[o])) /\ Idle
MapIsEmpty(o, r) == r = (Dom(maps[o]) = {}) /\ Idle

EntriesOf(m, s) == WellKeyed(s) /\ IsListing(Dom(m), KeysOf(s)) /\ \A i \in 1..Len(s) : s[i][2] = m[s[i][1]]
\* values v are those of the distinct keys present, as a multiset
ValuesOf(m, s) ==
    /\ Len(s) = Cardinality(Dom(m))
    /\ \A x \in {s[i] : i \in 1..Len(s)} \cup {m[k] : k \in Dom(m)} :
         Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({k \in Dom(m) : m[k] = x})

\* views: entries e, keys ks, values vs of the same unchanged map
Views(o, e, ks, vs) ==
    /\ EntriesOf(maps[o], e) /\ ks = KeysOf(e) /\ vs = ValsOf(e) /\ Idle
ViewEntries(o, e) == EntriesOf(maps[o], e) /\ Idle
ViewValues(o, vs) == ValuesOf(maps[o], vs) /\ Idle
\* the owning iterator consumes the map
Consume(o, e) == EntriesOf(maps[o], e) /\ Only(maps' = Del(maps, o))

\* consuming in order
OrdConsume(o, e) == EntriesOf(maps[o], e) /\ Ascending(rank, KeysOf(e)) /\ Only(maps' = Del(maps, o))

\* the same with the promised order (values here are pairwise distinct,
\* so they identify their keys)
KeyOfVal(m, v) == CHOOSE k \in Dom(m) : m[k] = v
OrdEntries(o, e) == EntriesOf(maps[o], e) /\ Ascending(rank, KeysOf(e)) /\ Idle
OrdKeys(o, ks)   == IsRun(rank, Dom(maps[o]), ks) /\ Idle
OrdValues(o, vs) ==
    /\ ValuesOf(maps[o], vs)
    /\ Ascending(rank, [i \in 1..Len(vs) |-> KeyOfVal(maps[o], vs[i])])
    /\ Idle
RevEntries(o, e) == EntriesOf(maps[o], e) /\ Descending(rank, KeysOf(e)) /\ Idle
RevKeys(o, ks)   == IsRunBack(rank, Dom(maps[o]), ks) /\ Idle
RevValues(o, vs) ==
    /\ ValuesOf(maps[o], vs)
    /\ Descending(rank, [i \in 1..Len(vs) |-> KeyOfVal(maps[o], vs[i])])
    /\ Idle

-----------------------------------------------------------------------------
(* Filtering.  vis: one <<k, v, keep, w>> per predicate call: the key and    *)
(* value it saw, what it answered (1/0), the value it left behind.           *)

VisitsOk(m, vis) ==
    /\ WellKeyed(vis)
    /\ Cardinality({vis[i][1] : i \in 1..Len(vis)}) = Len(vis)   \* no key twice
    /\ {i \in 1..Len(vis) : m[vis[i][1]] = Absent \/ vis[i][2] # m[vis[i][1]]} = {}
Visited(vis) == {vis[i][1] : i \in 1..Len(vis)}
VisitOf(vis, k) == vis[CHOOSE i \in 1..Len(vis) : vis[i][1] = k]

Retain(o, vis) ==
    /\ VisitsOk(maps[o], vis) /\ Visited(vis) = Dom(maps[o])
    /\ Only(maps' = [maps EXCEPT ![o] =
          [k \in Keys |-> IF k \in Visited(vis) /\ VisitOf(vis, k)[3] = 1 THEN VisitOf(vis, k)[4] ELSE Absent]])

\* the predicate panicked at its last call; post lists what lookups find
\* afterwards.  Keys already rejected may or may not be gone.
RetainPanic(o, vis, post) ==
    /\ vis # <<>> /\ VisitsOk(maps[o], vis) /\ WellKeyed(post)
    /\ LET m == maps[o]
           p == Build(EmptyMap, post, 1)
           cut == vis[Len(vis)][1]
       IN /\ \A k \in Keys :
               IF k \notin Visited(vis) THEN p[k] = m[k]
               ELSE IF k = cut THEN p[k] = VisitOf(vis, k)[4]
               ELSE IF VisitOf(vis, k)[3] = 1 THEN p[k] = VisitOf(vis, k)[4]
               ELSE p[k] \in {Absent, VisitOf(vis, k)[4]}
          /\ Only(maps' = [maps EXCEPT ![o] = p])

-----------------------------------------------------------------------------
(* Building, cloning, comparing *)

\* all: number of elements the source had (every one must have been taken)
FromSeq(o, s, all) == WellKeyed(s) /\ Len(s) = all /\ Only(maps' = Put(maps, o, Build(EmptyMap, s, 1)))
\* a panic (of the source, a clone, ...) while building: nothing is built
NotBuilt == Idle
Clone(o, o2)  == Only(maps' = Put(maps, o2, maps[o]))
\* when value numbers are identities, a clone holds fresh ones: g lists them
CloneFresh(o, o2, g) ==
    /\ WellKeyed(g) /\ IsListing(Dom(maps[o]), KeysOf(g))
    /\ Only(maps' = Put(maps, o2, Build(EmptyMap, g, 1)))
\* a value that equals nothing, not even itself (as NaN does)
Odd == 1000003
SameContent(o, o2) == maps[o] = maps[o2] /\ \A k \in Keys : maps[o][k] # Odd
Equal(o, o2, eq, ne) == eq = SameContent(o, o2) /\ ne = ~eq /\ Idle
\* hashing: h1, h2 are the two hashes; equal contents hash equally
HashAgree(o, o2, same) == (SameContent(o, o2) => same) /\ Idle

-----------------------------------------------------------------------------
(* Serialization *)

\* serializing announces the exact length n (n = -1 would be "unknown") and
\* writes the entries s in iteration order
SerializeTo(o, n, s) == n = Cardinality(Dom(maps[o])) /\ EntriesOf(maps[o], s) /\ Ascending(rank, KeysOf(s)) /\ Idle
\* deserializing the list s; mal: something in it is malformed
DeserializeFrom(o, s, mal, ok) ==
    /\ ok = ~mal
    /\ IF ok THEN Only(maps' = Put(maps, o, Build(EmptyMap, s, 1))) ELSE Idle
RoundTrip(o, o2, ok) == ok /\ Only(maps' = Put(maps, o2, maps[o]))

-----------------------------------------------------------------------------
(* Iterators.  kind: "iter", "keys", "values", "iter_mut", "values_mut",      *)
(* "into".  An observed item is <<k, v>>, <<k>> or <<v>> by kind, <<>> for    *)
(* "exhausted".                                                               *)

IsMut(kind) == kind \in {"iter_mut", "values_mut"}
ItemOk(it, k, r) ==
    CASE it.kind = "keys" -> r = <<k>>
      [] it.kind \in {"values", "values_mut"} -> r = <<it.m[k]>>
      [] OTHER -> r = <<k, it.m[k]>>
\* the only candidate key for an observed item
KeyOfItem(it, r) ==
    IF r = <<>> THEN {}
    ELSE IF it.kind \in {"values", "values_mut"} THEN {k \in it.rem : it.m[k] = r[1]}
    ELSE {r[1]} \cap it.rem

IterNew(j, o, kind) ==
    /\ j \notin DOMAIN its
    /\ its' = Put(its, j, [o |-> o, kind |-> kind, m |-> maps[o], rem |-> Dom(maps[o]), got |-> <<>>])
    /\ maps' = IF kind = "into" THEN Del(maps, o) ELSE maps
    /\ UNCHANGED <<rank, ent>>

OnlyIt(x) == x /\ UNCHANGED <<rank, maps, ent>>
Take(j, k, sk) == OnlyIt(its' = [its EXCEPT ![j] = [@ EXCEPT !.rem = (@ \ sk) \ {k}, !.got = Append(@, k)]])
Dry(j) == OnlyIt(its' = [its EXCEPT ![j] = [@ EXCEPT !.rem = {}]])

Next1(j, r) ==
    IF its[j].rem = {} THEN r = <<>> /\ Dry(j)
    ELSE \E k \in KeyOfItem(its[j], r) :
           ItemOk(its[j], k, r) /\ IsFirst(rank, its[j].rem, k) /\ Take(j, k, {})
NextBack1(j, r) ==
    IF its[j].rem = {} THEN r = <<>> /\ Dry(j)
    ELSE \E k \in KeyOfItem(its[j], r) :
           ItemOk(its[j], k, r) /\ IsLast(rank, its[j].rem, k) /\ Take(j, k, {})
Nth(j, c, r) ==
    IF Cardinality(its[j].rem) <= c THEN r = <<>> /\ Dry(j)
    ELSE \E sk \in Prefixes(rank, its[j].rem, c) : \E k \in KeyOfItem(its[j], r) \ sk :
           ItemOk(its[j], k, r) /\ IsFirst(rank, its[j].rem \ sk, k) /\ Take(j, k, sk)
NthBack(j, c, r) ==
    IF Cardinality(its[j].rem) <= c THEN r = <<>> /\ Dry(j)
    ELSE \E sk \in Suffixes(rank, its[j].rem, c) : \E k \in KeyOfItem(its[j], r) \ sk :
           ItemOk(its[j], k, r) /\ IsLast(rank, its[j].rem \ sk, k) /\ Take(j, k, sk)
SizeHint(j, lo, hi) == BoundsOk(its[j].rem, lo, hi) /\ Idle
ExactLen(j, r) == r = Cardinality(its[j].rem) /\ Idle
IterClone(j, j2) == j2 \notin DOMAIN its /\ OnlyIt(its' = Put(its, j2, its[j]))
IterDrop(j) == OnlyIt(its' = Del(its, j))
\* consume the rest from the front (fold/for_each/collect) or the back (rfold/rev)
ItemKeys(it, items) == [i \in 1..Len(items) |->
                          LET c == KeyOfItem(it, items[i]) IN IF c = {} THEN 0 ELSE CHOOSE k \in c : TRUE]
\* values alone: the i-th one belongs to the rank the i-th remaining key has
RankRun(s) == LET n == Cardinality(s) IN
    [i \in 1..n |-> CHOOSE r \in {rank[k] : k \in s} :
        /\ Cardinality({k \in s : rank[k] < r}) < i
        /\ Cardinality({k \in s : rank[k] <= r}) >= i]
ValueRun(it, items, back) ==
    LET n  == Cardinality(it.rem)
        rr == RankRun(it.rem)
        at == [i \in 1..n |-> rr[IF back THEN n + 1 - i ELSE i]]
    IN /\ Len(items) = n
       /\ \A i \in 1..n :
            Cardinality({x \in 1..n : at[x] = at[i] /\ items[x] = items[i]})
              = Cardinality({k \in it.rem : rank[k] = at[i] /\ <<it.m[k]>> = items[i]})
\* do values not identify their keys?
Blurred(it) == /\ it.kind \in {"values", "values_mut"}
               /\ Cardinality({it.m[k] : k \in it.rem}) # Cardinality(it.rem)
Whole(it, items, back) ==
    IF Blurred(it) THEN ValueRun(it, items, back)
    ELSE LET ks == ItemKeys(it, items) IN
         /\ IF back THEN IsRunBack(rank, it.rem, ks) ELSE IsRun(rank, it.rem, ks)
         /\ \A i \in 1..Len(items) : ItemOk(it, ks[i], items[i])
Drain(j, items) == Whole(its[j], items, FALSE) /\ OnlyIt(its' = Del(its, j))
DrainBack(j, items) == Whole(its[j], items, TRUE) /\ OnlyIt(its' = Del(its, j))
\* folding interrupted by a panic of the closure at the last item shown
Part(it, items, back) ==
    IF Blurred(it) THEN
        LET n  == Cardinality(it.rem)
            rr == RankRun(it.rem)
            at == [i \in 1..n |-> rr[IF back THEN n + 1 - i ELSE i]]
        IN /\ Len(items) <= n
           /\ \A i \in 1..Len(items) :
                Cardinality({x \in 1..Len(items) : at[x] = at[i] /\ items[x] = items[i]})
                  <= Cardinality({k \in it.rem : rank[k] = at[i] /\ <<it.m[k]>> = items[i]})
    ELSE
        LET ks == ItemKeys(it, items)
            s  == {ks[i] : i \in 1..Len(ks)} IN
        /\ s \subseteq it.rem /\ Cardinality(s) = Len(ks)
        /\ IF back THEN Descending(rank, ks) ELSE Ascending(rank, ks)
        /\ \A i \in 1..Len(items) : ItemOk(it, ks[i], items[i])
        /\ {x \in s : \E y \in it.rem \ s : IF back THEN rank[x] < rank[y] ELSE rank[x] > rank[y]} = {}
Cut(j, items) == Part(its[j], items, FALSE) /\ OnlyIt(its' = Del(its, j))
CutBack(j, items) == Part(its[j], items, TRUE) /\ OnlyIt(its' = Del(its, j))
Count(j, r) == r = Cardinality(its[j].rem) /\ OnlyIt(its' = Del(its, j))
Last(j, r) ==
    /\ IF its[j].rem = {} THEN r = <<>>
       ELSE \E k \in KeyOfItem(its[j], r) : ItemOk(its[j], k, r) /\ IsLast(rank, its[j].rem, k)
    /\ OnlyIt(its' = Del(its, j))
\* searching from the front / back until the item of key `want` is met (find /
\* rfind): the predicate sees the remaining items one by one, `seen` in order,
\* and they are gone afterwards
FindRun(j, want, seen, r, back) ==
    LET it == its[j]
        n  == Len(seen)
        ks == ItemKeys(it, seen)
        s  == {ks[i] : i \in 1..n}
    IN /\ Part(it, seen, back)
       /\ {i \in 1..n : ks[i] = want} = (IF want \in it.rem THEN {n} ELSE {})
       /\ IF want \in it.rem THEN r = seen[n] /\ Take(j, want, s)
          ELSE r = <<>> /\ s = it.rem /\ Dry(j)
\* p: where the item is, counted from the front of what remained (rposition) or
\* by the items seen
FindAt(j, want, seen, how, p) ==
    p = IF want \notin its[j].rem THEN 0
        ELSE IF how = "rposition" THEN Cardinality(its[j].rem) + 1 - Len(seen) ELSE Len(seen)
Find(j, want, seen, r, p) == FindRun(j, want, seen, r, FALSE) /\ FindAt(j, want, seen, "", p)
FindBack(j, want, seen, r, how, p) == FindRun(j, want, seen, r, TRUE) /\ FindAt(j, want, seen, how, p)
\* write w through the i-th item taken from a mutable iterator
Write(j, i, w) ==
    /\ IsMut(its[j].kind) /\ i \in 1..Len(its[j].got) /\ w # 0
    /\ maps' = [maps EXCEPT ![its[j].o] = [@ EXCEPT ![its[j].got[i]] = w]]
    /\ UNCHANGED <<rank, its, ent>>

-----------------------------------------------------------------------------
(* Entries.  ent.st: "entry" (unmatched), "occ", "vac", "ref" (a reference   *)
(* to the stored value was handed out).                                      *)

OnlyEnt(x) == x /\ UNCHANGED <<rank, maps, its>>
Cell == maps[ent.o][ent.k]
SetCell(v) == maps' = [maps EXCEPT ![ent.o] = [@ EXCEPT ![ent.k] = v]]
Goto(s) == ent' = [ent EXCEPT !.st = s]

EntryOpen(o, k, occ) ==
    /\ ent = NoEnt /\ k \in Keys /\ occ = (maps[o][k] # Absent)
    /\ OnlyEnt(ent' = [st |-> "entry", o |-> o, k |-> k])
EntryKey(r) == ent.st \in {"entry", "occ", "vac"} /\ r = ent.k /\ Idle
\* match the entry
EntryMatch(occ) ==
    /\ ent.st = "entry" /\ occ = (Cell # Absent)
    /\ OnlyEnt(Goto(IF occ THEN "occ" ELSE "vac"))
AndModify(called, seen, w) ==
    /\ ent.st = "entry" /\ called = (IF Cell # Absent THEN 1 ELSE 0)
    /\ IF called = 1 THEN seen = Cell /\ SetCell(IF w = 0 THEN seen ELSE w) ELSE UNCHANGED maps
    /\ UNCHANGED <<rank, its, ent>>
\* or_insert and friends: v is the value that would be inserted, called the
\* number of times the supplied function ran, ck the key it was given
OrInsert(how, v, called, ck, r) ==
    /\ ent.st = "entry"
    /\ called = (IF how \in {"with", "with_key", "default"} /\ Cell = Absent THEN 1 ELSE 0)
    /\ ck = (IF how = "with_key" /\ Cell = Absent THEN ent.k ELSE 0)
    /\ r = (IF Cell = Absent THEN v ELSE Cell) /\ r # Absent
    /\ SetCell(r) /\ Goto("ref") /\ UNCHANGED <<rank, its>>
OccGet(r)       == ent.st = "occ" /\ r = Cell /\ Idle
OccGetMut(r, w) == ent.st = "occ" /\ r = Cell /\ SetCell(IF w = 0 THEN r ELSE w) /\ UNCHANGED <<rank, its, ent>>
OccInsert(v, r) == ent.st = "occ" /\ r = Cell /\ v # Absent /\ SetCell(v) /\ UNCHANGED <<rank, its, ent>>
OccRemove(r)    == ent.st = "occ" /\ r = Cell /\ SetCell(Absent) /\ ent' = NoEnt /\ UNCHANGED <<rank, its>>
OccIntoMut(r)   == ent.st = "occ" /\ r = Cell /\ OnlyEnt(Goto("ref"))
VacInsert(v, r) == ent.st = "vac" /\ v # Absent /\ r = v /\ SetCell(v) /\ Goto("ref") /\ UNCHANGED <<rank, its>>
RefWrite(r, w)  == ent.st = "ref" /\ r = Cell /\ w # 0 /\ SetCell(w) /\ UNCHANGED <<rank, its, ent>>
EntryDrop       == ent # NoEnt /\ OnlyEnt(ent' = NoEnt)
\* a supplied function panicked: it had to run then, once, with the right
\* arguments; nothing changes
ModifyPanic(called, seen) == ent.st = "entry" /\ Cell # Absent /\ called = 1 /\ seen = Cell /\ OnlyEnt(ent' = NoEnt)
OrPanic(how, called, ck) ==
    /\ ent.st = "entry" /\ Cell = Absent /\ called = 1 /\ ck = (IF how = "with_key" THEN ent.k ELSE 0)
    /\ OnlyEnt(ent' = NoEnt)

-----------------------------------------------------------------------------
(* A destructor of a value panicked while the library was releasing values   *)
(* in operation `how` on slot o; ms lists <<slot, lookups>> afterwards.  The *)
(* rest may be lost, but what is still there is what was there before (or    *)
(* came in meanwhile: new), in its place, and no other container is touched. *)

BoomKept(how, m, p, vis, new) ==
    CASE how \in {"clear", "drop"} -> \A k \in Keys : p[k] \in {Absent, m[k]}
      [] how = "clone" -> \A k \in Keys : p[k] \in {Absent, m[k]} \cup new
      [] how = "retain" -> \A k \in Keys :
           IF k \notin Visited(vis) THEN p[k] = m[k]
           ELSE IF VisitOf(vis, k)[3] = 1 THEN p[k] = VisitOf(vis, k)[4]
           ELSE p[k] \in {Absent, VisitOf(vis, k)[4]}
      [] how = "entry" -> p = m    \* only the value that was not needed goes
      [] OTHER -> FALSE
Boom(how, o, ms, vis, new) ==
    LET slots == {ms[i][1] : i \in 1..Len(ms)}
        At(s) == Build(EmptyMap, ms[CHOOSE i \in 1..Len(ms) : ms[i][1] = s][2], 1)
    IN /\ \A i \in 1..Len(ms) : WellKeyed(ms[i][2])
       /\ slots \cup {o} = DOMAIN maps \cup {o} /\ slots \subseteq DOMAIN maps
       /\ \A s \in slots \ {o} : At(s) = maps[s]
       /\ IF o \in slots THEN VisitsOk(maps[o], vis) /\ BoomKept(how, maps[o], At(o), vis, new)
          ELSE how \in {"drop", "into", "from", "de"}
       /\ maps' = [s \in slots |-> At(s)]
       /\ ent' = NoEnt /\ UNCHANGED <<rank, its>>

-----------------------------------------------------------------------------
MapTypeOK ==
    /\ \A o \in DOMAIN maps : DOMAIN maps[o] = Keys
    /\ \A j \in DOMAIN its : its[j].rem \subseteq Keys
=============================================================================
