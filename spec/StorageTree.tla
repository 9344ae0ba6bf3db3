----------------------------- MODULE StorageTree -----------------------------
(***************************************************************************)
(* How the library stores a map, as a design: a tree that follows the key  *)
(* type.                                                                   *)
(*   enum of unit variants   one cell per variant                          *)
(*   bool                    a cell for true and one for false             *)
(*   ()                      one cell                                      *)
(*   Option<A>               the tree of A and a cell for None             *)
(*   dynamic (str, u32, ..)  a table of the keys present                   *)
(*   enum with payloads      one cell or tree per variant                  *)
(* Every operation is written as the recursion the code performs.  The     *)
(* claims: over every key type of bounded shape and every content, each    *)
(* step is the corresponding step of the flat FixedMap (and, with the      *)
(* values forgotten, of FixedSet) with the same answer, and the tree       *)
(* iterators are cursors over the promised order.                          *)
(***************************************************************************)
EXTENDS KeySpace, Integers, TLC, FiniteSetsExt, Json, IOUtils
CONSTANTS Depth, Lo, Hi,  \* key types explored: depth, least and greatest size
          NV,      \* values 1..NV
          Parts    \* what is explored: "core", "retain", "entry", "iter", "two"
VARIABLES T, st, cur, en, op, r,
          \* (computed once: the way to every key, the promised order, and what
          \* the trees stand for)
          way, rk, flat
sv == <<T, st, cur, en, op, r, way, rk, flat>>

NoFn == [x \in {} |-> 0]
Absent == 0

\* key types of bounded shape and size
Leaves == {[t |-> "bool"], [t |-> "one"], [t |-> "units", n |-> 0], [t |-> "units", n |-> 2], [t |-> "dyn", n |-> 2]}
RECURSIVE Terms(_)
Terms(d) ==
    IF d = 0 THEN Leaves
    ELSE LET P == Terms(d - 1)
             V == P \cup {[t |-> "unit"]}
         IN P \cup {[t |-> "opt", a |-> x] : x \in P}
              \cup {[t |-> "enum", f |-> <<x>>] : x \in V}
              \cup {[t |-> "enum", f |-> <<x, y>>] : x \in V, y \in V}
\* the ones with a size between Lo and Hi
Small(d, lo, hi) == {t \in Terms(d) : Size(t) >= lo /\ Size(t) <= hi}
\* and deeper ones, handed in
Given == IF "TERMS" \in DOMAIN IOEnv THEN LET s == JsonDeserialize(IOEnv.TERMS) IN {s[i] : i \in DOMAIN s} ELSE {}

-----------------------------------------------------------------------------
(* The tree *)
RECURSIVE SEmpty(_)
SEmpty(t) ==
    CASE t.t \in {"unit", "one"} -> <<"cell", Absent>>
      [] t.t = "bool"  -> <<"bool", Absent, Absent>>
      [] t.t = "units" -> <<"array", [i \in 1..t.n |-> Absent]>>
      [] t.t = "dyn"   -> <<"table", NoFn>>
      [] t.t = "opt"   -> <<"option", SEmpty(t.a), Absent>>
      [] t.t = "enum"  -> <<"fields", [i \in 1..Len(t.f) |-> SEmpty(t.f[i])]>>

\* which variant key k belongs to, and how many keys come before that variant
RECURSIVE Off(_, _)
Off(f, i) == IF i = 1 THEN 0 ELSE Off(f, i - 1) + Size(f[i - 1])
Variant(f, k) == CHOOSE i \in 1..Len(f) : Off(f, i) < k /\ k <= Off(f, i) + Size(f[i])

\* the way from the root to the cell of key k
RECURSIVE Path(_, _)
Path(t, k) ==
    CASE t.t = "enum" -> LET v == Variant(t.f, k) IN <<v>> \o Path(t.f[v], k - Off(t.f, v))
      [] t.t = "opt"  -> IF k <= Size(t.a) THEN <<1>> \o Path(t.a, k) ELSE <<2>>
      [] t.t \in {"unit", "one"} -> <<>>
      [] OTHER -> <<k>>
RECURSIVE PGet(_, _), PSet(_, _, _)
PGet(s, p) ==
    CASE s[1] = "cell"   -> s[2]
      [] s[1] = "bool"   -> s[p[1] + 1]
      [] s[1] = "array"  -> s[2][p[1]]
      [] s[1] = "table"  -> IF p[1] \in DOMAIN s[2] THEN s[2][p[1]] ELSE Absent
      [] s[1] = "option" -> IF p[1] = 2 THEN s[3] ELSE PGet(s[2], Tail(p))
      [] s[1] = "fields" -> PGet(s[2][p[1]], Tail(p))
PSet(s, p, v) ==
    CASE s[1] = "cell"   -> <<"cell", v>>
      [] s[1] = "bool"   -> [s EXCEPT ![p[1] + 1] = v]
      [] s[1] = "array"  -> [s EXCEPT ![2][p[1]] = v]
      [] s[1] = "table"  -> IF v = Absent THEN <<"table", [x \in DOMAIN s[2] \ {p[1]} |-> s[2][x]]>>
                            ELSE <<"table", (p[1] :> v) @@ s[2]>>
      [] s[1] = "option" -> IF p[1] = 2 THEN [s EXCEPT ![3] = v] ELSE [s EXCEPT ![2] = PSet(s[2], Tail(p), v)]
      [] s[1] = "fields" -> [s EXCEPT ![2][p[1]] = PSet(s[2][p[1]], Tail(p), v)]
Bit(b) == IF b THEN 1 ELSE 0

\* length, emptiness and equality, tree by tree
RECURSIVE SLen(_), SLenF(_, _), SIsEmpty(_), SEq(_, _)
SLen(s) ==
    CASE s[1] = "cell"   -> Bit(s[2] # Absent)
      [] s[1] = "bool"   -> Bit(s[2] # Absent) + Bit(s[3] # Absent)
      [] s[1] = "array"  -> Cardinality({i \in DOMAIN s[2] : s[2][i] # Absent})
      [] s[1] = "table"  -> Cardinality(DOMAIN s[2])
      [] s[1] = "option" -> SLen(s[2]) + Bit(s[3] # Absent)
      [] s[1] = "fields" -> SLenF(s[2], 1)
SLenF(f, i) == IF i > Len(f) THEN 0 ELSE SLen(f[i]) + SLenF(f, i + 1)
SIsEmpty(s) ==
    CASE s[1] = "cell"   -> s[2] = Absent
      [] s[1] = "bool"   -> s[2] = Absent /\ s[3] = Absent
      [] s[1] = "array"  -> \A i \in DOMAIN s[2] : s[2][i] = Absent
      [] s[1] = "table"  -> DOMAIN s[2] = {}
      [] s[1] = "option" -> SIsEmpty(s[2]) /\ s[3] = Absent
      [] s[1] = "fields" -> \A i \in DOMAIN s[2] : SIsEmpty(s[2][i])
SEq(a, b) ==
    CASE a[1] \in {"cell", "bool", "array"} -> a = b
      [] a[1] = "table"  -> Cardinality(DOMAIN a[2]) = Cardinality(DOMAIN b[2])
                            /\ \A x \in DOMAIN a[2] : x \in DOMAIN b[2] /\ a[2][x] = b[2][x]
      [] a[1] = "option" -> SEq(a[2], b[2]) /\ a[3] = b[3]
      [] a[1] = "fields" -> \A i \in DOMAIN a[2] : SEq(a[2][i], b[2][i])

\* retain: the recursion offers the present cells one by one; `keep` is what
\* the predicate will say, `o` the number of keys before this tree.  Result:
\* <<tree, calls>>; a table offers its keys in an order of its own (here:
\* from the back)
RECURSIVE SRetain(_, _, _, _), SRetainF(_, _, _, _, _), Down(_)
Down(s) == IF s = {} THEN <<>> ELSE LET x == Max(s) IN <<x>> \o Down(s \ {x})
One(v, k, keep) == IF v = Absent THEN <<Absent, <<>>>>
                   ELSE <<IF k \in keep THEN v ELSE Absent, <<<<k, v, Bit(k \in keep), v>>>>>>
RECURSIVE Cells(_, _, _, _)
Cells(a, i, o, keep) == IF i > Len(a) THEN <<<<>>, <<>>>>
                        ELSE LET x == One(a[i], o + i, keep) y == Cells(a, i + 1, o, keep)
                             IN <<<<x[1]>> \o y[1], x[2] \o y[2]>>
SRetain(t, s, o, keep) ==
    CASE s[1] = "cell"   -> LET x == One(s[2], o + 1, keep) IN <<<<"cell", x[1]>>, x[2]>>
      [] s[1] = "bool"   -> LET x == One(s[2], o + 1, keep) y == One(s[3], o + 2, keep) IN <<<<"bool", x[1], y[1]>>, x[2] \o y[2]>>
      [] s[1] = "array"  -> LET x == Cells(s[2], 1, o, keep) IN <<<<"array", x[1]>>, x[2]>>
      [] s[1] = "table"  -> LET d == Down(DOMAIN s[2]) IN
                            <<<<"table", [x \in {y \in DOMAIN s[2] : o + y \in keep} |-> s[2][x]]>>,
                              [i \in 1..Len(d) |-> One(s[2][d[i]], o + d[i], keep)[2][1]]>>
      [] s[1] = "option" -> LET x == SRetain(t.a, s[2], o, keep) y == One(s[3], o + Size(t), keep)
                            IN <<<<"option", x[1], y[1]>>, x[2] \o y[2]>>
      [] s[1] = "fields" -> LET x == SRetainF(t.f, s[2], 1, o, keep) IN <<<<"fields", x[1]>>, x[2]>>
SRetainF(f, s, i, o, keep) ==
    IF i > Len(f) THEN <<<<>>, <<>>>>
    ELSE LET x == SRetain(f[i], s[i], o, keep) y == SRetainF(f, s, i + 1, o + Size(f[i]), keep)
         IN <<<<x[1]>> \o y[1], x[2] \o y[2]>>

-----------------------------------------------------------------------------
(* Tree iterators.                                                           *)
(*   <<"one", c>>             what is left of one cell: <<>> or <<key>>      *)
(*   <<"chain", a, b>>        std's Chain; a half that ended is <<"gone">>   *)
(*   <<"flat", lo, hi, c>>    a slice of cells, empty ones are skipped       *)
(*   <<"hash", s>>            the rest of a table, forward only              *)
(*   <<"multi", i, e, f>>     the generated iterator over variants: `start`, *)
(*                            `end` and the iterators of all variants        *)
(* Keys in them are relative; `o` is what to add.                            *)
Gone == <<"gone">>
Cell1(v) == <<"one", IF v = Absent THEN <<>> ELSE <<1>>>>
RECURSIVE IStart(_)
IStart(s) ==
    CASE s[1] = "cell"   -> Cell1(s[2])
      [] s[1] = "bool"   -> <<"chain", Cell1(s[2]), Cell1(s[3]), 1>>
      [] s[1] = "array"  -> <<"flat", 1, Len(s[2]), [i \in DOMAIN s[2] |-> Bit(s[2][i] # Absent)]>>
      [] s[1] = "table"  -> <<"hash", DOMAIN s[2]>>
      [] s[1] = "option" -> <<"chain", IStart(s[2]), Cell1(s[3]), 0>>
      [] s[1] = "fields" -> <<"multi", 0, Len(s[2]), [i \in DOMAIN s[2] |-> IStart(s[2][i])]>>

\* one step from the front: the set of possible <<key or 0, iterator>>.  t is
\* the key type (for the distance of the second half of a chain).
Halves(t) == IF t.t = "bool" THEN <<[t |-> "unit"], 1>> ELSE <<t.a, Size(t.a)>>
Lift(x, k, w) == IF x[1] = 0 THEN 0 ELSE x[1] + k
RECURSIVE Fwd(_, _), FwdMulti(_, _)
Fwd(t, c) ==
    CASE c[1] = "gone"  -> {<<0, c>>}
      [] c[1] = "one"   -> IF c[2] = <<>> THEN {<<0, c>>} ELSE {<<1, <<"one", <<>>>>>>}
      [] c[1] = "flat"  -> LET lo == c[2] hi == c[3]
                               hits == {i \in lo..hi : c[4][i] = 1}
                           IN IF hits = {} THEN {<<0, <<"flat", hi + 1, hi, c[4]>>>>}
                              ELSE {<<Min(hits), <<"flat", Min(hits) + 1, hi, c[4]>>>>}
      [] c[1] = "hash"  -> IF c[2] = {} THEN {<<0, c>>} ELSE {<<k, <<"hash", c[2] \ {k}>>>> : k \in c[2]}
      [] c[1] = "chain" ->
           LET h == Halves(t)
               second == {<<IF y[1] = 0 THEN 0 ELSE y[1] + h[2], <<"chain", Gone, y[2], c[4]>>>> : y \in Fwd([t |-> "unit"], c[3])}
           IN IF c[2] = Gone THEN second
              ELSE UNION {IF x[1] = 0 THEN second ELSE {<<x[1], <<"chain", x[2], c[3], c[4]>>>>} : x \in Fwd(h[1], c[2])}
      [] c[1] = "multi" -> FwdMulti(t, c)
\* while start < end { match start { i => if let Some(v) = field_i.next() ..; start = min(start + 1, end) }
FwdMulti(t, c) ==
    IF ~(c[2] < c[3]) THEN {<<0, c>>}
    ELSE LET i == c[2] + 1 IN
         UNION {LET f == [c[4] EXCEPT ![i] = x[2]] IN
                IF x[1] # 0 THEN {<<Off(t.f, i) + x[1], <<"multi", c[2], c[3], f>>>>}
                ELSE FwdMulti(t, <<"multi", Min({c[2] + 1, c[3]}), c[3], f>>) : x \in Fwd(t.f[i], c[4][i])}
RECURSIVE Bwd(_, _), BwdMulti(_, _)
Bwd(t, c) ==
    CASE c[1] = "gone"  -> {<<0, c>>}
      [] c[1] = "one"   -> IF c[2] = <<>> THEN {<<0, c>>} ELSE {<<1, <<"one", <<>>>>>>}
      [] c[1] = "flat"  -> LET lo == c[2] hi == c[3]
                               hits == {i \in lo..hi : c[4][i] = 1}
                           IN IF hits = {} THEN {<<0, <<"flat", lo, lo - 1, c[4]>>>>}
                              ELSE {<<Max(hits), <<"flat", lo, Max(hits) - 1, c[4]>>>>}
      [] c[1] = "chain" ->
           LET h == Halves(t)
               first == {<<x[1], <<"chain", x[2], Gone, c[4]>>>> : x \in Bwd(h[1], c[2])}
           IN IF c[3] = Gone THEN first
              ELSE UNION {IF y[1] = 0 THEN first ELSE {<<y[1] + h[2], <<"chain", c[2], y[2], c[4]>>>>} : y \in Bwd([t |-> "unit"], c[3])}
      [] c[1] = "multi" -> BwdMulti(t, c)
BwdMulti(t, c) ==
    IF ~(c[2] < c[3]) THEN {<<0, c>>}
    ELSE LET i == c[3] IN
         UNION {LET f == [c[4] EXCEPT ![i] = x[2]] IN
                IF x[1] # 0 THEN {<<Off(t.f, i) + x[1], <<"multi", c[2], c[3], f>>>>}
                ELSE BwdMulti(t, <<"multi", c[2], Max({c[3] - 1, c[2]}), f>>) : x \in Bwd(t.f[i], c[4][i])}

\* the keys a tree iterator still stands for
RECURSIVE Rem(_, _)
Shift(s, d) == {x + d : x \in s}
Rem(t, c) ==
    CASE c[1] = "gone"  -> {}
      [] c[1] = "one"   -> {1 : x \in {y \in {1} : c[2] # <<>>}}
      [] c[1] = "flat"  -> {i \in c[2]..c[3] : c[4][i] = 1}
      [] c[1] = "hash"  -> c[2]
      [] c[1] = "chain" -> LET h == Halves(t) IN Rem(h[1], c[2]) \cup Shift(Rem([t |-> "unit"], c[3]), h[2])
      [] c[1] = "multi" -> UNION {Shift(Rem(t.f[i], c[4][i]), Off(t.f, i)) : i \in (c[2] + 1)..c[3]}
\* its size bounds <<lower, upper>>, upper -1: none
RECURSIVE Bounds(_, _)
Add(x, y) == <<x[1] + y[1], IF x[2] < 0 \/ y[2] < 0 THEN -1 ELSE x[2] + y[2]>>
Bounds(t, c) ==
    CASE c[1] = "gone"  -> <<0, 0>>
      [] c[1] = "one"   -> <<Len(c[2]), Len(c[2])>>
      [] c[1] = "flat"  -> <<0, IF c[3] < c[2] THEN 0 ELSE c[3] - c[2] + 1>>
      [] c[1] = "hash"  -> <<Cardinality(c[2]), Cardinality(c[2])>>
      [] c[1] = "chain" -> Add(Bounds(Halves(t)[1], c[2]), Bounds([t |-> "unit"], c[3]))
      [] c[1] = "multi" -> <<0, -1>>

-----------------------------------------------------------------------------
(* The machine *)
NoCur == <<"none">>
NoEn == <<"none">>
Slots == IF "two" \in Parts THEN {1, 2} ELSE {1}
Flatten(s) == [o \in Slots |-> TLCEval([k \in DOMAIN way |-> PGet(s[o], way[k])])]
Do(o, x) == op' = o /\ r' = x /\ UNCHANGED <<T, way, rk>> /\ flat' = Flatten(st')
RECURSIVE Fill(_, _, _)
Fill(s, m, k) == IF k = 0 THEN s ELSE Fill(PSet(s, way[k], m[k]), m, k - 1)
\* the tree with content m
Tree(m) == Fill(SEmpty(T), m, Size(T))
Init ==
    /\ T \in Small(Depth, Lo, Hi) \cup Given
    /\ way = [k \in 1..Size(T) |-> Path(T, k)] /\ rk = Ranks(T)
    /\ IF "core" \in Parts THEN st = [o \in Slots |-> SEmpty(T)]
       ELSE \E m \in [Slots -> [1..Size(T) -> 0..NV]] : st = [o \in Slots |-> Tree(m[o])]
    /\ cur = NoCur /\ en = NoEn
    /\ op = <<"init">> /\ r = <<>> /\ flat = Flatten(st)
Keys == DOMAIN way
Free == cur = NoCur /\ en = NoEn /\ UNCHANGED <<cur, en>>
Set(o, s) == st' = [st EXCEPT ![o] = s]
Core(o) ==
    \/ \E k \in Keys : LET p == way[k] IN
       \/ \E v \in 1..NV : Set(o, PSet(st[o], p, v)) /\ Do(<<"insert", o, k, v>>, PGet(st[o], p))
       \/ Set(o, PSet(st[o], p, Absent)) /\ Do(<<"remove", o, k>>, PGet(st[o], p))
       \/ UNCHANGED st /\ Do(<<"get", o, k>>, PGet(st[o], p))
       \/ UNCHANGED st /\ Do(<<"contains", o, k>>, PGet(st[o], p) # Absent)
    \/ Set(o, SEmpty(T)) /\ Do(<<"clear", o>>, 0)
    \/ UNCHANGED st /\ Do(<<"len", o>>, SLen(st[o]))
    \/ UNCHANGED st /\ Do(<<"empty", o>>, SIsEmpty(st[o]))
Filter(o) == \E keep \in SUBSET Keys : LET x == SRetain(T, st[o], 0, keep) IN Set(o, x[1]) /\ Do(<<"retain", o>>, x[2])
Both(o) ==
    \/ Set(3 - o, st[o]) /\ Do(<<"clone", o>>, 0)
    \/ UNCHANGED st /\ Do(<<"eq", o>>, SEq(st[o], st[3 - o]))
\* an entry is the way to one cell: <<slot, way, key, state>>
Entry(o) ==
    \/ \E k \in Keys : en = NoEn /\ en' = <<o, way[k], k, "entry">> /\ UNCHANGED <<st, cur>>
                       /\ Do(<<"e_open", o, k>>, PGet(st[o], way[k]) # Absent)
    \/ en # NoEn /\ en[1] = o /\ UNCHANGED cur /\ LET s == st[o] p == en[2] c == PGet(s, p) to(x) == en' = [en EXCEPT ![4] = x] IN
       \/ en[4] = "entry" /\ UNCHANGED <<st, en>> /\ Do(<<"e_key", o>>, en[3])
       \/ en[4] = "entry" /\ UNCHANGED st /\ to(IF c = Absent THEN "vac" ELSE "occ") /\ Do(<<"e_match", o>>, c # Absent)
       \/ en[4] = "entry" /\ \E v \in 1..NV : Set(o, IF c = Absent THEN PSet(s, p, v) ELSE s) /\ to("ref")
                           /\ Do(<<"e_or", o, v>>, IF c = Absent THEN v ELSE c)
       \/ en[4] = "entry" /\ c # Absent /\ \E v \in 1..NV : Set(o, PSet(s, p, v)) /\ UNCHANGED en /\ Do(<<"e_mod", o, v>>, c)
       \/ en[4] = "occ" /\ UNCHANGED <<st, en>> /\ Do(<<"o_get", o>>, c)
       \/ en[4] = "occ" /\ \E v \in 1..NV : Set(o, PSet(s, p, v)) /\ UNCHANGED en /\ Do(<<"o_insert", o, v>>, c)
       \/ en[4] = "occ" /\ Set(o, PSet(s, p, Absent)) /\ en' = NoEn /\ Do(<<"o_remove", o>>, c)
       \/ en[4] = "occ" /\ UNCHANGED st /\ to("ref") /\ Do(<<"o_into", o>>, c)
       \/ en[4] = "vac" /\ \E v \in 1..NV : Set(o, PSet(s, p, v)) /\ to("ref") /\ Do(<<"v_insert", o, v>>, v)
       \/ en[4] = "ref" /\ \E v \in 1..NV : Set(o, PSet(s, p, v)) /\ UNCHANGED en /\ Do(<<"ref_write", o, v>>, c)
       \/ UNCHANGED st /\ en' = NoEn /\ Do(<<"e_drop", o>>, 0)
Iterate ==
    \/ cur = NoCur /\ cur' = IStart(st[1]) /\ UNCHANGED <<st, en>> /\ Do(<<"iter">>, 0)
    \/ cur # NoCur /\ UNCHANGED <<st, en>> /\
       \/ \E x \in Fwd(T, cur) : cur' = x[2] /\ Do(<<"next">>, x[1])
       \/ ~HasDyn(T) /\ \E x \in Bwd(T, cur) : cur' = x[2] /\ Do(<<"back">>, x[1])
       \/ UNCHANGED cur /\ Do(<<"hint">>, Bounds(T, cur))
       \/ cur' = NoCur /\ Do(<<"idrop">>, 0)
Next ==
    \/ "core" \in Parts /\ Free /\ \E o \in Slots : Core(o)
    \/ "retain" \in Parts /\ Free /\ \E o \in Slots : Filter(o)
    \/ "two" \in Parts /\ Free /\ \E o \in Slots : Both(o)
    \/ "entry" \in Parts /\ cur = NoCur /\ \E o \in Slots : Entry(o)
    \/ "iter" \in Parts /\ en = NoEn /\ Iterate
Spec == Init /\ [][Next]_sv
View == <<T, st, cur, en>>

-----------------------------------------------------------------------------
(* What it stands for *)
AbsIts == IF cur = NoCur THEN NoFn
          ELSE (1 :> [rem |-> Rem(T, cur)])
M == INSTANCE FixedMap WITH
        rank <- rk,
        maps <- flat,
        its  <- NoFn,
        ent  <- IF en = NoEn THEN [st |-> "none"] ELSE [st |-> en[4], o |-> en[1], k |-> en[3]]
S == INSTANCE FixedSet WITH
        rank <- rk,
        sets <- [o \in Slots |-> {k \in Keys : flat[o][k] # Absent}],
        its  <- AbsIts
Item == IF r' = 0 THEN <<>> ELSE <<r'>>
MapStep == [][
    CASE op'[1] = "insert"   -> M!Insert(op'[2], op'[3], op'[4], r')
      [] op'[1] = "remove"   -> M!Remove(op'[2], op'[3], r')
      [] op'[1] = "get"      -> M!Get(op'[2], op'[3], r')
      [] op'[1] = "contains" -> M!Contains(op'[2], op'[3], r')
      [] op'[1] = "clear"    -> M!Clear(op'[2])
      [] op'[1] = "len"      -> M!MapLen(op'[2], r')
      [] op'[1] = "empty"    -> M!MapIsEmpty(op'[2], r')
      [] op'[1] = "retain"   -> M!Retain(op'[2], r')
      [] op'[1] = "clone"    -> M!Clone(op'[2], 3 - op'[2])
      [] op'[1] = "eq"       -> M!Equal(op'[2], 3 - op'[2], r', ~r')
      [] op'[1] = "e_open"   -> M!EntryOpen(op'[2], op'[3], r')
      [] op'[1] = "e_key"    -> M!EntryKey(r')
      [] op'[1] = "e_match"  -> M!EntryMatch(r')
      [] op'[1] = "e_or"     -> M!OrInsert("plain", op'[3], 0, 0, r')
      [] op'[1] = "o_get"    -> M!OccGet(r')
      [] op'[1] = "o_insert" -> M!OccInsert(op'[3], r')
      [] op'[1] = "o_remove" -> M!OccRemove(r')
      [] op'[1] = "o_into"   -> M!OccIntoMut(r')
      [] op'[1] = "v_insert" -> M!VacInsert(op'[3], r')
      [] op'[1] = "ref_write" -> M!RefWrite(r', op'[3])
      [] op'[1] = "e_mod"    -> M!AndModify(1, r', op'[3])
      [] op'[1] = "e_drop"   -> M!EntryDrop
      [] op'[1] \in {"iter", "next", "back", "hint", "idrop"} -> M!Idle
      [] OTHER -> FALSE ]_sv
SetStep == [][
    CASE op'[1] = "insert"   -> r' # Absent \/ S!Insert(op'[2], op'[3], TRUE)
      [] op'[1] = "remove"   -> S!Remove(op'[2], op'[3], r' # Absent)
      [] op'[1] = "contains" -> S!Contains(op'[2], op'[3], r')
      [] op'[1] = "clear"    -> S!Clear(op'[2])
      [] op'[1] = "len"      -> S!SetLen(op'[2], r')
      [] op'[1] = "empty"    -> S!SetIsEmpty(op'[2], r')
      [] op'[1] = "retain"   -> S!Retain(op'[2], [i \in 1..Len(r') |-> <<r'[i][1], r'[i][3]>>])
      [] op'[1] = "clone"    -> S!Clone(op'[2], 3 - op'[2])
      [] op'[1] = "iter"     -> S!IterNew(1, 1, "iter")
      [] op'[1] = "next"     -> S!Next1(1, Item)
      [] op'[1] = "back"     -> S!NextBack1(1, Item)
      [] op'[1] = "hint"     -> S!SizeHint(1, r'[1], r'[2])
      [] op'[1] = "idrop"    -> S!IterDrop(1)
      [] OTHER -> TRUE ]_sv

\* no two keys share a cell, and every way leads to a cell of its own
LawPaths == op[1] = "init" => \A a, b \in Keys : way[a] = way[b] => a = b
\* the bounds are exact for the storages that promise it
LawLen == \A o \in Slots : SLen(st[o]) = Cardinality({k \in Keys : flat[o][k] # Absent})
LawDry == (cur # NoCur /\ Rem(T, cur) = {}) => \A x \in Fwd(T, cur) : x[1] = 0 /\ Rem(T, x[2]) = {}
=============================================================================
