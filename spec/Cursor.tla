------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* Double-ended iteration over a set of remaining keys.  `rank` is the     *)
(* promised order, `rem` the set of keys still to be yielded.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt

\* May `k` be the next key from the front / the back?
IsFirst(rank, rem, k) == k \in rem /\ \A x \in rem : rank[k] <= rank[x]
IsLast(rank, rem, k)  == k \in rem /\ \A x \in rem : rank[k] >= rank[x]

\* Every set of c keys that may be skipped from the front / back: the blocks
\* (keys of equal rank) that fit entirely, and any choice from the next block.
Below(rank, rem, x) == Cardinality({y \in rem : rank[y] < rank[x]})
UpTo(rank, rem, x)  == Cardinality({y \in rem : rank[y] <= rank[x]})
Prefixes(rank, rem, c) ==
    IF c = 0 THEN {{}}
    ELSE IF c >= Cardinality(rem) THEN {rem}
    ELSE LET whole == {x \in rem : UpTo(rank, rem, x) <= c}
             edge  == {x \in rem : Below(rank, rem, x) < c} \ whole
         IN IF edge = {} THEN {whole} ELSE {whole \cup p : p \in kSubset(c - Cardinality(whole), edge)}
Above(rank, rem, x)  == Cardinality({y \in rem : rank[y] > rank[x]})
DownTo(rank, rem, x) == Cardinality({y \in rem : rank[y] >= rank[x]})
Suffixes(rank, rem, c) ==
    IF c = 0 THEN {{}}
    ELSE IF c >= Cardinality(rem) THEN {rem}
    ELSE LET whole == {x \in rem : DownTo(rank, rem, x) <= c}
             edge  == {x \in rem : Above(rank, rem, x) < c} \ whole
         IN IF edge = {} THEN {whole} ELSE {whole \cup p : p \in kSubset(c - Cardinality(whole), edge)}

\* `ks` lists every remaining key exactly once ...
IsListing(rem, ks) ==
    /\ Len(ks) = Cardinality(rem)
    /\ {ks[i] : i \in 1..Len(ks)} = rem
\* ... in (reverse of) the promised order
Ascending(rank, ks)  == \A i \in 1..(Len(ks) - 1) : rank[ks[i]] <= rank[ks[i + 1]]
Descending(rank, ks) == \A i \in 1..(Len(ks) - 1) : rank[ks[i]] >= rank[ks[i + 1]]
IsRun(rank, rem, ks)  == IsListing(rem, ks) /\ Ascending(rank, ks)
IsRunBack(rank, rem, ks) == IsListing(rem, ks) /\ Descending(rank, ks)

\* lower and upper size bounds (upper < 0: no upper bound)
BoundsOk(rem, lo, hi) == lo <= Cardinality(rem) /\ (hi < 0 \/ Cardinality(rem) <= hi)
=============================================================================
