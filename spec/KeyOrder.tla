------------------------------ MODULE KeyOrder ------------------------------
(***************************************************************************)
(* The recursive order of keys, over every key-type term of bounded depth  *)
(* (small fan-out): the laws stated in the property.                       *)
(***************************************************************************)
EXTENDS KeySpace, FiniteSetsExt
CONSTANTS Depth
VARIABLE T
Leaves == {[t |-> "bool"], [t |-> "one"], [t |-> "units", n |-> 0], [t |-> "units", n |-> 2], [t |-> "dyn", n |-> 2]}
RECURSIVE Terms(_)
Terms(d) ==
    IF d = 0 THEN Leaves
    ELSE LET S == Terms(d - 1)
             V == S \cup {[t |-> "unit"]}
         IN S \cup {[t |-> "opt", a |-> x] : x \in S}
              \cup {[t |-> "enum", f |-> <<x>>] : x \in V}
              \cup {[t |-> "enum", f |-> <<x, y>>] : x \in V, y \in V}
Init == T \in Terms(Depth)
Next == UNCHANGED T
Spec == Init /\ [][Next]_T

R == Ranks(T)
LawSize == Len(R) = Size(T)
\* without dynamic blocks the order is total and is the numbering itself
LawTotal == ~HasDyn(T) => \A i \in DOMAIN R : R[i] = i
\* positions never decrease, and leave no gaps (so blocks stay together)
LawContiguous == \A i \in DOMAIN R : IF i = 1 THEN R[1] = 1 ELSE R[i] \in {R[i - 1], R[i - 1] + 1}
\* the keys of one variant are a block, in the order of the payload type
RECURSIVE Off(_, _)
Off(f, i) == IF i = 1 THEN 0 ELSE Off(f, i - 1) + Size(f[i - 1])
LawNested == T.t = "enum" => \A v \in 1..Len(T.f) :
    LET o == Off(T.f, v)  P == Ranks(T.f[v]) IN
    /\ \A i, j \in DOMAIN P : P[i] < P[j] <=> R[o + i] < R[o + j]
    /\ \A i \in DOMAIN P, x \in 1..o : R[x] < R[o + i]
LawBool == T.t = "bool" => R = <<1, 2>>
LawOption == T.t = "opt" =>
    /\ \A i \in DOMAIN Ranks(T.a) : R[i] = Ranks(T.a)[i] /\ R[i] < R[Len(R)]
=============================================================================
