----------------------------- MODULE OrderLaws -----------------------------
(***************************************************************************)
(* The laws of container comparison, over all triples of small containers. *)
(* With Emit the pairs/triples are printed for replay on the real library. *)
(***************************************************************************)
EXTENDS ContainerOrder, TLC, Json
CONSTANTS NK, NV, WithNaN, Emit
VARIABLES a, b, c
v == <<a, b, c>>
Vals == (1..NV) \cup (IF WithNaN THEN {NaN} ELSE {})
RECURSIVE Entries(_, _)
Entries(m, k) == IF k > NK THEN <<>> ELSE (IF m[k] = 0 THEN <<>> ELSE << <<k, m[k]>> >>) \o Entries(m, k + 1)
All == {Entries(m, 1) : m \in [1..NK -> {0} \cup Vals]}
Init == a \in All /\ b \in All /\ c \in All
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
T == ~WithNaN
C(x, y) == Cmp(x, y, T)
LawReflexive == T => C(a, a) = 0
LawAntisym == C(a, b) = (IF C(b, a) = 2 THEN 2 ELSE -C(b, a))
LawEq == T => (C(a, b) = 0 <=> a = b)
LawTotal == T => C(a, b) \in {-1, 0, 1}
LawTrans == (C(a, b) \in {-1, 0} /\ C(b, c) \in {-1, 0}) => C(a, c) \in {-1, 0}
LawStrict == (C(a, b) = -1 /\ C(b, c) = -1) => C(a, c) = -1
\* the first position k at which the containers differ decides: if only one
\* has k, it is smaller exactly when the other has no later key at all or
\* a later one; if both have k, the values decide
Has(x, k) == \E i \in 1..Len(x) : x[i][1] = k
At(x, k) == (CHOOSE i \in 1..Len(x) : x[i][1] = k)
LawFirst == (T /\ a # b) =>
    LET k == CHOOSE q \in 1..NK : /\ Has(a, q) # Has(b, q) \/ (Has(a, q) /\ a[At(a, q)] # b[At(b, q)])
                                  /\ \A r \in 1..(q - 1) : Has(a, r) = Has(b, r) /\ (Has(a, r) => a[At(a, r)] = b[At(b, r)])
        later(x) == \E r \in (k + 1)..NK : Has(x, r)
    IN IF Has(a, k) /\ Has(b, k) THEN C(a, b) = CmpNum(a[At(a, k)][2], b[At(b, k)][2])
       ELSE IF Has(a, k) THEN C(a, b) = (IF later(b) THEN -1 ELSE 1)
       ELSE C(a, b) = (IF later(a) THEN 1 ELSE -1)
\* incomparable exactly when a NaN is reached before any difference
RECURSIVE Before(_, _, _)
Before(x, y, i) ==
    IF i > Len(x) \/ i > Len(y) THEN FALSE
    ELSE IF x[i][1] # y[i][1] THEN FALSE
    ELSE IF x[i][2] = NaN \/ y[i][2] = NaN THEN TRUE
    ELSE IF x[i][2] # y[i][2] THEN FALSE
    ELSE Before(x, y, i + 1)
LawNaN == WithNaN => (C(a, b) = 2 <=> Before(a, b, 1))
LawEmpty == a = <<>> => C(a, b) = (IF b = <<>> THEN 0 ELSE -1)
\* insensitive to the order in which entries are listed
LawListing == C(ByKey(a), b) = C(a, b)
EmitT == Emit => PrintT(ToJson(<<a, b, c>>))
=============================================================================
