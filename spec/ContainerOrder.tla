--------------------------- MODULE ContainerOrder ---------------------------
(***************************************************************************)
(* How containers compare.  A content is a sequence of <<key, value>>      *)
(* pairs with distinct keys (key = position in declaration order, sets use *)
(* value 1 throughout).  Results: -1, 0, 1, or 2 for "incomparable".       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

NaN == 9     \* the value that compares with nothing (partial orders only)
Incomparable == 2

ByKey(s) == SortSeq(s, LAMBDA x, y : x[1] < y[1])  \* the entries in iteration order

CmpNum(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
CmpVal(x, y, total) == IF ~total /\ (x = NaN \/ y = NaN) THEN Incomparable ELSE CmpNum(x, y)
CmpPair(p, q, total) == IF p[1] # q[1] THEN CmpNum(p[1], q[1]) ELSE CmpVal(p[2], q[2], total)

RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(a, b, i, total) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE LET c == CmpPair(a[i], b[i], total) IN IF c # 0 THEN c ELSE CmpFrom(a, b, i + 1, total)

Cmp(a, b, total) == CmpFrom(ByKey(a), ByKey(b), 1, total)

SameContent(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}

\* operand `who` is the one returned (0: the content does not tell)
From(who, want, content) == who = want \/ (who = 0)
\* everything the comparison traits may answer about a, b (and the bounds b..c)
CompareOk(a, b, c, total, e) ==
    LET p == Cmp(a, b, total) IN
    /\ e.pc = p
    /\ e.lt = (p = -1) /\ e.gt = (p = 1) /\ e.le = (p \in {-1, 0}) /\ e.ge = (p \in {0, 1})
    /\ IF total
       THEN /\ e.cmp = p
            /\ SameContent(e.max, IF p = 1 THEN a ELSE b)
            /\ SameContent(e.min, IF p = 1 THEN b ELSE a)
            /\ e.hc = (Cmp(b, c, TRUE) # 1)
            /\ e.hc => SameContent(e.clamp, IF p = -1 THEN b ELSE IF Cmp(a, c, TRUE) = 1 THEN c ELSE a)
            \* ties: max is the second operand, min the first, clamp the first
            /\ From(e.from[1], IF p = 1 THEN 1 ELSE 2, e.max)
            /\ From(e.from[2], IF p = 1 THEN 2 ELSE 1, e.min)
            /\ e.hc => From(e.from[3], IF p = -1 THEN 2 ELSE IF Cmp(a, c, TRUE) = 1 THEN 3 ELSE 1, e.clamp)
       ELSE e.cmp = 9
=============================================================================
