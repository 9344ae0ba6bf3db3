--------------------------- MODULE BitsetStorage ---------------------------
(***************************************************************************)
(* The bit machine behind a bitset set: an integer of W bits of which the  *)
(* lowest NV belong to variants.  Each operation is written as what it     *)
(* does to the bits; the claim is that the machine is a plain FixedSet.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, FiniteSetsExt
CONSTANTS NV, W
VARIABLES bits, \* the one bits of the storage
          it,   \* the one bits an iterator still has (NoIt: none started)
          op, r
bv == <<bits, it, op, r>>
NoIt == {W}
Variants == 0..(NV - 1)
All == SUBSET (0..(W - 1))
Mask(raw) == raw \cap Variants
Bit(b) == IF b THEN 1 ELSE 0

Init == bits = {} /\ it = NoIt /\ op = <<"init">> /\ r = <<>>
Do(o, x) == op' = o /\ r' = x
Keep == UNCHANGED it
Next ==
    \/ \E k \in Variants :
       \/ bits' = bits \cup {k} /\ Keep /\ Do(<<"insert", k>>, <<Bit(k \notin bits)>>)
       \/ bits' = bits \ {k} /\ Keep /\ Do(<<"remove", k>>, <<Bit(k \in bits)>>)
       \/ UNCHANGED bits /\ Keep /\ Do(<<"contains", k>>, <<Bit(k \in bits)>>)
    \/ bits' = {} /\ Keep /\ Do(<<"clear">>, <<>>)
    \/ UNCHANGED bits /\ Keep /\ Do(<<"len">>, <<Cardinality(bits)>>)
    \/ UNCHANGED bits /\ Keep /\ Do(<<"empty">>, <<Bit(bits = {})>>)
    \/ UNCHANGED bits /\ Keep /\ Do(<<"raw">>, bits)
    \/ \E raw \in All : bits' = Mask(raw) /\ Keep /\ Do(<<"fromraw", raw>>, <<>>)
    \/ \E keep \in SUBSET Variants : bits' = bits \cap keep /\ Keep /\ Do(<<"retain", keep>>, bits)
    \/ it = NoIt /\ it' = bits /\ UNCHANGED bits /\ Do(<<"iter">>, <<>>)
    \* trailing_zeros / leading_zeros, and clearing that bit
    \/ it # NoIt /\ it # {} /\ it' = it \ {Min(it)} /\ UNCHANGED bits /\ Do(<<"next">>, <<Min(it)>>)
    \/ it # NoIt /\ it # {} /\ it' = it \ {Max(it)} /\ UNCHANGED bits /\ Do(<<"back">>, <<Max(it)>>)
    \/ it = {} /\ UNCHANGED <<bits, it>> /\ \E e \in {"next", "back"} : Do(<<e>>, <<>>)
    \/ it # NoIt /\ it' = NoIt /\ UNCHANGED bits /\ Do(<<"idrop">>, <<>>)
Spec == Init /\ [][Next]_bv

\* the plain set this stands for
S == INSTANCE FixedSet WITH
        rank <- [i \in 1..NV |-> i],
        sets <- (1 :> {b + 1 : b \in bits}),
        its  <- IF it = NoIt THEN [x \in {} |-> 0] ELSE (1 :> [rem |-> {b + 1 : b \in it}])
Sorted(x) == CHOOSE s \in [1..Cardinality(x) -> x] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]
Item == [i \in 1..Len(r') |-> r'[i] + 1]
\* every step of the machine is the corresponding step of the plain set,
\* with the same answer
Lockstep == [][
    CASE op'[1] = "insert"   -> S!Insert(1, op'[2] + 1, r'[1] = 1)
      [] op'[1] = "remove"   -> S!Remove(1, op'[2] + 1, r'[1] = 1)
      [] op'[1] = "contains" -> S!Contains(1, op'[2] + 1, r'[1] = 1)
      [] op'[1] = "clear"    -> S!Clear(1)
      [] op'[1] = "len"      -> S!SetLen(1, r'[1])
      [] op'[1] = "empty"    -> S!SetIsEmpty(1, r'[1] = 1)
      [] op'[1] = "raw"      -> S!AsRaw(1, Sorted(r'))
      [] op'[1] = "fromraw"  -> S!FromRaw(1, Sorted(op'[2]))
      [] op'[1] = "retain"   -> S!Retain(1, [i \in 1..Cardinality(bits) |-> <<Sorted(bits)[i] + 1, Bit(Sorted(bits)[i] \in op'[2])>>])
      [] op'[1] = "iter"     -> S!IterNew(1, 1, "iter")
      [] op'[1] = "next"     -> S!Next1(1, Item)
      [] op'[1] = "back"     -> S!NextBack1(1, Item)
      [] op'[1] = "idrop"    -> S!IterDrop(1)
      [] OTHER -> FALSE ]_bv

Refines == S!SetTypeOK
LawWidth == bits \subseteq Variants
LawRaw == op[1] = "raw" => r = bits
\* unknown bits are never observable
LawJunk == op[1] = "fromraw" => bits = {k \in Variants : k \in op[2]}
LawCount == op[1] = "len" => r[1] = Cardinality({k \in Variants : k \in bits})
LawBack == Mask(bits) = bits
=============================================================================
