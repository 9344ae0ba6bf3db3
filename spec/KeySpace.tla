------------------------------ MODULE KeySpace ------------------------------
(***************************************************************************)
(* Key types as terms, and the order the library promises for their keys.  *)
(*                                                                         *)
(* A key type is one of                                                    *)
(*   [t |-> "units", n |-> N]   an enum of N unit variants                 *)
(*   [t |-> "bool"]             bool                                       *)
(*   [t |-> "one"]              ()                                         *)
(*   [t |-> "opt", a |-> T]     Option<T>                                  *)
(*   [t |-> "dyn", n |-> N]     a dynamically stored key type (str, u32..) *)
(*                              of which N distinct sample keys are used   *)
(*   [t |-> "enum", f |-> s]    an enum with payloads: s is the sequence   *)
(*                              of variants, each [t |-> "unit"] or a key  *)
(*                              type (the payload)                         *)
(* The keys of a type are numbered 1..Size(T) in declaration order.        *)
(* Ranks(T)[i] is the position of key i in the promised order; only keys   *)
(* of one dynamic block share a rank.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Size(_), SizeOfFields(_, _), Ranks(_), RanksOfFields(_, _, _)

MaxOf(s) == IF s = <<>> THEN 0 ELSE CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x

Size(T) ==
    CASE T.t = "units" -> T.n
      [] T.t = "unit"  -> 1
      [] T.t = "bool"  -> 2
      [] T.t = "one"   -> 1
      [] T.t = "opt"   -> Size(T.a) + 1
      [] T.t = "dyn"   -> T.n
      [] T.t = "enum"  -> SizeOfFields(T.f, 1)

SizeOfFields(f, i) == IF i > Len(f) THEN 0 ELSE Size(f[i]) + SizeOfFields(f, i + 1)

Ranks(T) ==
    CASE T.t = "units" -> [i \in 1..T.n |-> i]
      [] T.t = "unit"  -> <<1>>
      [] T.t = "bool"  -> <<1, 2>>                    \* true, then false
      [] T.t = "one"   -> <<1>>
      [] T.t = "opt"   -> LET r == Ranks(T.a) IN r \o <<MaxOf(r) + 1>>   \* Some(..) keys, then None
      [] T.t = "dyn"   -> [i \in 1..T.n |-> 1]        \* no promised order inside
      [] T.t = "enum"  -> RanksOfFields(T.f, 1, 0)

RanksOfFields(f, i, off) ==
    IF i > Len(f) THEN <<>>
    ELSE LET r == Ranks(f[i])
             s == [j \in 1..Len(r) |-> r[j] + off]
         IN s \o RanksOfFields(f, i + 1, IF s = <<>> THEN off ELSE s[Len(s)])

\* Is the order total (no dynamic block with several keys)?
Total(T) == LET r == Ranks(T) IN \A i, j \in DOMAIN r : i # j => r[i] # r[j]

RECURSIVE HasDyn(_)
HasDyn(T) ==
    CASE T.t = "dyn"  -> TRUE
      [] T.t = "opt"  -> HasDyn(T.a)
      [] T.t = "enum" -> \E i \in 1..Len(T.f) : HasDyn(T.f[i])
      [] OTHER        -> FALSE
=============================================================================
