------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The key derive as a function on declarations.  A declaration has a kind *)
(* of item, attribute arguments and a sequence of variant shapes; Judge    *)
(* says what must happen to it.  The derive itself is modelled as a pass   *)
(* over the declaration that collects complaints.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVar, Attrs, MaxVarOdd, Items, Counts

\* what a variant may look like
Good == {"unit", "bool", "one", "opt", "dyn", "units", "enum"}  \* nothing, or one supported key
Faulty == {"named", "two", "three", "bad", "optbad"}            \* named, several, unsupported payloads
Discr == {"discr"}                                              \* nothing, explicit discriminant
Shapes == Good \cup Faulty \cup Discr
\* attribute arguments (as written after #[key(..)]; "none": no attribute)
OkAttr == {"none", "bitset"}
BadAttr == {"foo", "bitset, foo", "foo, bitset", "bitset = true", "bits", "bitset(8)", "bitset = 8",
            "as value", "as literal", "good, bad", "bad, good", "number"  \* two attributes, other forms
}
BadItems == {"struct unit", "struct tuple", "struct named", "union"}

Plain(d) == d.item = "enum"
AllUnit(d) == \A i \in 1..Len(d.vars) : d.vars[i] \in {"unit", "discr"}
\* N is the number of variants: the listed ones, and `more` further units
N(d) == Len(d.vars) + d.more
Bits(d) == d.attr = "bitset"

\* "accept", "reject", or "open" (nothing is promised)
Judge(d) ==
    IF ~Plain(d) \/ d.attr \in BadAttr THEN "reject"
    ELSE IF \E i \in 1..Len(d.vars) : d.vars[i] \in Faulty THEN "reject"
    ELSE IF Bits(d) /\ ~AllUnit(d) THEN "open"          \* bit storage for keys with payloads
    ELSE IF ~AllUnit(d) /\ \E i \in 1..Len(d.vars) : d.vars[i] = "discr" THEN "open"  \* needs repr in Rust itself
    ELSE IF Bits(d) /\ N(d) > 128 THEN "reject"
    ELSE "accept"

VARIABLES d,     \* the declaration
          pos,   \* next variant to look at
          errs,  \* complaints so far
          phase
dv == <<d, pos, errs, phase>>

Enums(m) == UNION {[1..n -> Shapes] : n \in 0..m}
Decl(it, at, vs, mo) == [item |-> it, attr |-> at, vars |-> vs, more |-> mo]
Decls ==
    {Decl("enum", a, v, 0) : a \in Attrs \cap OkAttr, v \in Enums(MaxVar)}
    \cup {Decl("enum", a, v, 0) : a \in Attrs \ OkAttr, v \in Enums(MaxVarOdd)}
    \cup {Decl(it, a, <<>>, 0) : it \in Items \ {"enum"}, a \in OkAttr}
    \cup {Decl("enum", a, v, c) : a \in OkAttr, c \in Counts, v \in {<<>>, <<"discr">>}}
Init == d \in Decls /\ pos = 1 /\ errs = 0 /\ phase = "attr"
Next == UNCHANGED d /\
    \/ phase = "attr" /\ phase' = "item" /\ UNCHANGED pos /\ errs' = errs + (IF d.attr \in BadAttr THEN 1 ELSE 0)
    \/ phase = "item" /\ UNCHANGED pos /\ IF Plain(d) THEN phase' = "vars" /\ UNCHANGED errs ELSE phase' = "done" /\ errs' = errs + 1
    \/ phase = "vars" /\ pos <= Len(d.vars) /\ pos' = pos + 1 /\ UNCHANGED phase
       /\ errs' = errs + (IF d.vars[pos] \in Faulty THEN 1 ELSE 0)
    \/ phase = "vars" /\ pos > Len(d.vars) /\ phase' = "done" /\ UNCHANGED pos
       /\ errs' = errs + (IF Bits(d) /\ AllUnit(d) /\ N(d) > 128 THEN 1 ELSE 0)
Spec == Init /\ [][Next]_dv
EmitT == phase = "done" => PrintT(ToJson(d @@ [want |-> Judge(d)]))

-----------------------------------------------------------------------------
\* the pass complains exactly about what must be rejected
LawVerdict == phase = "done" => (Judge(d) = "reject" <=> errs > 0)
\* one faulty variant anywhere spoils the declaration
LawFault == \A f \in Faulty, p \in 0..Len(d.vars) :
    Judge([d EXCEPT !.vars = SubSeq(@, 1, p) \o <<f>> \o SubSeq(@, p + 1, Len(@))]) = "reject"
\* the order of the variants does not matter
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LawMix == Judge([d EXCEPT !.vars = Rev(@)]) = Judge(d)
\* good variants may be added without changing the verdict (plain storage)
LawGrow == (d.attr = "none" /\ Judge(d) = "accept" /\ \A i \in 1..Len(d.vars) : d.vars[i] # "discr") =>
    \A g \in Good : Judge([d EXCEPT !.vars = Append(@, g)]) = "accept"
\* storage choice never matters up to 128 unit variants
LawBits == (Judge(d) = "accept" /\ AllUnit(d) /\ N(d) <= 128) =>
    \A a \in OkAttr : Judge([d EXCEPT !.attr = a]) = "accept"
=============================================================================
