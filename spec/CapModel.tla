------------------------------ MODULE CapModel ------------------------------
(***************************************************************************)
(* Is the statement of Capability about containers what follows from the   *)
(* way storage is put together?  The storage of a key type is a tree of    *)
(* cells (one optional value), flags, nested trees and hash tables; a tree *)
(* offers what all its parts offer (StorageCaps).  Checked for every key   *)
(* type of bounded depth and every sensible set of capabilities of values. *)
(* Also: laws about Must and May, and a machine in which programs borrow   *)
(* from a container, which decides Pair independently.                     *)
(***************************************************************************)
EXTENDS Capability, TLC, Json
CONSTANTS Depth
VARIABLES T, vc, prog
vars == <<T, vc, prog>>

RECURSIVE Terms(_)
Base == {[t |-> "units", n |-> n] : n \in 0..2} \cup {[t |-> "bool"], [t |-> "one"], [t |-> "dyn", n |-> 2]}
Terms(d) == IF d = 0 THEN Base
            ELSE LET s == Terms(d - 1) IN
                 Base \cup {[t |-> "opt", a |-> x] : x \in s}
                      \cup {[t |-> "enum", f |-> <<x, y>>] : x \in s \cup {[t |-> "unit"]}, y \in s}

\* Capabilities that may occur together.
Sane(c) == /\ "Copy" \in c => "Clone" \in c
           /\ "Eq" \in c => "PartialEq" \in c
           /\ "PartialOrd" \in c => "PartialEq" \in c
           /\ "Ord" \in c => {"Eq", "PartialOrd"} \subseteq c
V == {c \in SUBSET {"Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Send", "Sync"} : Sane(c)}

\* ---- storage by parts ---------------------------------------------------
Cell(c) == c                               \* Option<V>
Table(c) == c \ {"Copy", "PartialOrd", "Ord", "Hash"}     \* keys and values on the heap
RECURSIVE StorageCaps(_, _)
StorageCaps(t, c) ==
    CASE t.t = "units" -> Cell(c)
      [] t.t \in {"bool", "one", "unit"} -> Cell(c) \ {"PartialOrd", "Ord", "Hash"}
      [] t.t = "opt"  -> (StorageCaps(t.a, c) \cap Cell(c)) \ {"PartialOrd", "Ord", "Hash"}
      [] t.t = "dyn"  -> Table(c)
      [] t.t = "enum" -> {x \in c : \A i \in 1..Len(t.f) : x \in StorageCaps(t.f[i], c)} \ {"PartialOrd", "Ord", "Hash"}

\* ---- a program that borrows ---------------------------------------------
\* a: obtain a result; b: a second operation; then the result of a is used.
Ops == DOMAIN Needs
Idle == [at |-> "idle", a |-> "get", b |-> "get", held |-> "none", ok |-> TRUE]
Grant(need, held) ==
    CASE held = "none"   -> TRUE
      [] held = "shared" -> need = "shared"
      [] OTHER           -> FALSE
ProgNext ==
    \/ prog.at = "idle" /\ \E a \in Ops : prog' = [prog EXCEPT !.at = "held", !.a = a, !.held = Keeps[a]]
    \/ prog.at = "held" /\ \E b \in Ops : prog' = [prog EXCEPT !.at = "used", !.b = b, !.ok = Grant(Needs[b], prog.held)]

Init == T \in Terms(Depth) /\ vc \in V /\ prog = Idle
\* (programs do not depend on the types: explore them once)
Next == UNCHANGED <<T, vc>> /\ T = [t |-> "bool"] /\ vc = {} /\ ProgNext
Spec == Init /\ [][Next]_vars

K == NoValue
LawParts == LET s == StorageCaps(T, vc) IN
    /\ MapMust(T, {}, vc) \cap (DOMAIN [x \in vc |-> 0]) \subseteq s
    /\ s \subseteq MapMay(T, {}, vc)
LawSane == Sane(MapMust(T, K, vc)) /\ Sane(MapMay(T, K, vc)) /\ Sane(SetMust(T, K))
LawOrder == \A w \in What : Must(w, T, K, vc) \subseteq May(w, T, K, vc)
\* more capable values never take anything away (every container of one kind may still be one of the next)
LawMonotone == \A c \in {"Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Send", "Sync"} : LET x == vc \cup {c} IN \A w \in What : Must(w, T, K, vc) \subseteq Must(w, T, K, x) /\ May(w, T, K, vc) \subseteq May(w, T, K, x)
\* soundness: nothing crosses a thread that the values may not; exclusive access is never duplicated
LawThreads == /\ "Send" \notin vc => \A w \in {"map", "iter_mut", "values_mut", "into_iter"} : "Send" \notin May(w, T, K, vc)
              /\ "Sync" \notin vc => \A w \in {"map", "iter", "values", "iter_mut", "values_mut", "into_iter"} : "Sync" \notin May(w, T, K, vc)
              /\ "Sync" \notin vc => \A w \in {"iter", "values"} : "Send" \notin May(w, T, K, vc)
              /\ \A w \in {"iter_mut", "values_mut"} : "Clone" \notin May(w, T, K, vc)
\* the pair rule is what the borrowing machine grants
LawPair == prog.at = "used" => ((Pair(prog.a, prog.b) = "accept") <=> prog.ok)
\* borrowing is never laxer than aliasing allows
LawAlias == prog.at = "used" /\ Pair(prog.a, prog.b) = "accept" => ~(Keeps[prog.a] = "own" \/ (Keeps[prog.a] = "shared" /\ Needs[prog.b] # "shared"))
\* what keeps a reference needed one at least as strong
Strength == [none |-> 0, shared |-> 1, own |-> 2, all |-> 3, gone |-> 3]
LawKeeps == \A o \in Ops : Strength[Keeps[o]] <= Strength[Needs[o]]

\* each reading by exclusive reference mirrors one by shared reference; the ways to iterate agree
Mirror == {<<"get", "get_mut">>, <<"iter", "iter_mut">>, <<"values", "values_mut">>, <<"for_ref", "for_mut">>}
LawMirror == /\ \A p \in Mirror : Needs[p[1]] = "shared" /\ Needs[p[2]] = "own" /\ Keeps[p[1]] = Needs[p[1]] /\ Keeps[p[2]] = Needs[p[2]]
             /\ \A o \in {"or_insert", "or_insert_with", "oc_get_mut", "entry", "and_modify", "occupied", "vacant"} : Keeps[o] = Keeps["get_mut"] /\ Needs[o] = Needs["get_mut"]
             /\ \A o \in {"insert", "remove", "retain", "clear"} : Needs[o] = "own" /\ Keeps[o] = "none"
\* switching a feature on never takes anything away; every program has a least configuration
LawConfig == \A x \in BOOLEAN, on \in SUBSET Features :
    /\ Config(T, x, Features) = "accept"
    /\ Config(T, x, on) = "accept" => \A f \in Features : Config(T, x, on \cup {f}) = "accept"
    /\ \A other \in SUBSET Features : Config(T, x, on) = "accept" /\ Config(T, x, other) = "accept" => Config(T, x, on \cap other) = "accept"

EmitT ==
    prog.at # "used" \/ PrintT(ToJson([a |-> prog.a, b |-> prog.b, want |-> Pair(prog.a, prog.b)]))
Single == \A o \in Ops : PrintT(ToJson([a |-> o, escape |-> Escape(o), shared |-> Access(o, "shared"), own |-> Access(o, "own"), all |-> Access(o, "all"),
                                        map |-> o \in MapOps, set |-> o \in SetOps]))
EmitS == (T = [t |-> "bool"] /\ vc = {} /\ prog = Idle) => Single
=============================================================================
