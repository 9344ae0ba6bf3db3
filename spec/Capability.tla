----------------------------- MODULE Capability -----------------------------
(***************************************************************************)
(* What a container, or one of its iterators, must and must not offer,     *)
(* given what its keys and values offer.                                   *)
(*                                                                         *)
(* Capabilities are names of traits.  kc and vc are the sets of            *)
(* capabilities of the key and value type, T the key type (KeySpace).      *)
(***************************************************************************)
EXTENDS KeySpace

Auto    == {"Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe"}
Compare == {"PartialEq", "Eq", "PartialOrd", "Ord", "Hash"}
Caps    == Auto \cup Compare \cup {"Clone", "Copy", "Default", "Debug", "Serialize", "Deserialize",
                                   "Iterator", "DoubleEnded", "ExactSize", "Build", "Loop", "Array"}

\* Keys of an enum of unit variants: the storage is one array of cells.
Flat(T) == T.t = "units"

\* ---- whole containers ---------------------------------------------------
\* Values only pass through: copying, comparing and printing a map does that to its values (and keys).
MapMust(T, kc, vc) ==
    {"Default", "Build", "Loop"}
    \cup (vc \cap (Auto \cup {"Clone", "PartialEq", "Eq"}))
    \cup (IF HasDyn(T) THEN {} ELSE vc \cap {"Copy"})
    \cup (IF Flat(T) THEN vc \cap {"PartialOrd", "Ord", "Hash"} ELSE {})
    \cup (kc \cap vc \cap {"Debug", "Serialize", "Deserialize"})
\* never more than the values allow; what owns heap memory is never plainly copied
MapMay(T, kc, vc) ==
    {"Default", "Build", "Loop"}
    \cup (vc \cap (Auto \cup Compare \cup {"Clone"}))
    \cup (IF HasDyn(T) THEN {} ELSE vc \cap {"Copy"})
    \cup (kc \cap vc \cap {"Debug", "Serialize", "Deserialize"})

\* A set is a map without values.
NoValue == Auto \cup Compare \cup {"Clone", "Copy", "Debug", "Serialize", "Deserialize"}
SetMust(T, kc) == MapMust(T, kc, NoValue) \cup {"Array"}
SetMay(T, kc)  == MapMay(T, kc, NoValue) \cup {"Array"}

\* ---- iterators ----------------------------------------------------------
Both(T) == IF HasDyn(T) THEN {} ELSE {"DoubleEnded"}
\* iterators over Boolean keys know how many are left
Exact(T) == IF T.t = "bool" THEN {"ExactSize"} ELSE {}
\* what holds shared references moves between threads if the values may be shared;
\* what holds exclusive references or values, if the values may be moved.
RefMust(T, vc)  == {"Iterator", "Clone", "Unpin"} \cup Both(T) \cup (IF "Sync" \in vc THEN {"Send", "Sync"} ELSE {})
RefMay(T, vc)   == Caps \ (IF "Sync" \in vc THEN {} ELSE {"Send", "Sync"})
\* keys alone say nothing about the values
KeysMay(T, vc)  == Caps
MutMust(T, vc)  == {"Iterator", "Unpin"} \cup Both(T) \cup (vc \cap {"Send", "Sync"})
MutMay(T, vc)   == Caps \ ({"Clone", "Copy"} \cup ({"Send", "Sync"} \ vc))
OwnMust(T, vc)  == {"Iterator"} \cup Both(T) \cup (vc \cap {"Send", "Sync", "Unpin"})
OwnMay(T, vc)   == Caps \ (({"Send", "Sync", "Clone"} \ vc) \cup {"Copy"})
\* an entry is an exclusive reference to one place
EntryMust(vc)   == {"Unpin"} \cup (vc \cap {"Send", "Sync"})
InterMust       == {"Iterator", "Clone", "Send", "Sync", "Unpin"}

What == {"map", "set", "iter", "keys", "values", "iter_mut", "values_mut", "into_iter", "set_iter", "set_into_iter", "intersection", "entry"}
Must(w, T, kc, vc) ==
    CASE w = "map" -> MapMust(T, kc, vc)
      [] w = "set" -> SetMust(T, kc)
      [] w \in {"iter", "values"} -> RefMust(T, vc)
      [] w = "keys" -> RefMust(T, vc) \cup Exact(T)
      [] w \in {"iter_mut", "values_mut"} -> MutMust(T, vc)
      [] w = "into_iter" -> OwnMust(T, vc)
      [] w = "set_iter" -> RefMust(T, NoValue) \cup Exact(T)
      [] w = "set_into_iter" -> OwnMust(T, NoValue) \cup Exact(T)
      [] w = "intersection" -> InterMust
      [] w = "entry" -> EntryMust(vc)
May(w, T, kc, vc) ==
    CASE w = "map" -> MapMay(T, kc, vc)
      [] w = "set" -> SetMay(T, kc)
      [] w \in {"iter", "values"} -> RefMay(T, vc)
      [] w \in {"keys", "set_iter", "intersection"} -> Caps
      [] w \in {"iter_mut", "values_mut", "entry"} -> MutMay(T, vc)
      [] w = "into_iter" -> OwnMay(T, vc)
      [] w = "set_into_iter" -> OwnMay(T, NoValue)
Offers(w, T, kc, vc, caps) == Must(w, T, kc, vc) \subseteq caps /\ caps \subseteq May(w, T, kc, vc)

\* ---- borrowing ----------------------------------------------------------
\* What an operation needs of the container, and what its result keeps of it.
Needs == [get |-> "shared", contains |-> "shared", len |-> "shared", is_empty |-> "shared", iter |-> "shared", keys |-> "shared",
          values |-> "shared", for_ref |-> "shared", clone |-> "shared", eq |-> "shared",
          get_mut |-> "own", insert |-> "own", remove |-> "own", iter_mut |-> "own", values_mut |-> "own", for_mut |-> "own", retain |-> "own",
          clear |-> "own", entry |-> "own", or_insert |-> "own", or_insert_with |-> "own", and_modify |-> "own", key |-> "own",
          occupied |-> "own", oc_get_mut |-> "own", vacant |-> "own", oc_insert |-> "own", oc_remove |-> "own",
          inter_left |-> "shared", inter_right |-> "shared",
          move |-> "all", into_iter |-> "all"]
Keeps == [get |-> "shared", contains |-> "none", len |-> "none", is_empty |-> "none", iter |-> "shared", keys |-> "shared",
          values |-> "shared", for_ref |-> "shared", clone |-> "none", eq |-> "none",
          get_mut |-> "own", insert |-> "none", remove |-> "none", iter_mut |-> "own", values_mut |-> "own", for_mut |-> "own", retain |-> "none",
          clear |-> "none", entry |-> "own", or_insert |-> "own", or_insert_with |-> "own", and_modify |-> "own", key |-> "none",
          occupied |-> "own", oc_get_mut |-> "own", vacant |-> "own", oc_insert |-> "none", oc_remove |-> "none",
          inter_left |-> "shared", inter_right |-> "shared",
          move |-> "gone", into_iter |-> "gone"]
MapOps == DOMAIN Needs \ {"inter_left", "inter_right"}
SetOps == {"contains", "len", "is_empty", "iter", "for_ref", "clone", "eq", "insert", "remove", "retain", "clear",
           "inter_left", "inter_right", "move", "into_iter"}

\* The result of `a` is used after `b`.
Pair(a, b) ==
    CASE Keeps[a] = "none"   -> "accept"
      [] Keeps[a] = "shared" -> IF Needs[b] = "shared" THEN "accept" ELSE "reject"
      [] Keeps[a] = "own"    -> "reject"
      [] Keeps[a] = "gone"   -> "reject"
\* The result of `a` on a local container is returned to the caller.
Escape(a) == IF Keeps[a] \in {"none", "gone"} THEN "accept" ELSE "reject"
\* `a` through a shared (exclusive) reference to the container, or on the container itself.
Access(a, how) ==
    CASE how = "shared" -> IF Needs[a] = "shared" THEN "accept" ELSE "reject"
      [] how = "own"    -> IF Needs[a] \in {"shared", "own"} THEN "accept" ELSE "reject"
      [] how = "all"    -> "accept"

\* ---- configurations -----------------------------------------------------
\* Which programs compile with which cargo features: dynamically stored keys need "hashbrown", serialization "serde";
\* nothing else depends on the configuration.
Features == {"std", "hashbrown", "serde"}
Config(T, serde, on) == IF (HasDyn(T) => "hashbrown" \in on) /\ (serde => "serde" \in on) THEN "accept" ELSE "reject"
=============================================================================
