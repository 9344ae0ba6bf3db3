----------------------------- MODULE EntryModel -----------------------------
(***************************************************************************)
(* Every chain of entry calls of bounded length on a two-key map, from     *)
(* every prior state: laws of the entry API, and the chains themselves.    *)
(***************************************************************************)
EXTENDS FixedMap, Json
CONSTANTS MaxSteps, Emit
VARIABLES start, steps, ran
em == <<rank, maps, its, ent, start, steps, ran>>

V == 1   \* the other key's value
Init ==
    /\ rank = <<1, 2>> /\ its = NoFn
    /\ \E v \in {0, 2}, w \in {0, V} : maps = (1 :> <<v, w>>)
    /\ ent = NoEnt /\ start = maps[1] /\ steps = <<>> /\ ran = FALSE

Say(s) == steps' = Append(steps, s) /\ UNCHANGED <<start, ran>>
W == 3 + Len(steps)   \* a fresh value
Open == ent = NoEnt /\ ~ran /\ ran' = TRUE /\ UNCHANGED <<start, steps>> /\ EntryOpen(1, 1, maps[1][1] # Absent)
Absent1 == maps[1][1] = Absent
Next ==
    \/ Open
    \/ /\ Len(steps) < MaxSteps
       /\ \/ EntryKey(1) /\ Say(<<"key", 0>>)
          \/ EntryMatch(~Absent1) /\ Say(<<"match", 0>>)
          \/ AndModify(IF Absent1 THEN 0 ELSE 1, maps[1][1], W) /\ Say(<<"and_modify", W>>)
          \/ AndModify(IF Absent1 THEN 0 ELSE 1, maps[1][1], 0) /\ Say(<<"and_modify", 0>>)
          \/ \E h \in {<<"plain", "or_insert">>, <<"with", "or_insert_with">>,
                       <<"with_key", "or_insert_with_key">>, <<"default", "or_default">>} :
               /\ OrInsert(h[1], IF h[1] = "default" THEN 9 ELSE W,
                           IF h[1] # "plain" /\ Absent1 THEN 1 ELSE 0,
                           IF h[1] = "with_key" /\ Absent1 THEN 1 ELSE 0,
                           IF Absent1 THEN (IF h[1] = "default" THEN 9 ELSE W) ELSE maps[1][1])
               /\ Say(<<h[2], W>>)
          \/ OccGet(maps[1][1]) /\ Say(<<"get", 0>>)
          \/ OccGetMut(maps[1][1], W) /\ Say(<<"get_mut", W>>)
          \/ OccInsert(W, maps[1][1]) /\ Say(<<"insert", W>>)
          \/ OccRemove(maps[1][1]) /\ Say(<<"remove", 0>>)
          \/ OccIntoMut(maps[1][1]) /\ Say(<<"into_mut", 0>>)
          \/ VacInsert(W, W) /\ Say(<<"insert", W>>)
          \/ RefWrite(maps[1][1], W) /\ Say(<<"write", W>>)
    \/ EntryDrop /\ UNCHANGED <<start, steps, ran>>
Spec == Init /\ [][Next]_em

\* a finished chain
Done == ran /\ ent = NoEnt
EmitT == (Emit /\ ran' /\ ent' = NoEnt) => PrintT(ToJson([m |-> start, steps |-> steps']))

LawOther == maps[1][2] = start[2]
\* opening, looking, matching and dropping change nothing
Changing == {"or_insert", "or_insert_with", "or_insert_with_key", "or_default", "and_modify", "get_mut", "insert", "remove", "write"}
LawPassive == (\A i \in 1..Len(steps) : steps[i][1] \notin Changing) => maps[1] = start
\* after "or ..." the key is present, after "remove" it is absent
LawPresent == (Len(steps) > 0 /\ \E i \in 1..Len(steps) : steps[i][1] \in {"or_insert", "or_insert_with", "or_insert_with_key", "or_default", "insert"})
                 => (steps[Len(steps)][1] = "remove" \/ maps[1][1] # Absent)
LawRemove == (Len(steps) > 0 /\ steps[Len(steps)][1] = "remove") => maps[1][1] = Absent
\* "insert if vacant" keeps an existing value
LawKeep == \A i \in 1..Len(steps) :
   (/\ steps[i][1] \in {"or_insert", "or_insert_with", "or_insert_with_key", "or_default"}
    /\ start[1] # Absent
    /\ \A j \in 1..Len(steps) : j # i => steps[j][1] \in {"key", "and_modify"} /\ steps[j][2] = 0) => maps[1] = start
=============================================================================
