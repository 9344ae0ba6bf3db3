------------------------------ MODULE SetModel ------------------------------
(* FixedSet with small constants: laws over histories, labelled transitions. *)
EXTENDS FixedSet, Json
CONSTANTS NK, MaxHist, Emit
VARIABLES op, hist
sm == <<rank, sets, its, op, hist>>

Init ==
    /\ rank = [i \in 1..NK |-> i] /\ its = NoFn /\ sets = (1 :> {})
    /\ op = <<"init">> /\ hist = <<>>
Do(o) == /\ op' = o
         /\ hist' = IF MaxHist = 0 THEN <<>> ELSE Append(hist, o)
Next ==
    /\ MaxHist = 0 \/ Len(hist) < MaxHist
    /\ \/ \E k \in Keys : Insert(1, k, k \notin sets[1]) /\ Do(<<"insert", k>>)
       \/ \E k \in Keys : Remove(1, k, k \in sets[1]) /\ Do(<<"remove", k>>)
       \/ \E k \in Keys : Contains(1, k, k \in sets[1]) /\ Do(<<"contains", k>>)
       \/ Clear(1) /\ Do(<<"clear">>)
Spec == Init /\ [][Next]_sm
View == IF MaxHist = 0 THEN <<sets>> ELSE <<sets, hist>>
Pic(s) == [k \in Keys |-> IF k \in s THEN 1 ELSE 0]
EmitT == Emit => PrintT(ToJson([f |-> Pic(sets[1]), op |-> op', t |-> Pic(sets'[1])]))

Concerns(h, i, k) == h[i][1] = "clear" \/ (h[i][1] \in {"insert", "remove"} /\ h[i][2] = k)
\* inserted and not removed since
RECURSIVE In(_, _, _)
In(h, i, k) == IF i = 0 THEN FALSE
               ELSE IF Concerns(h, i, k) THEN h[i][1] = "insert"
               ELSE In(h, i - 1, k)
LawMember == MaxHist > 0 => \A k \in Keys : (k \in sets[1]) = In(hist, Len(hist), k)
LawFrame == [][op'[1] \in {"insert", "remove", "contains"} =>
                 sets'[1] \ {op'[2]} = sets[1] \ {op'[2]}]_sm
\* the number of "newly added" answers minus "was present" answers is the size
LawTruth == \A k \in Keys, r \in BOOLEAN :
    /\ ENABLED Insert(1, k, r) <=> r = (k \notin sets[1])
    /\ ENABLED Remove(1, k, r) <=> r = (k \in sets[1])
    /\ ENABLED Contains(1, k, r) <=> r = (k \in sets[1])
=============================================================================
