------------------------------ MODULE MapModel ------------------------------
(***************************************************************************)
(* FixedMap with small constants: all histories of the core operations.    *)
(* Used (1) to check that the machine obeys the laws stated in the         *)
(* properties, (2) to print its labelled transitions, from which test      *)
(* histories for the real library are made.                                *)
(***************************************************************************)
EXTENDS FixedMap, Json

CONSTANTS NK,      \* number of keys
          NV,      \* number of values
          MaxHist, \* longest history (0: histories are not recorded)
          Emit     \* print transitions?

VARIABLES op, hist
mm == <<rank, maps, its, ent, op, hist>>

Init ==
    /\ rank = [i \in 1..NK |-> i] /\ its = NoFn /\ ent = NoEnt
    /\ maps = (1 :> [k \in 1..NK |-> Absent])
    /\ op = <<"init">> /\ hist = <<>>

Vals == 1..NV
Do(o) == /\ op' = o
         /\ hist' = IF MaxHist = 0 THEN <<>> ELSE Append(hist, o)

Next ==
    /\ MaxHist = 0 \/ Len(hist) < MaxHist
    /\ \/ \E k \in Keys, v \in Vals : Insert(1, k, v, maps[1][k]) /\ Do(<<"insert", k, v>>)
       \/ \E k \in Keys : Remove(1, k, maps[1][k]) /\ Do(<<"remove", k>>)
       \/ \E k \in Keys : Get(1, k, maps[1][k]) /\ Do(<<"get", k>>)
       \/ \E k \in Keys : Contains(1, k, maps[1][k] # Absent) /\ Do(<<"contains", k>>)
       \/ \E k \in Keys, w \in Vals : GetMut(1, k, maps[1][k], w) /\ Do(<<"getmut", k, w>>)
       \/ Clear(1) /\ Do(<<"clear">>)
Spec == Init /\ [][Next]_mm

View == IF MaxHist = 0 THEN <<maps>> ELSE <<maps, hist>>
EmitT == Emit => PrintT(ToJson([f |-> maps[1], op |-> op', t |-> maps'[1]]))

-----------------------------------------------------------------------------
(* Laws, stated over histories instead of states *)

Touches(h, i, k) ==
    \/ h[i][1] = "clear"
    \/ h[i][1] \in {"insert", "remove"} /\ h[i][2] = k
\* the value most recently stored for k and not removed since
RECURSIVE Recent(_, _, _)
Recent(h, i, k) ==
    IF i = 0 THEN Absent
    ELSE IF h[i][1] = "insert" /\ h[i][2] = k THEN h[i][3]
    ELSE IF Touches(h, i, k) THEN Absent
    ELSE IF h[i][1] = "getmut" /\ h[i][2] = k
         THEN (IF Recent(h, i - 1, k) = Absent THEN Absent ELSE h[i][3])
    ELSE Recent(h, i - 1, k)
LawRecent == MaxHist > 0 => \A k \in Keys : maps[1][k] = Recent(hist, Len(hist), k)
\* an operation on one key leaves the others alone
LawFrame == [][op'[1] \in {"insert", "remove", "getmut", "get", "contains"} =>
                 \A k \in Keys \ {op'[2]} : maps'[1][k] = maps[1][k]]_mm
\* operations answer truthfully only: a wrong result is not a transition
LawTruth ==
    \A k \in Keys, r \in 0..NV :
        /\ ENABLED Insert(1, k, 1, r) <=> r = maps[1][k]
        /\ ENABLED Remove(1, k, r) <=> r = maps[1][k]
        /\ ENABLED Get(1, k, r) <=> r = maps[1][k]
LawClear == [][op'[1] = "clear" => Dom(maps'[1]) = {}]_mm
=============================================================================
