----------------------------- MODULE WriteModel -----------------------------
(***************************************************************************)
(* Mutable iteration from both ends, several references held at once and   *)
(* written in any order while iteration goes on.                           *)
(***************************************************************************)
EXTENDS FixedMap, Json
CONSTANTS NK, MaxTake
VARIABLES before, plan, written
wv == <<rank, maps, its, ent, before, plan, written>>
MaxWrite == 2
Init ==
    /\ rank = [x \in 1..NK |-> x] /\ ent = NoEnt
    /\ \E s \in SUBSET (1..NK), kind \in {"iter_mut", "values_mut"} :
         LET m == [k \in 1..NK |-> IF k \in s THEN k ELSE Absent] IN
         /\ maps = (1 :> m) /\ before = m
         /\ its = (1 :> [o |-> 1, kind |-> kind, m |-> m, rem |-> s, got |-> <<>>])
    /\ plan = <<>> /\ written = [k \in 1..NK |-> 0]
Takes == Cardinality({x \in 1..Len(plan) : plan[x][1] # "write"})
Writes == Len(plan) - Takes
Say(p) == plan' = Append(plan, p)
Shown(k) == IF its[1].kind = "values_mut" THEN <<before[k]>> ELSE <<k, before[k]>>
W == 20 + Len(plan)
Next ==
    \/ /\ Takes < MaxTake /\ UNCHANGED <<before, written>>
       /\ \/ \E k \in Keys : Next1(1, Shown(k)) /\ Say(<<"next">>)
          \/ \E k \in Keys : NextBack1(1, Shown(k)) /\ Say(<<"back">>)
          \/ Next1(1, <<>>) /\ Say(<<"next">>)
          \/ NextBack1(1, <<>>) /\ Say(<<"back">>)
    \/ /\ Writes < MaxWrite /\ UNCHANGED before
       /\ \E x \in 1..Len(its[1].got) : Write(1, x, W) /\ Say(<<"write", x>>) /\ written' = [written EXCEPT ![its[1].got[x]] = W]
Spec == Init /\ [][Next]_wv
EmitT == (Takes = MaxTake /\ Writes > 0 /\ Dom(before) = Keys /\ its[1].kind = "iter_mut") => PrintT(ToJson(plan))
LawTarget == \A k \in Keys : written[k] # 0 => maps[1][k] = written[k]
LawOthers == \A k \in Keys : written[k] = 0 => maps[1][k] = before[k]
LawOrder ==
    /\ \A x, y \in 1..Len(its[1].got) : x # y => its[1].got[x] # its[1].got[y]
    /\ \A x \in 1..Len(its[1].got) : its[1].got[x] \in Dom(before) \ its[1].rem
=============================================================================
