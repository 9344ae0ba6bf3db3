------------------------------ MODULE IterModel ------------------------------
(***************************************************************************)
(* A double-ended iterator driven by every sequence of at most MaxHist     *)
(* calls: the laws of iteration, and (Emit) the call sequences themselves. *)
(* Ranks is the promised order of the keys; equal ranks are a dynamic block*)
(***************************************************************************)
EXTENDS FixedSet, Json
CONSTANTS NK, Groups, MaxHist, Emit
VARIABLES hist
im == <<rank, sets, its, hist>>

\* Groups = 1: total order.  Groups = g > 1: blocks of g keys share a rank
Init ==
    /\ rank = [i \in 1..NK |-> (i - 1) \div Groups + 1]
    /\ \E s \in SUBSET (1..NK) :
          /\ sets = (1 :> s)
          /\ its = (1 :> [rem |-> s])
    /\ hist = <<>>

Do(call, r) == hist' = Append(hist, [call |-> call, r |-> r, from |-> its[1].rem])
Results == {<<>>} \cup {<<k>> : k \in Keys}
Next ==
    /\ Len(hist) < MaxHist
    /\ \E r \in Results :
       \/ Next1(1, r) /\ Do(<<"next", 0>>, r)
       \/ NextBack1(1, r) /\ Do(<<"back", 0>>, r)
       \/ \E c \in 0..2 : Nth(1, c, r) /\ Do(<<"nth", c>>, r)
       \/ \E c \in 0..2 : NthBack(1, c, r) /\ Do(<<"nthb", c>>, r)
Spec == Init /\ [][Next]_im

View == IF Emit THEN <<[i \in 1..Len(hist) |-> hist[i].call]>> ELSE im
EmitT == (Emit /\ Len(hist') = MaxHist) => PrintT(ToJson([i \in 1..Len(hist') |-> hist'[i].call]))

Got(calls) == {hist[i].r[1] : i \in {j \in 1..Len(hist) : hist[j].call[1] \in calls /\ hist[j].r # <<>>}}
Yields == {j \in 1..Len(hist) : hist[j].r # <<>>}
FromFront == {j \in Yields : hist[j].call[1] \in {"next", "nth"}}
FromBack == {j \in Yields : hist[j].call[1] \in {"back", "nthb"}}
It(j) == hist[j].r[1]
LawOnce == \A i, j \in Yields : It(i) = It(j) => i = j
LawContained == \A j \in Yields : It(j) \in sets[1]
LawOrder ==
    /\ \A i, j \in FromFront : i < j => rank[It(i)] <= rank[It(j)]
    /\ \A i, j \in FromBack : i < j => rank[It(i)] >= rank[It(j)]
    /\ \A i \in FromFront, j \in FromBack : rank[It(i)] <= rank[It(j)]
LawFused == \A i, j \in 1..Len(hist) : (i < j /\ hist[i].r = <<>>) => hist[j].r = <<>>
\* without skipping, everything that is gone was yielded
LawAll == (\A i \in 1..Len(hist) : hist[i].call[1] \in {"next", "back"}) =>
             its[1].rem = sets[1] \ {It(j) : j \in Yields}
\* skipping c and then taking equals taking c + 1 times and showing the last
LawNth == \A i \in 1..Len(hist) :
             LET c == hist[i].call[2] IN
             hist[i].r = <<>> <=> Cardinality(hist[i].from) <= (IF hist[i].call[1] \in {"next", "back"} THEN 0 ELSE c)
LawBounds == \A lo \in 0..NK, hi \in (-1)..NK :
    (ENABLED SizeHint(1, lo, hi)) <=> (lo <= Cardinality(its[1].rem) /\ (hi = -1 \/ hi >= Cardinality(its[1].rem)))
=============================================================================
