------------------------------ MODULE FootLaws ------------------------------
(* Which sizes does Footprint admit, for every number of variants? *)
EXTENDS Footprint
VARIABLES n
Init == n \in 0..128
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
Widths == {1, 2, 4, 8, 16}
Plain == [t |-> "units", n |-> n]
Bits == [t |-> "units", n |-> n, b |-> 1]
LawFits == IntBytes(n) \in Widths /\ IntBytes(n) * 8 >= n
LawSmallest == \A w \in Widths : w * 8 >= n => IntBytes(n) <= w
LawMonotone == n > 0 => IntBytes(n - 1) <= IntBytes(n)
LawExact ==
    /\ {s \in 0..300 : SetSizeOk(Plain, s)} = {n}
    /\ {s \in 0..300 : SetSizeOk(Bits, s)} = {IntBytes(n)}
    /\ {s \in 0..300 : RawSizeOk(Bits, s)} = {IntBytes(n)}
    /\ {s \in 0..2100 : MapSizeOk(Plain, s, n * Opt1, n * Opt160)} = {n * Opt8}
=============================================================================
