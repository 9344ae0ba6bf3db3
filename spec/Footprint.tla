------------------------------ MODULE Footprint ------------------------------
(***************************************************************************)
(* Space: what a container of a given key type occupies.  Only for key     *)
(* types without dynamically stored keys.                                  *)
(* A "units" term with field b is an enum with bit storage.                *)
(***************************************************************************)
EXTENDS KeySpace, TLC, Integers

\* bytes of the smallest unsigned integer with n bits
IntBytes(n) == IF n <= 8 THEN 1 ELSE IF n <= 16 THEN 2 ELSE IF n <= 32 THEN 4 ELSE IF n <= 64 THEN 8 ELSE 16
IsBits(T) == T.t = "units" /\ "b" \in DOMAIN T
\* sizes of Option<u64>, Option<u8> and Option<[u64; 20]>
Opt8 == 16
Opt1 == 2
Opt160 == 168

SetSizeOk(T, s) ==
    IF IsBits(T) THEN s = IntBytes(T.n)
    ELSE IF T.t = "units" THEN s = T.n
    ELSE TRUE
MapSizeOk(T, m8, m1, m160) == T.t = "units" => m8 = T.n * Opt8 /\ m1 = T.n * Opt1 /\ m160 = T.n * Opt160
RawSizeOk(T, r) == IF IsBits(T) THEN r = IntBytes(T.n) ELSE r = 0
=============================================================================
