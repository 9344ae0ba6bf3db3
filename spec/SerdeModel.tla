----------------------------- MODULE SerdeModel -----------------------------
(***************************************************************************)
(* Deserializing element by element, from every short input.  An input is  *)
(* a sequence of <<k, v>>; k = 0 is a malformed key, v = 0 a malformed     *)
(* value.  ann is the length announced by the format (-1: none).           *)
(***************************************************************************)
EXTENDS FixedMap, Json
CONSTANTS NK, NV, MaxLen
VARIABLES input, ann, i, m, status
dv == <<rank, maps, its, ent, input, ann, i, m, status>>
Elts == (0..NK) \X (0..NV)
Inputs == UNION {[1..n -> Elts] : n \in 0..MaxLen}
Init ==
    /\ rank = [x \in 1..NK |-> x] /\ maps = NoFn /\ its = NoFn /\ ent = NoEnt
    /\ input \in Inputs /\ ann \in {-1, 0, MaxLen}
    /\ i = 1 /\ m = [k \in 1..NK |-> Absent] /\ status = "run"
Bad(x) == x[1] = 0 \/ x[2] = 0
Mal == \E x \in 1..Len(input) : Bad(input[x])
Next ==
    /\ status = "run" /\ UNCHANGED <<input, ann>>
    /\ IF i > Len(input)
       THEN /\ status' = "ok" /\ UNCHANGED <<i, m>>
            /\ DeserializeFrom(1, input, Mal, TRUE)
       ELSE IF Bad(input[i])
       THEN /\ status' = "err" /\ UNCHANGED <<i, m>>
            /\ DeserializeFrom(1, input, Mal, FALSE)
       ELSE /\ m' = [m EXCEPT ![input[i][1]] = input[i][2]] /\ i' = i + 1
            /\ UNCHANGED <<status, rank, maps, its, ent>>
Spec == Init /\ [][Next]_dv
EmitT == (status' # "run" /\ ann = -1) => PrintT(ToJson(input))

\* the last entry for a repeated key wins, nothing else is present
LastOf(k) == LET p == {x \in 1..Len(input) : input[x][1] = k} IN
             IF p = {} THEN Absent ELSE input[CHOOSE x \in p : \A y \in p : y <= x][2]
LawLast == status = "ok" => \A k \in Keys : maps[1][k] = LastOf(k)
\* success exactly for well-formed inputs; after an error there is no container
LawError == /\ status = "ok" => ~Mal
            /\ status = "err" => Mal /\ 1 \notin DOMAIN maps
\* the machine always decides, whatever was announced, and as the one-step action says
LawDone == status = "run" => (ENABLED Next)
LawAnnounce == status = "ok" => maps[1] = m
\* writing the result and reading it back gives an equal map
Listing(f) == [x \in 1..Cardinality(Dom(f)) |->
                LET k == CHOOSE y \in Dom(f) : Cardinality({z \in Dom(f) : z < y}) = x - 1 IN <<k, f[k]>>]
LawRoundTrip == status = "ok" =>
    /\ ENABLED SerializeTo(1, Len(Listing(maps[1])), Listing(maps[1]))
    /\ Build(EmptyMap, Listing(maps[1]), 1) = maps[1]
    /\ ~ENABLED SerializeTo(1, -1, Listing(maps[1]))
=============================================================================
