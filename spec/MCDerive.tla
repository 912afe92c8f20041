------------------------------- MODULE MCDerive -------------------------------
(***************************************************************************)
(* The mapping of derived bytes to characters keeps what C08 promises, for *)
(* all byte sequences up to a length over a set of bytes, and all charsets *)
(***************************************************************************)
EXTENDS Derive

CONSTANTS Bytes, MaxLen, Wrong

VARIABLES bytes, cs
vars == <<bytes, cs>>

Init == bytes = <<>> /\ cs \in 1..15
Next == /\ Len(bytes) < MaxLen
        /\ \E b \in Bytes : bytes' = Append(bytes, b)
        /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars

(* a wrong variant: no care for classes not seen yet *)
Careless == [i \in DOMAIN bytes |-> Alphabet(ClassesOf(cs))[(bytes[i] % Len(Alphabet(ClassesOf(cs)))) + 1]]

Made == IF Wrong THEN Careless ELSE ToPassword(bytes, cs)
Inv == WellMade(Made, Len(bytes), cs)

Few == {0, 22, 50, 77, 255}
All == 0..255
=============================================================================
