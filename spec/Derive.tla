------------------------------- MODULE Derive --------------------------------
(***************************************************************************)
(* Generated passwords: mapping of derived bytes to characters             *)
(* (pfp/src/crypto.rs, to_password).  The bytes are scrypt(N=32768, r=8,   *)
(* p=1) of the primary password with the salt PfpCore!DeriveSalt; scrypt   *)
(* itself is an oracle, computed independently by the drivers.             *)
(***************************************************************************)
EXTENDS Text

CharsLower == T("abcdefghjkmnpqrstuvwxyz")
CharsUpper == T("ABCDEFGHJKMNPQRSTUVWXYZ")
CharsDigit == T("23456789")
CharsSymbol == T("!#$%&()*+,-./:;<=>?@[]^_{|}~")

Classes == <<CharsLower, CharsUpper, CharsDigit, CharsSymbol>>

(* cs is a number with bits 1, 2, 4, 8 for the four classes *)
ClassesOf(cs) == {k \in 1..4 : (cs \div (CASE k = 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 4 [] k = 4 -> 8)) % 2 = 1}

ClassOf(c) == CHOOSE k \in 1..4 : c \in Range(Classes[k])

(* Allowed characters in class order *)
Alphabet(K) == Cat([k \in 1..4 |-> IF k \in K THEN Classes[k] ELSE <<>>])

RECURSIVE MapBytes(_, _, _, _)
MapBytes(bytes, K, seen, acc) ==
  IF bytes = <<>> THEN acc
  ELSE LET missing == K \ seen
           \* the remaining characters are needed for the classes not seen yet
           allowed == IF Cardinality(K) - Cardinality(seen) >= Len(bytes) THEN missing ELSE K
           alphabet == Alphabet(allowed)
           c == alphabet[(bytes[1] % Len(alphabet)) + 1]
       IN MapBytes(Tail(bytes), K, seen \cup {ClassOf(c)}, Append(acc, c))

ToPassword(bytes, cs) == MapBytes(bytes, ClassesOf(cs), {}, <<>>)

(* What C08 promises of every generated password *)
WellMade(value, len, cs) ==
  /\ Len(value) = len
  /\ \A i \in DOMAIN value : \E k \in ClassesOf(cs) : value[i] \in Range(Classes[k])
  /\ len >= Cardinality(ClassesOf(cs)) =>
        \A k \in ClassesOf(cs) : \E i \in DOMAIN value : value[i] \in Range(Classes[k])
=============================================================================
