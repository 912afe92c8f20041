------------------------------ MODULE Secrecy -------------------------------
(***************************************************************************)
(* What an observer without the primary password sees of the storage file  *)
(* over time: salt, digest secret (identified, not known), and encrypted   *)
(* values, each with its nonce.  The contents behind them are those of     *)
(* Vault.tla; here it is only about randomness and disclosure.             *)
(*                                                                         *)
(* s = [salt, secret, entries    of the file,                              *)
(*      nonces, salts, secrets   ever seen, in any file or recovery code,  *)
(*      hist                     lines of the shell's history file]        *)
(* An entry is [k |-> key, n |-> nonce, c |-> ciphertext]; the encrypted   *)
(* digest secret is one of them.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == <<>>

Unseen == [salt |-> None, secret |-> None, entries |-> {}, nonces |-> {}, salts |-> {}, secrets |-> {}, hist |-> <<>>]

Nonces(E) == {e.n : e \in E}
Changed(s, f) == f.entries \ s.entries

Seen(s, f) ==
  [s EXCEPT !.salt = f.salt, !.secret = f.secret, !.entries = f.entries,
            !.nonces = @ \cup Nonces(f.entries), !.salts = @ \cup {f.salt}, !.secrets = @ \cup {f.secret}]

(* each of these encryptions used a nonce of its own, never used before *)
FreshNonces(s, E) == Cardinality(Nonces(E)) = Cardinality(E) /\ Nonces(E) \cap s.nonces = {}

(* nothing in one file shares a nonce *)
Distinct(f) == Cardinality(Nonces(f.entries)) = Cardinality(f.entries)

(* An ordinary save keeps salt and secret and encrypts what it changes. *)
Saved(s, f) ==
  /\ f.salt = s.salt
  /\ f.secret = s.secret
  /\ FreshNonces(s, Changed(s, f))

(* A new primary password: everything is new. *)
Initialised(s, f) ==
  /\ f.salt \notin s.salts
  /\ f.secret \notin s.secrets
  /\ FreshNonces(s, f.entries)

(* A recovery code: encrypted under the file's salt or one of its own *)
GoodCode(s, c) ==
  /\ c.salt = s.salt \/ c.salt \notin s.salts
  /\ c.n \notin s.nonces
Code(s, c) == [s EXCEPT !.nonces = @ \cup {c.n}, !.salts = @ \cup {c.salt}]

RECURSIVE GoodCodes(_, _)
GoodCodes(s, cs) == cs = <<>> \/ (GoodCode(s, Head(cs)) /\ GoodCodes(Code(s, Head(cs)), Tail(cs)))
RECURSIVE Codes(_, _)
Codes(s, cs) == IF cs = <<>> THEN s ELSE Codes(Code(s, Head(cs)), Tail(cs))

-----------------------------------------------------------------------------
(* Salt, secret and nonces are drawn independently of each other: no part  *)
(* of one shows up in another.                                             *)
Windows(x, n) == {SubSeq(x, i, i + n - 1) : i \in 1..(Len(x) - n + 1)}
Apart(x, y) == Windows(x, 6) \cap Windows(y, 6) = {}
Independent(f) ==
  /\ Apart(f.salt, f.secret)
  /\ \A n \in Nonces(f.entries) : Apart(n, f.salt) /\ Apart(n, f.secret)

(* ... and are random: over many of them every byte takes many values, and *)
(* no two share most of their bytes.                                       *)
AtLeast(n) == IF n < 8 THEN 1 ELSE IF n < 64 THEN n \div 2 ELSE 32
Spread(S, len) ==
  /\ \A x \in S : Len(x) = len
  /\ \A i \in 1..len : Cardinality({x[i] : x \in S}) >= AtLeast(Cardinality(S))
Unlike(x, y) == Cardinality({i \in DOMAIN x \cap DOMAIN y : x[i] = y[i]}) < 8

-----------------------------------------------------------------------------
(* The shell's history: commands as entered, without repetitions, the last *)
(* hundred of them.                                                        *)
Keep == 100
Remember(h, line) ==
  IF line = <<>> \/ (h # <<>> /\ h[Len(h)] = line) THEN h
  ELSE LET g == Append(h, line) IN IF Len(g) > Keep THEN Tail(g) ELSE g
RECURSIVE Entered(_, _)
Entered(h, lines) == IF lines = <<>> THEN h ELSE Entered(Remember(h, Head(lines)), Tail(lines))
=============================================================================
