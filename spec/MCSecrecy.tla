----------------------------- MODULE MCSecrecy ------------------------------
(***************************************************************************)
(* A program which draws its nonces, salts and secrets in some way (Rng),  *)
(* watched by the observer of Secrecy.tla: with fresh ones nothing is ever *)
(* reused and the observer is content; with any of the other ways to draw  *)
(* them a reuse occurs, and the observer notices every reuse.              *)
(* All sequences of operations up to Depth can be emitted (Emit); they are *)
(* executed by the real library, whose files the observer then judges.     *)
(***************************************************************************)
EXTENDS Secrecy, Json, TLC

CONSTANTS Rng,      \* "fresh", "process" (a counter starting anew in each process), "keep" (an entry's nonce is
                    \* kept when it is overwritten), "content" (from what is encrypted), "code" (codes take the
                    \* entry's nonce), "salt" / "secret" (kept when a new primary password is set)
          Keys, Values, Depth, Emit

VARIABLES file,     \* [salt, secret, entries]; here a ciphertext is salt and plaintext
          drawn,    \* counter of the random number generator
          s,        \* the observer
          ok,       \* has the observer been content so far?
          used,     \* number of times each <<salt, nonce>> was used to encrypt
          salts,    \* salts drawn
          ops       \* operations so far
vars == <<file, drawn, s, ok, used, salts, ops>>

NoFile == [salt |-> None, secret |-> None, entries |-> {}]

Nonce(k, x, d) ==
  CASE Rng = "keep" /\ \E e \in file.entries : e.k = k -> (CHOOSE e \in file.entries : e.k = k).n
    [] Rng = "content" -> <<k, x>>
    [] OTHER -> <<d>>

Use(salt, n) == LET p == <<salt, n>> IN IF p \in DOMAIN used THEN [used EXCEPT ![p] = @ + 1] ELSE (p :> 1) @@ used

Observe(good, next) == ok' = (ok /\ good) /\ s' = next

Init ==
  /\ file = NoFile /\ drawn = 1 /\ s = Unseen /\ ok = TRUE /\ used = << >> /\ salts = {} /\ ops = <<>>

Do(op) == Len(ops) < Depth /\ ops' = Append(ops, op)

Reset ==
  /\ Do([op |-> "reset", k |-> "", x |-> ""])
  /\ LET salt == IF Rng = "salt" /\ file.salt # None THEN file.salt ELSE <<"salt", drawn>>
         secret == IF Rng = "secret" /\ file.secret # None THEN file.secret ELSE <<"secret", drawn>>
         n == IF Rng = "content" THEN <<"hmac-secret", secret>> ELSE <<drawn>>
         f == [salt |-> salt, secret |-> secret, entries |-> {[k |-> "hmac-secret", n |-> n, c |-> <<salt, secret>>]}]
     IN /\ file' = f
        /\ used' = Use(salt, n)
        /\ salts' = salts \cup {salt}
        /\ Observe(Initialised(s, f), Seen(s, f))
  /\ drawn' = drawn + 1

Set(k, x) ==
  /\ file.salt # None
  /\ ~\E e \in file.entries : e.k = k /\ e.c = <<file.salt, x>>       \* a change
  /\ Do([op |-> "set", k |-> k, x |-> x])
  /\ LET n == Nonce(k, x, drawn)
         f == [file EXCEPT !.entries = {e \in @ : e.k # k} \cup {[k |-> k, n |-> n, c |-> <<file.salt, x>>]}]
     IN /\ file' = f
        /\ used' = Use(file.salt, n)
        /\ Observe(Saved(s, f), Seen(s, f))
  /\ drawn' = drawn + 1
  /\ UNCHANGED salts

Remove(k) ==
  /\ \E e \in file.entries : e.k = k
  /\ Do([op |-> "remove", k |-> k, x |-> ""])
  /\ LET f == [file EXCEPT !.entries = {e \in @ : e.k # k}]
     IN file' = f /\ Observe(Saved(s, f), Seen(s, f))
  /\ UNCHANGED <<drawn, used, salts>>

RecoveryCode(k) ==
  /\ \E e \in file.entries : e.k = k
  /\ Do([op |-> "code", k |-> k, x |-> ""])
  /\ LET e == CHOOSE e \in file.entries : e.k = k
         n == IF Rng = "code" THEN e.n ELSE IF Rng = "content" THEN <<"code", e.c>> ELSE <<drawn>>
         c == [salt |-> file.salt, n |-> n]
     IN /\ used' = Use(file.salt, n)
        /\ Observe(GoodCode(s, c), Code(s, c))
  /\ drawn' = drawn + 1
  /\ UNCHANGED <<file, salts>>

Restart ==
  /\ file.salt # None
  /\ Do([op |-> "restart", k |-> "", x |-> ""])
  /\ drawn' = IF Rng = "process" THEN 1 ELSE drawn
  /\ UNCHANGED <<file, s, ok, used, salts>>

Setting == \E k \in Keys, x \in Values : Set(k, x)
Removing == \E k \in Keys : Remove(k)
Coding == \E k \in Keys : RecoveryCode(k)
Next == Reset \/ Setting \/ Removing \/ Coding \/ Restart
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NonceReused == \E p \in DOMAIN used : used[p] > 1
NeverReused == ~NonceReused

(* the observer is content as long as nothing is reused ... *)
Content == Rng = "fresh" => ok
(* ... and notices when something is *)
Notices == NonceReused => ~ok
SaltsFresh == ok => Cardinality(salts) = Len(SelectSeq(ops, LAMBDA o : o.op = "reset"))

(* refuted for every way to draw them but "fresh" *)
Pleased == ok

EmitOps == (Emit /\ Len(ops) = Depth) => PrintT("OPS " \o ToJson(ops))
=============================================================================
