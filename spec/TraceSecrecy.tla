---------------------------- MODULE TraceSecrecy -----------------------------
(***************************************************************************)
(* Recorded histories of the storage file, of recovery codes and of the    *)
(* shell's history file, judged by Secrecy.tla.                            *)
(* Each line of the trace file is one history; events have                 *)
(*   op       "adopt"    a file somebody else has written                  *)
(*            "step"     the program has done something                    *)
(*            "summary"  everything one history has drawn (in a history of *)
(*                       summaries: all of them together)                  *)
(*            "spread"   ends the summaries                                *)
(*   reset    "no", "maybe", "done": setting a primary password was tried, *)
(*            was reported as done                                         *)
(*   present  is there a storage file?                                     *)
(*   salt, secret, entries   of the file ([k, n, c])                       *)
(*   codes    recovery codes shown ([salt, n])                             *)
(*   nonces, salts, secrets  of a summary                                  *)
(*   leaks    texts found in readable form in anything written             *)
(*   odd      parts of the file which are neither entries under a keyed    *)
(*            digest nor authenticated ciphertexts                         *)
(*   typed    the commands entered in a shell which is now over            *)
(*   ended    has a shell ended as it should?                              *)
(*   hist     lines of the history file                                    *)
(***************************************************************************)
EXTENDS Secrecy, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.PFP_TRACE)
Prop == IOEnv.PFP_PROP
Verbose == IOEnv.PFP_VERBOSE = "1"

VARIABLES tid, l, s
vars == <<tid, l, s>>

Range(q) == {q[i] : i \in DOMAIN q}
File(ev) == [salt |-> ev.salt, secret |-> ev.secret, entries |-> Range(ev.entries)]
Same(f) == f.salt = s.salt /\ f.secret = s.secret /\ f.entries = s.entries

Init == tid \in DOMAIN Traces /\ l = 1 /\ s = Unseen

(* what is wrong with the event; the empty set if nothing is *)
Step(ev) ==
  LET f == File(ev)
      t == IF ev.present THEN Seen(s, f) ELSE s
  IN UNION {
       IF ev.present /\ ~Same(f) THEN
         IF ev.reset = "no" \/ (ev.reset = "maybe" /\ f.salt = s.salt /\ f.secret = s.secret)
         THEN (IF f.salt # s.salt THEN {"the salt changes"} ELSE {})
              \cup (IF f.secret # s.secret THEN {"the digest secret changes"} ELSE {})
              \cup (IF FreshNonces(s, Changed(s, f)) THEN {} ELSE {"a nonce is used again"})
         ELSE (IF f.salt \in s.salts THEN {"the salt is not a new one"} ELSE {})
              \cup (IF f.secret \in s.secrets THEN {"the digest secret is not a new one"} ELSE {})
              \cup (IF FreshNonces(s, f.entries) THEN {} ELSE {"a nonce is used again"})
       ELSE IF ev.present /\ ev.reset = "done" THEN {"the salt is not a new one"} ELSE {},
       IF ev.present /\ ~Distinct(f) THEN {"two entries share a nonce"} ELSE {},
       IF ev.present /\ ~Independent(f) THEN {"salt, secret and nonces share parts"} ELSE {},
       IF GoodCodes(t, ev.codes) THEN {} ELSE {"a recovery code uses a nonce or a foreign salt again"},
       IF ev.leaks # <<>> THEN {"readable: " \o ToString(ev.leaks)} ELSE {},
       IF ev.odd # <<>> THEN {"neither keyed digests nor ciphertexts: " \o ToString(ev.odd)} ELSE {},
       IF Range(ev.hist) \subseteq Range(s.hist) \cup Range(ev.typed) THEN {}
       ELSE {"the history holds what is no entered command"},
       IF ev.ended /\ ~(Range(Entered(s.hist, ev.typed)) \subseteq Range(ev.hist))
       THEN {"the history does not hold the entered commands"} ELSE {}}

Wrong(ev) ==
  CASE ev.op = "adopt" -> {}
    [] ev.op = "step" -> Step(ev)
    [] ev.op = "summary" ->
         (IF Range(ev.nonces) \cap s.nonces = {} THEN {} ELSE {"a nonce is used again in another history"})
         \cup (IF Range(ev.salts) \cap s.salts = {} THEN {} ELSE {"a salt is used again in another history"})
         \cup (IF Range(ev.secrets) \cap s.secrets = {} THEN {} ELSE {"a digest secret is used again in another history"})
         \cup (IF \A i \in 1..(Len(ev.nonces) - 1) : Unlike(ev.nonces[i], ev.nonces[i + 1]) THEN {} ELSE {"nonces are alike"})
         \cup (IF \A i \in 1..(Len(ev.salts) - 1) : Unlike(ev.salts[i], ev.salts[i + 1]) THEN {} ELSE {"salts are alike"})
    [] ev.op = "spread" ->
         (IF Spread(s.nonces, 12) THEN {} ELSE {"nonces are not random"})
         \cup (IF Spread(s.salts, 16) THEN {} ELSE {"salts are not random"})
         \cup (IF Spread(s.secrets, 32) THEN {} ELSE {"digest secrets are not random"})

(* C07 speaks about the salt of a new storage only *)
Accepts(ev) ==
  IF Prop = "C07" THEN Wrong(ev) \cap {"the salt is not a new one", "a salt is used again in another history", "salts are not random",
                                       "salts are alike"} = {}
  ELSE Wrong(ev) = {}

After(ev) ==
  IF ev.op = "summary"
  THEN [s EXCEPT !.nonces = @ \cup Range(ev.nonces), !.salts = @ \cup Range(ev.salts), !.secrets = @ \cup Range(ev.secrets)]
  ELSE IF ev.op = "spread" THEN s
  ELSE LET t == IF ev.present THEN Seen(s, File(ev)) ELSE s
       IN [Codes(t, ev.codes) EXCEPT !.hist = ev.hist]

Consume == /\ l =< Len(Traces[tid].events)
           /\ Accepts(Traces[tid].events[l])
           /\ s' = After(Traces[tid].events[l])
           /\ l' = l + 1
           /\ UNCHANGED tid

Done == /\ l = Len(Traces[tid].events) + 1
        /\ PrintT("DONE " \o ToString(tid))
        /\ UNCHANGED vars

Next == Consume \/ Done
Spec == Init /\ [][Next]_vars

Explain ==
  Verbose => PrintT("AT " \o ToJson([tid |-> tid, l |-> l,
      allowed |-> IF l =< Len(Traces[tid].events) THEN Wrong(Traces[tid].events[l]) ELSE {}]))
=============================================================================
