---------------------------- MODULE TraceRecovery -----------------------------
(***************************************************************************)
(* Does the library make and decode recovery codes as Recovery.tla says?   *)
(* Each line of the trace file is one history of calls concerning codes:   *)
(*   rows     oracle of the decryption                                     *)
(*   events   op "code"   (pp, value) -> res: a code was generated         *)
(*            op "decode" (pp, text, value) -> res: a text was decoded;    *)
(*                        value is what the code it was made from stands   *)
(*                        for, and strict says that only this value may    *)
(*                        come out                                         *)
(*            op "format" (text) -> res: normal form, with punctuation     *)
(***************************************************************************)
EXTENDS Recovery, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.PFP_TRACE)
Prop == IOEnv.PFP_PROP
Verbose == IOEnv.PFP_VERBOSE = "1"

VARIABLES tid, l
vars == <<tid, l>>

Tr == Traces[tid]
Rows == Range(Tr.rows)

Init == tid \in DOMAIN Traces /\ l = 1

(* errors of the library for the diagnoses *)
ErrorOf(k) ==
  CASE k = "incomplete" -> "RecoveryCodeIncomplete"
    [] k = "mismatch" -> "RecoveryCodeChecksumMismatch"
    [] k = "extra" -> "RecoveryCodeExtraData"
    [] k = "version" -> "RecoveryCodeWrongVersion"
    [] k = "short" -> "RecoveryCodeInsufficientData"
    [] k = "undecryptable" -> "DecryptionFailure"
    [] k = "utf8" -> "InvalidUtf8"
    [] OTHER -> "no oracle"

Want(ev) == Decode(ev.text, ev.pp, Rows)

GoodDecode(ev) ==
  LET d == Want(ev)
  IN IF d.k = "ok" THEN ev.res.ok /\ ev.res.v = d.value
     ELSE /\ ~ev.res.ok
          /\ ev.res.e = ErrorOf(d.k)
          /\ d.k \in {"mismatch", "extra"} => ev.res.line = d.line

(* C09: the original value or none at all *)
NeverAnother(ev) == (ev.strict /\ ev.res.ok) => ev.res.v = ev.value

Good(ev) ==
  CASE ev.op = "code" -> ev.res.ok /\ GoodCode(ev.res.v, ev.pp, ev.value, Rows)
    [] ev.op = "decode" -> GoodDecode(ev) /\ NeverAnother(ev)
    [] ev.op = "format" -> ev.res.ok /\ ev.res.v = Punctuated(Chars(ev.text))

(* C09 does not speak about the diagnosis, C10 not about anything else *)
Accepts(ev) ==
  CASE Prop = "C09" /\ ev.op = "decode" -> (ev.res.ok <=> Want(ev).k = "ok") /\ (ev.res.ok => GoodDecode(ev) /\ NeverAnother(ev))
    [] Prop = "C10" /\ ev.op = "code" -> TRUE
    [] OTHER -> Good(ev)

Consume == /\ l =< Len(Tr.events)
           /\ Accepts(Tr.events[l])
           /\ l' = l + 1
           /\ UNCHANGED tid

Done == /\ l = Len(Tr.events) + 1
        /\ PrintT("DONE " \o ToString(tid))
        /\ UNCHANGED vars

Next == Consume \/ Done
Spec == Init /\ [][Next]_vars

Explain ==
  Verbose => PrintT("AT " \o ToJson([tid |-> tid, l |-> l,
      allowed |-> IF l =< Len(Tr.events) /\ Tr.events[l].op = "decode" THEN {Want(Tr.events[l])} ELSE {}]))
=============================================================================
