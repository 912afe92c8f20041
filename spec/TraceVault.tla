----------------------------- MODULE TraceVault ------------------------------
(***************************************************************************)
(* Are recorded histories of library calls behaviours of Vault.tla?        *)
(*                                                                         *)
(* Each line of the trace file is one history:                             *)
(*   disk0   projected contents of the file before the first call          *)
(*   n       number of instances                                           *)
(*   events  one record per call: arguments, res (the result) and disk     *)
(*           (projected contents of the file afterwards)                   *)
(* The environment variable PFP_PROP selects the property to decide: an    *)
(* event which contradicts the specification in an aspect this property    *)
(* speaks about cannot be consumed, so the history is rejected.  In other  *)
(* aspects the observed state is adopted.                                  *)
(***************************************************************************)
EXTENDS Vault, Derive, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.PFP_TRACE)
Prop == IOEnv.PFP_PROP
Verbose == IOEnv.PFP_VERBOSE = "1"

VARIABLES tid, l, v, wiped, taint    \* taint: a failed call since the last successful modification
vars == <<tid, l, v, wiped, taint>>

Evs(t) == Traces[t].events

D(d) == [kind |-> d.kind, pp |-> d.pp, st |-> [sites |-> Range(d.sites), pws |-> Range(d.pws)]]

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ v = [disk |-> D(Traces[tid].disk0), inst |-> [i \in 1..Traces[tid].n |-> Closed]]
        /\ taint = FALSE
        /\ wiped = FALSE

-----------------------------------------------------------------------------
(* Matching one permitted outcome o against the event *)

SaveErrors == {"FileWriteFailure", "CreateDirFailure"}
DamageErrors == {"DecryptionFailure", "InvalidCiphertext", "InvalidBase64", "InvalidJson", "InvalidUtf8"}

Row(ev, p, pp) ==
  {r \in Range(ev.bits) : r.pp = pp /\ r.salt = DeriveSalt(p) /\ r.len = p.len}

Value(ev, p) ==       \* value "get" returns for entry p, {} if no oracle row
  IF p.type = "sto" THEN {p.value}
  ELSE {ToPassword(r.bytes, p.cs) : r \in Row(ev, p, v.inst[ev.i].mem.pp)}

ResMatches(o, ev) ==
  IF ~o.res.ok
  THEN /\ ~ev.res.ok
       /\ CASE o.res.e = "SaveFailure" -> ev.res.e \in SaveErrors
            [] o.res.e = "AnyError" -> TRUE
            [] o.res.e = "AliasRefused" -> ev.res.e \in {"SiteHasPasswords", "AliasToSelf"}
            [] o.res.e = "BadFile" -> ev.res.e \in {"InvalidJson", "FileReadFailure", "UnexpectedStorageFormat"}
            [] o.res.e = "Damaged" -> ev.res.e \in DamageErrors
            [] OTHER -> ev.res.e = o.res.e
  ELSE /\ ev.res.ok
       /\ CASE ev.op = "get" -> ev.res.v \in Value(ev, o.res.v)
            [] ev.op \in {"list", "listSites"} ->
                 Range(ev.res.v) = o.res.v /\ Len(ev.res.v) = Cardinality(o.res.v)
            [] ev.op \in {"getAlias", "has", "getNotes", "initialized", "unlocked"} -> ev.res.v = o.res.v
            [] OTHER -> TRUE

(* entries of the file which cannot be attributed to anything stay as they are *)
Odd(ev) == IF wiped \/ (ev.op = "reset" /\ ev.res.ok) THEN <<>> ELSE Traces[tid].disk0.odd

DiskMatches(o, ev) == D(ev.disk) = o.v.disk /\ ev.disk.odd = Odd(ev)

-----------------------------------------------------------------------------
(* Which aspects a property speaks about *)

NotesOps == {"getNotes", "setNotes"}
AliasOps == {"getAlias", "setAlias", "removeAlias"}
IdOps == {"has", "get", "getNotes", "setNotes", "setGenerated", "setStored", "remove"}

Failing(ev, O) == ~ev.res.ok \/ \A k \in DOMAIN O : \A o \in O[k] : ~o.res.ok

NotesOf(d) == {[site |-> p.site, name |-> p.name, rev |-> p.rev, notes |-> p.notes] :
                 p \in {q \in d.st.pws : q.notes # <<>>}}

CheckRes(ev, O) ==
  CASE Prop \in {"ALL", "C14", "C16", "C17", "C20"} -> TRUE
    [] Prop = "C01" -> ev.op \in ReadOps \cup {"load", "unlock"}
    [] Prop = "C02" -> taint /\ ev.op \in ReadOps
    [] Prop = "C03" -> ev.op \in IdOps
    [] Prop = "C04" -> ev.op \in AliasOps \cup IdOps
    [] Prop = "C05" -> ev.op \in {"list", "listSites"}
    [] Prop = "C06" -> ev.op \in {"unlock", "unlocked"} \/ ~v.inst[ev.i].unl
    [] Prop = "C07" -> ev.op \in {"reset", "unlock", "load"}
    [] Prop = "C08" -> ev.op = "get"
    [] Prop = "C11" -> ev.op \in NotesOps \cup {"list"}
    [] OTHER -> FALSE

CheckDisk(ev, O) ==
  CASE Prop \in {"ALL", "C14", "C16", "C17", "C20"} -> TRUE
    [] Prop = "C01" -> ev.res.ok
    [] Prop = "C02" -> Failing(ev, O) \/ ev.op \in ReadOps \/ taint
    [] Prop = "C03" -> ev.op \in IdOps
    [] Prop = "C04" -> ev.op \in AliasOps \cup IdOps
    [] Prop = "C06" -> ev.op = "unlock" \/ ~v.inst[ev.i].unl
    [] Prop = "C07" -> ev.op = "reset"
    [] Prop = "C11" -> ev.op \in NotesOps
    [] OTHER -> FALSE

(* partial aspects of the contents some properties speak about *)
Extra(o, ev) ==
  /\ Prop = "C11" => NotesOf(D(ev.disk)) = NotesOf(o.v.disk)
  /\ Prop = "C04" => AliasesOneStep(D(ev.disk).st) /\ NoCapture(D(ev.disk).st)

Accepts(o, ev, O) ==
  /\ CheckRes(ev, O) => ResMatches(o, ev)
  /\ CheckDisk(ev, O) => DiskMatches(o, ev)
  /\ Extra(o, ev)

(* After an irrelevant deviation go on from what was observed *)
Adopt(o, ev) ==
  IF DiskMatches(o, ev) /\ (ev.res.ok = o.res.ok) THEN o.v
  ELSE LET d == D(ev.disk)
           I == o.v.inst[ev.i]
       IN [o.v EXCEPT !.disk = d,
                      !.inst[ev.i] = [I EXCEPT !.mem = d, !.unl = @ /\ d.kind = "store"]]

(* a sequence of sets, as results of different types can't be in one set for TLC *)
Outcomes(ev) == <<Apply(v, ev)>> \o (IF Prop = "C20" THEN Careful(v, ev) ELSE <<>>)

Consume ==
  LET ev == Evs(tid)[l]
      O == IF ev.op = "foreign" THEN <<>> ELSE Outcomes(ev)
  IN /\ IF ev.op = "foreign" THEN v' = [v EXCEPT !.disk = D(ev.disk)]      \* another implementation wrote the file
        ELSE \E k \in DOMAIN O : \E o \in O[k] : Accepts(o, ev, O) /\ v' = Adopt(o, ev)
     /\ l' = l + 1
     /\ wiped' = (wiped \/ (ev.op = "reset" /\ ev.res.ok))
     /\ taint' = (IF ev.op = "foreign" \/ (ev.op \in WriteOps /\ ~Failing(ev, O)) THEN FALSE ELSE taint \/ Failing(ev, O))
     /\ UNCHANGED tid

Done == /\ l = Len(Evs(tid)) + 1
        /\ PrintT("DONE " \o ToString(tid))
        /\ UNCHANGED vars

Step == /\ l =< Len(Evs(tid))
        /\ Consume

Explain ==
  Verbose => PrintT("AT " \o ToJson([tid |-> tid, l |-> l, v |-> v,
      allowed |-> IF l =< Len(Evs(tid)) /\ Evs(tid)[l].op # "foreign" THEN LET O == Outcomes(Evs(tid)[l]) IN [k \in DOMAIN O |-> {[res |-> o.res, disk |-> o.v.disk] : o \in O[k]}] ELSE <<>>]))

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
