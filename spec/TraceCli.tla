------------------------------ MODULE TraceCli -------------------------------
(***************************************************************************)
(* Are recorded runs of the command line program behaviours of Cli.tla?    *)
(*                                                                         *)
(* Each line of the trace file is one history on one storage file:         *)
(*   disk0, path, n (processes), rows (oracle of recovery codes),          *)
(*   bits (oracle of scrypt) and events, one per input:                    *)
(*     i      process                                                      *)
(*     in     [k, words, t], the input; "recall" stands for entering the   *)
(*            t[1]-th last command line once more                          *)
(*     fault  what happens to file operations meanwhile: "no", "yes",      *)
(*            "maybe" (see Cli.tla) or "crash" (killed)                    *)
(*     normal what the file holds after the same input without failures,   *)
(*            if known                                                     *)
(*     out    segments of output until the process waits or ends           *)
(*     err    segments of standard error, if recorded apart (split)        *)
(*     st     -1 (waits) or exit code                                      *)
(*     disk   projected contents of the file then                          *)
(*     echo   does the terminal show what is entered then ("on", "off",    *)
(*            "none" without terminal)                                     *)
(*     place  what lies around the file then (see Place.tla), <<>> if as   *)
(*            before or unknown; mess: could the program tidy up?          *)
(*     hist   lines of the history file then, <<>> if as before            *)
(* PFP_PROP selects the property to decide, as in TraceVault.              *)
(***************************************************************************)
EXTENDS Cli, History, Place, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.PFP_TRACE)
Prop == IOEnv.PFP_PROP
Verbose == IOEnv.PFP_VERBOSE = "1"

VARIABLES tid, l, w, lost, wiped,
          Q,         \* surroundings of the file, see Place.tla
          H,         \* command history, see History.tla
          taint      \* something failed or was declined since the last change of the file
vars == <<tid, l, w, lost, wiped, H, Q, taint>>

Tr == Traces[tid]

D(d) == [kind |-> d.kind, pp |-> d.pp, st |-> [sites |-> Range(d.sites), pws |-> Range(d.pws)]]

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ w = [disk |-> D(Traces[tid].disk0), path |-> Traces[tid].path,
                procs |-> [i \in 1..Traces[tid].n |-> Idle]]
        /\ lost = FALSE
        /\ taint = FALSE
        /\ H = NoHistory(Traces[tid].hist0, 1..Traces[tid].n)
        /\ wiped = FALSE
        /\ Q = Untouched(Range(Traces[tid].place0))

Rows == Range(Tr.rows)

-----------------------------------------------------------------------------
(* Output *)

GenValue(p, pp) ==       \* {} without oracle row
  {ToPassword(r.bytes, p.cs) : r \in {r \in Range(Tr.bits) : r.pp = pp /\ r.salt = DeriveSalt(p) /\ r.len = p.len}}

(* Replaces the segments standing for generated values and joins texts *)
RECURSIVE Expand(_, _)
Expand(out, pp) ==
  IF out = <<>> THEN <<>>
  ELSE LET s == Head(out)
           V == GenValue(s.p, pp)
           v == IF V = {} THEN T("no oracle row") ELSE CHOOSE v \in V : TRUE
           h == CASE s.k = "pw" -> Seg("txt", v)
                  [] s.k = "qr" /\ s.p.type = "gen" -> Seg("qr", v)
                  [] OTHER -> Seg(s.k, s.t)
           rest == Expand(Tail(out), pp)
       IN IF h.k = "txt" /\ h.t = <<>> THEN rest
          ELSE IF rest # <<>> /\ h.k = "txt" /\ rest[1].k = "txt"
          THEN <<Seg("txt", h.t \o rest[1].t)>> \o Tail(rest)
          ELSE <<h>> \o rest

RECURSIVE Match(_, _, _)
Match(exp, obs, pp) ==
  IF exp = <<>> THEN obs = <<>>
  ELSE IF exp[1].k = "all" THEN TRUE
  ELSE IF obs = <<>> THEN FALSE
  ELSE LET e == exp[1]
           o == obs[1]
           Rest(n) == IF n = Len(o.t) THEN Tail(obs) ELSE <<[k |-> "txt", t |-> SubSeq(o.t, n + 1, Len(o.t))]>> \o Tail(obs)
       IN CASE e.k = "txt" -> o.k = "txt" /\ IsPrefixOf(e.t, o.t) /\ Match(Tail(exp), Rest(Len(e.t)), pp)
            [] e.k = "line" ->
                 /\ o.k = "txt"
                 /\ LET N == {i \in DOMAIN o.t : o.t[i] = NL}
                    IN N # {} /\ MinOf(N) > 1 /\ Match(Tail(exp), Rest(MinOf(N)), pp)
            [] e.k = "any" -> o.k = "txt"
            [] e.k = "code" -> o.k = "code" /\ GoodCode(o.t, pp, e.t, Rows) /\ Match(Tail(exp), Tail(obs), pp)
            [] e.k = "qr" -> o.k = "qr" /\ o.t = e.t /\ Match(Tail(exp), Tail(obs), pp)
            [] OTHER -> FALSE

OutMatches(o, ev) ==
  LET pp == o.w.procs[ev.i].mem.pp
      Part(err) == SelectSeq(o.out, LAMBDA s : s.err = err \/ s.k = "all")
  IN IF Tr.split THEN Match(Expand(Part(FALSE), pp), ev.out, pp) /\ Match(Expand(Part(TRUE), pp), ev.err, pp)
     ELSE Match(Expand(o.out, pp), ev.out, pp)
StMatches(o, ev) == ev.st = o.st
(* entries of the file which cannot be attributed to anything stay as they are *)
Wipes(o, ev) == wiped \/ (w.procs[ev.i].pc = "new2" /\ o.st = 0)
EchoMatches(o, ev) == ev.echo \in {"none", EchoOf(o.w.procs[ev.i])}
DiskMatches(o, ev) == D(ev.disk) = o.w.disk /\ ev.disk.odd = (IF Wipes(o, ev) THEN <<>> ELSE Tr.disk0.odd)

-----------------------------------------------------------------------------
(* Command history.  Set of permitted continuations.  A session going on   *)
(* may have saved what it has so far, an interrupted one anything.         *)

Input(ev) ==
  IF ev.in.k = "recall" THEN [k |-> "line", words |-> <<>>, t |-> HBack(H, ev.i, ev.in.t[1])] ELSE ev.in

Recalled(o, ev) ==
  LET i == ev.i
      in == Input(ev)
      before == w.procs[i]
      after == o.w.procs[i]
      h == IF ev.in.k = "start" THEN IF after.sh THEN HOpened(H, i) ELSE H
           ELSE IF in.k = "line" /\ before.pc = "line" THEN HEntered(H, i, in.t)
           ELSE H
      ended == before.sh /\ after.pc = "end" /\ ev.in.k # "kill"
      saved == HClosed(h, i)
  IN IF ev.in.k = "start" \/ ~before.sh THEN {h}
     ELSE IF ended /\ ev.fault = "no" /\ ev.in.k # "quit" THEN {saved} ELSE {h, saved}

HistMatches(h, ev) == IF ev.hist = <<>> THEN h.file = H.file ELSE h.file = ev.hist[1]

(* What the history file holds tells which of them it was, for properties  *)
(* which do not speak about it as well                                     *)
Remembered(o, ev) ==
  LET A == Recalled(o, ev)
      B == {h \in A : HistMatches(h, ev)}
  IN IF B # {} \/ Prop \in {"ALL", "C23"} THEN B ELSE A

-----------------------------------------------------------------------------
(* Surroundings *)

Fault(ev) == ev.fault # "no"
PlaceMatches(o, ev) ==
  IF ev.place = <<>> THEN TRUE ELSE
  Permitted(Q, Range(ev.place[1]), Tr.target, Range(Tr.above),
            o.w.disk.kind # "none" \/ Fault(ev), o.w.disk # w.disk \/ Fault(ev), ev.mess /\ ev.fault # "yes")
Around(ev) == IF ev.place = <<>> THEN Q ELSE Arranged(Q, Range(ev.place[1]), Tr.target, Range(Tr.above))

-----------------------------------------------------------------------------
(* Which aspects of an event a property speaks about *)

Op(o, ev) == o.w.procs[ev.i].cmd.op
Pc(ev) == w.procs[ev.i].pc

IdCmds == {"add", "add-stored", "remove", "show", "notes"}

CheckOut(o, ev) ==
  LET op == Op(o, ev)
  IN CASE Prop \in {"ALL", "C14", "C16", "C17", "C18", "C19", "C20", "C22", "C24"} -> TRUE
       [] Prop = "C01" -> op \in {"show", "notes", "list", "alias"}
       [] Prop = "C02" -> taint /\ op \in {"show", "notes", "list", "alias"}
       [] Prop = "C03" -> op \in IdCmds
       [] Prop = "C04" -> op \in {"alias"} \cup IdCmds
       [] Prop = "C05" -> op = "list"
       [] Prop = "C06" -> Pc(ev) = "unlock" \/ ~w.procs[ev.i].unl
       [] Prop = "C07" -> op = "set-primary" \/ Pc(ev) = "unlock"
       [] Prop = "C08" -> op \in {"show", "list", "add"} \/ o.st = 2
       [] Prop = "C09" -> op \in {"list", "add-stored"}
       [] Prop = "C10" -> Pc(ev) \in {"code", "extra"}
       [] Prop = "C11" -> op \in {"notes", "list"}
       [] Prop = "C12" -> op \in {"add", "add-stored"}
       [] OTHER -> FALSE

CheckSt(o, ev) == (CheckOut(o, ev) /\ Prop \notin {"C01", "C02"}) \/ (Prop = "C13" /\ Pc(ev) = "unlock")

CheckDisk(o, ev) ==
  LET op == Op(o, ev)
  IN CASE Prop \in {"ALL", "C14", "C16", "C17", "C18", "C20", "C22"} -> TRUE
       [] Prop = "C01" -> o.w.disk # w.disk
       [] Prop = "C02" -> o.w.disk = w.disk \/ op = "list" \/ taint
       [] Prop = "C03" -> op \in IdCmds
       [] Prop = "C04" -> op \in {"alias"} \cup IdCmds
       [] Prop = "C05" -> op = "list"
       [] Prop = "C06" -> o.w.disk = w.disk \/ Pc(ev) = "unlock"
       [] Prop = "C07" -> op = "set-primary"
       [] Prop = "C08" -> op = "add" \/ o.st = 2
       [] Prop \in {"C09", "C10"} -> op = "add-stored"
       [] Prop = "C11" -> op = "notes"
       [] Prop = "C12" -> op \in {"add", "add-stored"}
       [] Prop = "C13" -> ev.fault \in {"crash", "maybe"} /\ ev.normal = <<>>
       [] OTHER -> FALSE

(* C13: complete as before or as after the operation in progress *)
CrashSafe(ev) ==
  (Prop = "C13" /\ ev.fault \in {"crash", "maybe"} /\ ev.normal # <<>>) =>
    /\ D(ev.disk) \in {w.disk} \cup {D(d) : d \in Range(ev.normal)}
    /\ ev.disk.odd \in {<<>>, Tr.disk0.odd}

Accepts(o, ev) ==
  /\ CrashSafe(ev)
  /\ CheckOut(o, ev) => OutMatches(o, ev)
  /\ CheckSt(o, ev) => StMatches(o, ev)
  /\ Prop \in {"ALL", "C22"} => EchoMatches(o, ev)
  /\ CheckDisk(o, ev) => DiskMatches(o, ev)

(* Where a property does not speak about the file, what is found there     *)
(* still tells which of several permitted reactions it was                 *)
Chosen(O, ev) ==
  LET A == {o \in O : Accepts(o, ev)}
      B == {o \in A : DiskMatches(o, ev)}
  IN IF B # {} THEN B ELSE A

(* After an irrelevant deviation go on from what was observed *)
Adopt(o, ev) ==
  IF DiskMatches(o, ev) THEN o.w
  ELSE LET d == D(ev.disk)
           p == o.w.procs[ev.i]
       IN [o.w EXCEPT !.disk = d,
                      !.procs[ev.i].mem = IF p.mem = o.w.disk \/ p.mem = w.disk THEN d ELSE @,
                      !.procs[ev.i].unl = @ /\ d.kind = "store"]

(* What is permitted as well if other processes have saved meanwhile: going *)
(* on from what the file holds now, or refusing to save (see Vault.tla)     *)
CarefulToo(ev) ==
  LET p == w.procs[ev.i]
      O == React(w, ev.i, Input(ev), ev.fault, Rows)
  IN IF ev.in.k \notin {"line", "recall", "eof"} \/ w.disk.kind # "store" \/ p.mem = w.disk THEN {}
     ELSE (IF ~p.unl \/ p.mem.pp = w.disk.pp
           THEN React([w EXCEPT !.procs[ev.i].mem = w.disk], ev.i, Input(ev), ev.fault, Rows) ELSE {})
          \cup (IF \E o \in O : o.w.disk # w.disk
                THEN {R(<<Seg("all", <<>>)>>, Over(w, ev.i), IF p.sh THEN Waits ELSE 1)} ELSE {})

Reactions(ev) ==
  IF ev.in.k = "foreign" THEN {}
  ELSE React(w, ev.i, Input(ev), ev.fault, Rows) \cup (IF Prop = "C20" THEN CarefulToo(ev) ELSE {})

Consume ==
  LET ev == Tr.events[l]
      O == Reactions(ev)
  IN /\ \/ lost /\ UNCHANGED <<w, lost>>
           /\ UNCHANGED <<taint, wiped, H, Q>>
        \/ /\ ~lost /\ ev.in.k = "foreign"      \* another implementation wrote the file
           /\ w' = [w EXCEPT !.disk = D(ev.disk)]
           /\ UNCHANGED <<lost, wiped, taint, H>>
           /\ Q' = Around(ev)
        \/ /\ ~lost /\ ev.in.k # "foreign"
           /\ \E o \in Chosen(O, ev) :
                           /\ w' = Adopt(o, ev)
                           /\ \E h \in Remembered(o, ev) : H' = h
                           /\ Prop \in {"ALL", "C25"} => (PlaceMatches(o, ev) = TRUE)
                           /\ Q' = Around(ev)
                           /\ lost' = ~StMatches(o, ev)
                           /\ wiped' = Wipes(o, ev)
                           /\ taint' = IF o.w.disk # w.disk THEN FALSE ELSE taint \/ Pc(ev) # "none"
     /\ l' = l + 1
     /\ UNCHANGED tid

Done == /\ l = Len(Tr.events) + 1
        /\ PrintT("DONE " \o ToString(tid))
        /\ UNCHANGED vars

Next == (l =< Len(Tr.events) /\ Consume) \/ Done
Spec == Init /\ [][Next]_vars

Explain ==
  Verbose => PrintT("AT " \o ToJson([tid |-> tid, l |-> l, v |-> w,
      allowed |-> IF l =< Len(Tr.events)
                  THEN LET ev == Tr.events[l]
                       IN {[out |-> Expand(o.out, o.w.procs[ev.i].mem.pp), st |-> o.st, disk |-> o.w.disk,
                            matches |-> [out |-> OutMatches(o, ev), st |-> StMatches(o, ev), disk |-> DiskMatches(o, ev), echo |-> EchoMatches(o, ev), place |-> PlaceMatches(o, ev),
                                         hist |-> \E h \in Recalled(o, ev) : HistMatches(h, ev)]] :
                           o \in Reactions(ev)}
                  ELSE {}]))
=============================================================================
