-------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* Bounded instance of Cli.tla: every dialogue over a few commands and     *)
(* answers, one process after the other working on one storage file.       *)
(* Checks the listed properties on the specification of the program; with  *)
(* Emit = TRUE every reachable state is printed with all inputs and what   *)
(* they may lead to, lib/climodel.py takes these steps with the program.   *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

CONSTANTS Commands,      \* sets of words: commands as arguments or shell lines
          Lines,         \* further lines entered in a shell
          Values, NotesTexts, PPs,
          CodeLines,     \* numbers of lines of the recovery codes in PFP_CODES
          Disks,         \* contents to start with
          Faults,        \* of "no", "yes"
          Shells,        \* may commands be entered in a shell, given as arguments?
          Emit

(* recovery codes made by an independent implementation: [lines, rows] *)
Codes == IF "PFP_CODES" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.PFP_CODES)[1] ELSE [lines |-> <<>>, rows |-> <<>>]
Rows == {Codes.rows[k] : k \in DOMAIN Codes.rows}

VARIABLES w, last,
          asked       \* has overwriting been agreed to in this command?
vars == <<w, last, asked>>

P == w.procs[1]
Path == T("/path")

Yes == T("y")
No == T("n")
Other == T("maybe")

Shell == <<T("shell")>>
SetPrimary == <<T("set-primary")>>

In(k, words, t) == [k |-> k, words |-> words, t |-> t]

(* a command as a line of a shell; no word needs quoting *)
LineOf(words) == Join(words, <<32>>)

Answers(pc) ==
  CASE pc = "line" -> {LineOf(c) : c \in {c \in Commands : TRUE \in Shells}} \cup Lines
    [] pc = "unlock" -> PPs \cup {T("x"), T("wrong1")}
    [] pc \in {"consent", "reset?", "extra"} -> {Yes, No, Other}
    [] pc = "value" -> Values
    [] pc = "notes" -> NotesTexts
    [] pc = "code" -> {Codes.lines[k] : k \in CodeLines} \cup {<<>>}
    [] pc = "new1" -> PPs \cup {T("x")}
    [] pc = "new2" -> PPs
    [] OTHER -> {}

Starts == {c \in Commands : FALSE \in Shells} \cup (IF TRUE \in Shells THEN {Shell} ELSE {})

Inputs ==
  IF P.pc \in {"none", "end"} THEN {In("start", c, <<>>) : c \in Starts}
  ELSE {In("line", <<>>, t) : t \in Answers(P.pc)}
       \cup (IF P.pc = "unlock" THEN {} ELSE {In("eof", <<>>, <<>>)})
       \cup {In("kill", <<>>, <<>>)}

(* what a process no longer knows or needs *)
Forget(x) ==
  [x EXCEPT !.procs[1] =
     CASE @.pc \in {"none", "end"} -> [Idle EXCEPT !.pc = "end"]
       [] @.pc = "line" -> [@ EXCEPT !.cmd = [op |-> "none"], !.acc = <<>>]
       [] OTHER -> @]

FaultsOf(in) == IF in.k = "line" THEN Faults ELSE {"no"}

Reactions(in, f) == {[r EXCEPT !.w = Forget(@)] : r \in React(w, 1, in, f, Rows)}

NoInput == In("none", <<>>, <<>>)

Init ==
  /\ \E d \in Disks : w = [disk |-> d, path |-> Path, procs |-> <<[Idle EXCEPT !.pc = "end"]>>]
  /\ last = [in |-> NoInput, f |-> "no", out |-> <<>>, st |-> 0, pc |-> "end", op |-> "none"]
  /\ asked = FALSE

(* the command this input belongs to *)
CommandOf(in) ==
  IF in.k = "start" THEN Command(ParseArgs(in.words, FALSE))
  ELSE IF P.pc = "line" /\ in.k = "line"
  THEN LET r == ParseArgs(ShellSplit(in.t).words, TRUE) IN IF r.k = "cmd" THEN Command(r) ELSE [op |-> "none"]
  ELSE P.cmd

OpOf(in) == CommandOf(in).op

Step(in) ==
  \E f \in FaultsOf(in) : \E r \in Reactions(in, f) :
     /\ w' = r.w
     /\ last' = [in |-> in, f |-> f, out |-> r.out, st |-> r.st, pc |-> P.pc, op |-> OpOf(in)]
     /\ asked' = CASE r.w.procs[1].pc \in {"end", "line"} -> FALSE
                   [] P.pc = "consent" /\ in.k = "line" -> in.t = Yes
                   [] OTHER -> asked

Next == \E in \in Inputs : Step(in)
Spec == Init /\ [][Next]_vars

View == <<w, asked>>

-----------------------------------------------------------------------------
(* Values for the configurations *)
E0 == Empty
PP1 == T("primary1")
PP2 == T("primary2")
A == T("a")
B == T("b")
X == T("x")
SiteA == SiteRec(A, <<>>)
SiteB == SiteRec(B, <<>>)
EntA == [sites |-> {SiteA}, pws |-> {StoRec(A, X, <<>>, T("old#"), T("m#"))}]
EntGen == [sites |-> {SiteA}, pws |-> {GenRec(A, X, <<>>, 5, 15, <<>>)}]
EntTwo == [sites |-> {SiteA, SiteB}, pws |-> {StoRec(A, X, <<>>, T("old#"), <<>>), StoRec(A, X, T("2"), T("other#"), T("m#"))}]
EntAlias == [sites |-> {SiteA, SiteRec(B, <<A>>)}, pws |-> {StoRec(A, X, <<>>, T("old#"), <<>>)}]

DisksEmpty == {StoreOf(PP1, Empty)}
DisksEntries == {StoreOf(PP1, Empty), StoreOf(PP1, EntA), StoreOf(PP1, EntTwo)}
DisksAlias == {StoreOf(PP1, EntAlias), StoreOf(PP1, [sites |-> {SiteA, SiteB}, pws |-> {}])}
DisksAll == {NoFile, [NoFile EXCEPT !.kind = "bad"], Uninit, StoreOf(PP1, EntA)}
DisksLock == {StoreOf(PP1, EntA)}

Cmd(t) == ShellSplit(t).words
CmdsEntries == {Cmd(T("add-stored a x")), Cmd(T("add-stored -y a x")), Cmd(T("add a x -l 5")), Cmd(T("add -l 5 -y a x -w")),
                Cmd(T("remove a x")), Cmd(T("show a x")), Cmd(T("list -v"))}
CmdsCode == {Cmd(T("add-stored -c a x")), Cmd(T("add-stored -yc a x")), Cmd(T("show a x")), Cmd(T("remove a x"))}
CmdsRevs == {Cmd(T("add-stored a x")), Cmd(T("add-stored a x -r 1")), Cmd(T("add-stored a x -r 2")), Cmd(T("remove www.a x -r 2")),
             Cmd(T("remove a x")), Cmd(T("show www.a x -r 1")), Cmd(T("show a x -r 2")), Cmd(T("notes a x -r 2")),
             Cmd(T("notes -s a x -r 1"))}
CmdsNotes == {Cmd(T("notes a x")), Cmd(T("notes -s a x")), Cmd(T("add-stored a x")), Cmd(T("list -v a")), Cmd(T("remove a x"))}
CmdsAlias == {Cmd(T("alias b a")), Cmd(T("alias a b")), Cmd(T("alias b")), Cmd(T("alias a")), Cmd(T("alias -r b")), Cmd(T("alias -r a")),
              Cmd(T("add-stored b x")), Cmd(T("remove a x")), Cmd(T("show b x")), Cmd(T("list -v")), Cmd(T("list b"))}
CmdsPrimary == {Cmd(T("set-primary")), Cmd(T("set-primary -y")), Cmd(T("list")), Cmd(T("add-stored a x"))}
CmdsLock == {Cmd(T("lock")), Cmd(T("show a x")), Cmd(T("list -s")), Cmd(T("notes a x")), Cmd(T("add-stored -y a x")), Cmd(T("remove a x")),
             Cmd(T("alias a")), Cmd(T("set-primary"))}
CmdsUsage == {Cmd(T("lock")), Cmd(T("exit")), Cmd(T("shell")), Cmd(T("show a")), Cmd(T("show a x")), Cmd(T("show a x y")), Cmd(T("list -z")),
              Cmd(T("add a x -wuds")), Cmd(T("add a x -l 3")), Cmd(T("help")), Cmd(T("nothing")), Cmd(T("set-primary -y")), Cmd(T("list a q"))}
LinesOdd == {T("show 'a"), <<>>, T("show \"a\" 'x'"), T("\\l\\i\\s\\t"), T("show a x # y")}
LinesNone == {}
ValuesPQ == {T("p#"), T("q#")}
ValuesP == {T("p#")}
NotesEN == {<<>>, T("n#")}
PPs1 == {PP1}
PPs12 == {PP1, PP2}
FaultsNo == {"no"}
FaultsAny == {"no", "yes"}
Both == {TRUE, FALSE}
ShellOnly == {TRUE}
CodesNone == {}
CodesAll == DOMAIN Codes.lines

-----------------------------------------------------------------------------
(* Properties *)
CliTypeOK ==
  /\ w.disk.kind \in {"none", "bad", "uninit", "store"}
  /\ P.pc \in {"end", "unlock", "consent", "value", "code", "extra", "notes", "reset?", "new1", "new2", "line"}
  /\ P.pc = "line" => P.sh
  /\ P.acc # <<>> => P.pc \in {"code", "extra", "new2"}

Texts(out) == Cat([k \in DOMAIN out |-> out[k].t])
Says(out, t) == \E i \in 0..(Len(Texts(out)) - Len(t)) : SubSeq(Texts(out), i + 1, i + Len(t)) = t
Confirms == {M_Added, M_Removed, M_AliasAdded, M_AliasRemoved, M_NotesStored, M_NotesRemoved, M_NewSet}
Confirmed == \E m \in Confirms : Says(last'.out, m)

(* nothing is waiting in memory since saving failed *)
Synced == P.pc = "end" \/ P.mem.kind # "store" \/ P.mem = w.disk

(* C01: what is confirmed is in the file *)
ConfirmedIsSaved ==
  [][(Confirmed /\ w'.procs[1].pc = "line") => w'.disk = w'.procs[1].mem]_vars

(* C02: nothing but a confirmed change (or a listing, of empty sites) changes the file *)
OnlyConfirmed ==
  [][(w'.disk # w.disk /\ Synced) =>
       /\ Confirmed \/ last'.op = "list"
       /\ last'.op = "list" => w'.disk.st.pws = w.disk.st.pws
       /\ last'.op \in {"add", "add-stored", "remove", "notes", "alias", "list", "set-primary"}]_vars

(* C03/C01: only the addressed entry changes *)
OnlyAddressed ==
  [][(w'.disk # w.disk /\ Synced /\ last'.op \in {"add", "add-stored", "remove", "notes"}) =>
       LET c == CommandOf(last'.in)
       IN \A p \in (w.disk.st.pws \cup w'.disk.st.pws) :
            ~(p.site = Resolve(w.disk.st, c.site) /\ p.name = c.name /\ p.rev = NormRev(c.rev))
              => (p \in w.disk.st.pws <=> p \in w'.disk.st.pws)]_vars

(* C04: aliases never lead to aliases, and no alias has passwords of its own *)
AliasesOK ==
  w.disk.kind = "store" => WellFormed(w.disk.st)

(* C06: without the primary password nothing is shown and nothing changed *)
Secrets == {p.value : p \in {p \in w.disk.st.pws : p.type = "sto"}} \cup {p.notes : p \in w.disk.st.pws}
LockedShowsNothing ==
  [][(~w.procs[1].unl /\ last'.op # "set-primary" /\ ~(last'.pc = "unlock" /\ last'.in.t = w.procs[1].mem.pp)) =>
       w'.disk = w.disk /\ ~\E s \in Secrets \ {<<>>} : Says(last'.out, s)]_vars
OnlyRightPassword ==
  [][(~w.procs[1].unl /\ w'.procs[1].unl) => last'.pc = "unlock" /\ last'.in.t = w.procs[1].mem.pp]_vars

(* C07: a new primary password leaves nothing behind, and is entered twice *)
ResetEmpties ==
  [][(w'.disk.kind = "store" /\ w'.disk.pp # w.disk.pp) =>
       last'.op = "set-primary" /\ last'.pc = "new2" /\ w'.disk = StoreOf(last'.in.t, Empty)]_vars
ResetAsks ==      \* contents go only with consent
  [][(last'.op = "set-primary" /\ last'.in.k = "start" /\ w.disk.kind # "none") =>
       w'.procs[1].pc = "reset?" \/ CommandOf(last'.in).yes]_vars

(* C12: an existing password is replaced only with consent *)
ReplacedWithConsent ==
  [][(Synced /\ last'.op \in {"add", "add-stored"}) =>
       \A p \in w.disk.st.pws : p \in w'.disk.st.pws \/ asked \/ asked' \/ CommandOf(last'.in).yes \/ (last'.pc = "consent" /\ last'.in.t = Yes)]_vars

(* C14: what cannot be saved is reported, the file stays *)
FailureReported ==
  [][last'.f = "yes" => w'.disk = w.disk /\ ~Confirmed]_vars

(* C18: in a shell commands neither end it nor change the primary password; locking locks *)
ShellStays ==
  [][(w.procs[1].sh /\ last'.st # Waits) =>
       last'.in.k = "kill" \/ last'.in.k = "eof" \/ (last'.pc = "line" /\ last'.op = "exit")]_vars
LockLocks ==
  [][(last'.pc = "line" /\ last'.op = "lock" /\ last'.in.k = "line") => ~w'.procs[1].unl /\ w'.disk = w.disk]_vars

(* C19: exit codes *)
ExitCodes ==
  [][last'.st \in {-1, 0, 1, 2, -9} /\ (last'.st \in {1, 2} => w'.disk = w.disk) /\ (last'.st = 2 => last'.out = OnErr(AnyText))]_vars

-----------------------------------------------------------------------------
Brief(x) == [disk |-> x.disk, p |-> x.procs[1]]
Edges ==
  {[in |-> in, f |-> f, outs |-> {[st |-> r.st, post |-> IF r.w = w THEN <<>> ELSE <<Brief(r.w)>>] : r \in Reactions(in, f)}] :
     in \in Inputs, f \in Faults}
EmitNode ==
  Emit => PrintT("NODE " \o ToJson([state |-> Brief(w), edges |-> {e \in Edges : e.f \in FaultsOf(e.in)}]))
=============================================================================
