--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line program as a state machine: any number of processes    *)
(* (one-shot commands and shells) working on one storage file, each a      *)
(* dialogue of prompts and answers.                                        *)
(*                                                                         *)
(* World  w = [disk, path, procs]:                                         *)
(*   disk     as in Vault.tla                                              *)
(*   path     of the storage file, as given                                *)
(*   procs[i] [pc, cmd, sh, unl, mem, acc]                                 *)
(*     pc     "none" (not started), "end", or what the process waits for:  *)
(*            "unlock", "consent", "value", "code", "extra", "notes",      *)
(*            "reset?" , "new1", "new2", "line"                            *)
(*     cmd    the command in progress                                      *)
(*     sh     is it a shell?                                               *)
(*     unl    unlocked; mem as in Vault.tla                                *)
(*     acc    text entered so far (recovery code, new primary password)    *)
(*                                                                         *)
(* React(w, i, in) is the set of permitted reactions of process i:         *)
(*   [out, w, st]   out is the expected output, a sequence of segments;    *)
(*                  st is -1 (waits for input) or the exit code            *)
(* Segments: txt (this text), line (some nonempty line), any (some         *)
(* nonempty text), all (whatever follows), code (a recovery code for this value), qr (a QR code    *)
(* of this value), pw (the value of a generated password).  err says that  *)
(* it belongs on standard error rather than standard output.               *)
(***************************************************************************)
EXTENDS Vault, Args, Recovery, Derive

Idle == [pc |-> "none", cmd |-> [op |-> "none"], sh |-> FALSE, unl |-> FALSE, mem |-> Uninit, acc |-> <<>>]

Seg(k, t) == [k |-> k, t |-> t, p |-> <<>>, err |-> FALSE]
Txt(t) == <<Seg("txt", t)>>
Line(t) == Txt(Append(t, NL))
AnyLine == <<Seg("line", <<>>)>>
AnyText == <<Seg("any", <<>>)>>
NoOut == <<>>
OnErr(out) == [i \in DOMAIN out |-> [out[i] EXCEPT !.err = TRUE]]

R(out, w, st) == [out |-> out, w |-> w, st |-> st]
Waits == -1

(* Terminals: what a process waiting for these reads is not displayed *)
Secret == {"unlock", "new1", "new2", "value"}
EchoOf(p) == IF p.pc \in Secret THEN "off" ELSE "on"

-----------------------------------------------------------------------------
(* Messages *)
M_Prompt == T("Your primary password: ")
M_New1 == T("New primary password: ")
M_New2 == T("Repeat primary password: ")
M_Value == T("Password to be stored: ")
M_Notes == T("Please enter new notes to be stored:")
M_CodeLine == T("Next line of your recovery code (empty line to abort): ")
M_Consent == T("A password with this domain/name/revision combination already exists. Overwrite? (y/N) ")
M_Reset == T("Changing primary password will remove all existing data. Continue? (y/N) ")
M_Short == T("Primary password length should be at least 6 characters.")
M_Wrong == T("Decryption failure, wrong primary password?")
M_Mismatch == T("Primary passwords don't match.")
M_NewSet == T("New primary password set for ")
M_Added == T("Password added.")
M_Removed == T("Password removed.")
M_Retrieved == T("Password retrieved.")
M_AliasAdded == T("Alias added.")
M_AliasRemoved == T("Alias removed.")
M_IsAlias == T("' is an alias for '")
M_NoNotes == T("Currently no notes are stored for this password.")
M_NotesAre == T("Notes for this password: ")
M_NotesStored == T("Notes stored.")
M_NotesRemoved == T("Notes removed.")
M_NoCharset == T("You need to allow at least one character set.")
M_Missing == T("Storage is missing data. Maybe use set-primary subcommand first?")
M_ReadFailure == T("Failed reading storage file (...). Maybe use set-primary subcommand first?")
M_BadJson == T("Corrupt JSON data in storage (...).")
M_NoMatches == T("No matching passwords found.")
M_For == T("Passwords for ")
M_Aliases == T("    Aliases: ")
M_AliasSep == <<44, NL>> \o T("             ")
M_Indent4 == T("    ")
M_Indent8 == T("        ")
M_Generated == T(" (generated")
M_Stored == T(" (stored")
M_Revision == T(", revision: ")
M_Close == T(")")
M_Code == T("        Recovery code:")
M_ListNotes == T("        Notes: ")
M_Length == T("        Length: ")
M_Allowed == T("        Allowed characters: ")
M_CharNames == <<T("abc"), T("ABC"), T("789"), T("+^;")>>
M_ShellHello == T("Enter a command or type 'help' for a list of commands. Enter 'help <command>' for detailed information on a command.")
M_Quotes == T("Mismatched quotes")
M_Locked == T("Passwords locked.")
M_NoNesting == T("You cannot run a shell from a shell.")
M_NoReset == T("You cannot change primary password from a shell.")
M_CodeBad == T("The data you entered doesn't seem valid, please try again.") \o <<NL>>
M_CodeAccepted == T("The following lines were accepted:") \o <<NL>>
M_CodeTypo == <<NL>> \o T("The line after that doesn't seem valid, a typo maybe?") \o <<NL>>
M_CodeMore == T("Line accepted. The recovery code is still incomplete, please enter more data.") \o <<NL>>
M_CodeExtra1 == T("The following seems to be a valid recovery code:") \o <<NL>>
M_CodeExtra2 == <<NL>> \o T("You entered some additional data however. Ignore the extra data and decode the recovery code? (Y/n) ")

E_Text == [e \in {"KeyMissing", "NoSuchAlias", "AliasToSelf", "SiteHasPasswords", "DecryptionFailure",
                  "InvalidCiphertext", "InvalidBase64", "InvalidJson", "InvalidUtf8", "version", "short",
                  "undecryptable", "utf8"} |->
  CASE e = "KeyMissing" -> T("No such value in storage.")
    [] e = "NoSuchAlias" -> T("Site is not an alias.")
    [] e = "AliasToSelf" -> T("Cannot make a site an alias for itself.")
    [] e = "SiteHasPasswords" -> T("Site has passwords, remove before making it an alias.")
    [] e \in {"DecryptionFailure", "undecryptable"} -> M_Wrong
    [] e = "InvalidCiphertext" -> T("Corrupt ciphertext data in storage.")
    [] e = "InvalidBase64" -> T("Corrupt Base64 data in storage (...).")
    [] e = "InvalidJson" -> M_BadJson
    [] e \in {"InvalidUtf8", "utf8"} -> T("Corrupt UTF-8 data in storage (...).")
    [] e = "version" -> T("Wrong recovery code version, generated by a newer application version?")
    [] e = "short" -> T("Not enough data in the recovery code.")]

YesTexts == {T("y"), T("yes")}
NoTexts == {T("n"), T("no")}

-----------------------------------------------------------------------------
(* Ends of commands *)

Set(w, i, p) == [w EXCEPT !.procs[i] = p]

Over(w, i) ==          \* command over: next line or end of the process
  LET p == w.procs[i]
  IN Set(w, i, [p EXCEPT !.pc = IF p.sh THEN "line" ELSE "end", !.acc = <<>>])

Succeed(w, i, out) == R(out, Over(w, i), IF w.procs[i].sh THEN Waits ELSE 0)
Fail(w, i, out, msg) == R(out \o OnErr(Line(msg)), Over(w, i), IF w.procs[i].sh THEN Waits ELSE 1)
FailAny(w, i, out) == R(out \o OnErr(AnyLine), Over(w, i), IF w.procs[i].sh THEN Waits ELSE 1)
Ask(w, i, pc, out, prompt) == R(out \o Txt(prompt), [w EXCEPT !.procs[i].pc = pc], Waits)

ErrorText(w, i, out, e) == IF e \in DOMAIN E_Text THEN Fail(w, i, out, E_Text[e]) ELSE FailAny(w, i, out)

(* Saving the contents mem: permitted reactions; good is the outcome if    *)
(* nothing fails, out what is printed before.  fault says what happens to  *)
(* file operations meanwhile:                                              *)
(*   "no"     they succeed                                                 *)
(*   "yes"    the file cannot be written                                   *)
(*   "maybe"  one of them fails or is cut short: saving fails, or succeeds *)
(*            nevertheless (a failing cleanup, an operation repeated)      *)
Failing(w, i, mem, out) == {FailAny(w, i, out), FailAny([w EXCEPT !.procs[i].mem = mem], i, out)}

Saved(w, i, fault, mem, out, good) ==
  CASE fault = "no" -> {good}
    [] fault = "yes" -> Failing(w, i, mem, out)
    [] fault = "maybe" -> Failing(w, i, mem, out) \cup {good, FailAny([w EXCEPT !.procs[i].mem = mem, !.disk = mem], i, out)}

(* Saving a change; done is the confirmation *)
Save(w, i, fault, r, out, done) ==
  IF ~r.res.ok THEN {ErrorText(w, i, out, r.res.e)}
  ELSE LET mem == [w.procs[i].mem EXCEPT !.st = r.st]
       IN Saved(w, i, fault, mem, out, Succeed([w EXCEPT !.disk = mem, !.procs[i].mem = mem], i, out \o Line(done)))

-----------------------------------------------------------------------------
(* Listings *)

PwKey(p) == p.name \o T(" ") \o p.rev

(* Sequences of the set P in order; ties in any order *)
RECURSIVE Orders(_)
Orders(P) ==
  IF P = {} THEN {<<>>}
  ELSE LET min == {p \in P : \A q \in P : ~Less(PwKey(q), PwKey(p))}
       IN UNION {{<<p>> \o o : o \in Orders(P \ {p})} : p \in min}

OneOrder(P) == CHOOSE o \in Orders(P) : TRUE

CharNames(cs) ==
  LET K == ClassesOf(cs)
      RECURSIVE Go(_)
      Go(k) == IF k > 4 THEN <<>> ELSE IF k \in K THEN <<M_CharNames[k]>> \o Go(k + 1) ELSE Go(k + 1)
  IN Join(Go(1), T(" "))

PwLines(c, p) ==
  LET head == M_Indent4 \o p.name \o (IF p.type = "gen" THEN M_Generated ELSE M_Stored)
                \o (IF p.rev = <<>> THEN <<>> ELSE M_Revision \o p.rev) \o M_Close
  IN Line(head)
     \o (IF c.show
         THEN Txt(M_Indent8) \o (IF p.type = "gen" THEN <<[Seg("pw", <<>>) EXCEPT !.p = p]>> ELSE Txt(p.value)) \o Line(<<>>)
         ELSE <<>>)
     \o (IF c.recovery /\ p.type = "sto" THEN Line(M_Code) \o <<Seg("code", p.value)>> ELSE <<>>)
     \o (IF c.verbose /\ p.notes # <<>> THEN Line(M_ListNotes \o p.notes) ELSE <<>>)
     \o (IF c.verbose /\ p.type = "gen" THEN Line(M_Length \o Dec(p.len)) \o Line(M_Allowed \o CharNames(p.cs)) ELSE <<>>)

SiteLines(st, c, s, E, M) ==     \* E: matching site entries, M: matching names
  LET P == {p \in st.pws : p.site = s /\ Readable(p) /\ p.name \in M}
      A == {e.site : e \in {e \in E : e.alias = <<s>>}}
  IN IF P = {} THEN <<>>
     ELSE Line(M_For \o s \o T(":"))
          \o (IF c.verbose /\ A # {} THEN Line(M_Aliases \o Join(SortTexts(A), M_AliasSep)) ELSE <<>>)
          \o Cat([k \in 1..Cardinality(P) |-> PwLines(c, OneOrder(P)[k])])

(* E: the site entries whose name, or whose alias target, matches.  A site *)
(* is listed if its own name or the name of one of its aliases matches.    *)
ListOutput(st, c, S, M) ==       \* S: matching site names
  LET E == ListSites(st, S)
      sites == {e.site : e \in {e \in E : e.alias = <<>>}} \cup UNION {Range(e.alias) : e \in E}
      order == SortTexts(sites)
      lines == Cat([k \in 1..Len(order) |-> SiteLines(st, c, order[k], E, M)])
  IN IF lines = <<>> THEN Line(M_NoMatches) ELSE lines

(* Site entries a listing drops *)
ListDrops(st, c, S) ==
  LET shown == {e \in ListSites(st, S) : e.alias = <<>>}
  IN IF c.name = <<Star>> THEN shown \cap Droppable(st) ELSE {}

List(w, i, fault) ==
  LET c == w.procs[i].cmd
      st == w.procs[i].mem.st
      Dropped(D) ==
        LET mem == [w.procs[i].mem EXCEPT !.st.sites = @ \ D]
        IN IF D = {} THEN w ELSE [w EXCEPT !.procs[i].mem = mem, !.disk = mem]
      InMem(D) == [w EXCEPT !.procs[i].mem.st.sites = @ \ D]
  IN UNION {
       LET out == ListOutput(st, c, S, M)
           drops == ListDrops(st, c, S)
           listing == IF out = Line(M_NoMatches) THEN <<>> ELSE out
           done == {Succeed(Dropped(D), i, out) : D \in {{}, drops, Droppable(st)}}
           failed == {FailAny(x, i, listing) : x \in {w, InMem(drops)}}
       IN CASE fault = "yes" /\ drops # {} -> failed
            [] fault = "maybe" /\ drops # {} -> failed \cup done \cup {FailAny(Dropped(drops), i, listing)}
            [] OTHER -> done
       : S \in MatchSets(SiteNamesIn(st), c.site), M \in MatchSets(NamesIn(st), c.name)}

-----------------------------------------------------------------------------
(* Execution of the command, once unlocked *)

Store(w, i, fault, out, v) ==
  LET c == w.procs[i].cmd
  IN Save(w, i, fault, SetStored(w.procs[i].mem.st, c.site, c.name, c.rev, v), out, M_Added)

Generate(w, i, fault, out) ==
  LET c == w.procs[i].cmd
  IN Save(w, i, fault, SetGenerated(w.procs[i].mem.st, c.site, c.name, c.rev, c.len, c.cs), out, M_Added)

AfterConsent(w, i, fault, out) ==
  LET c == w.procs[i].cmd
  IN IF c.op = "add" THEN Generate(w, i, fault, out)
     ELSE IF c.recovery THEN {Ask(w, i, "code", out, M_CodeLine)}
     ELSE {Ask(w, i, "value", out, M_Value)}

Exec(w, i, fault) ==
  LET p == w.procs[i]
      c == p.cmd
      st == p.mem.st
      entry == GetEntry(st, c.site, c.name, c.rev)
  IN CASE c.op = "add" /\ c.cs = 0 -> {Fail(w, i, NoOut, M_NoCharset)}
       [] c.op \in {"add", "add-stored"} /\ (c.op = "add" => c.cs # 0) ->
            IF ~c.yes /\ PwsFor(st, c.site, c.name, c.rev) # {}
            THEN {Ask(w, i, "consent", NoOut, M_Consent)}
            ELSE AfterConsent(w, i, fault, NoOut)
       [] c.op = "remove" -> Save(w, i, fault, RemovePw(st, c.site, c.name, c.rev), NoOut, M_Removed)
       [] c.op = "show" ->
            IF ~entry.ok THEN {ErrorText(w, i, NoOut, entry.e)}
            ELSE LET v == entry.v
                     plain == IF v.type = "gen" THEN <<[Seg("pw", <<>>) EXCEPT !.p = v]>> ELSE Txt(v.value)
                 IN IF c.qr
                    THEN {Succeed(w, i, Txt(M_Retrieved) \o <<[Seg("qr", v.value) EXCEPT !.p = v]>>)}
                         \* too long for a QR code
                         \cup (IF ByteLen(v.value) > 2000 THEN {FailAny(w, i, Txt(M_Retrieved))} ELSE {})
                    ELSE {Succeed(w, i, Txt(M_Retrieved) \o plain \o Line(<<>>))}
       [] c.op = "notes" ->
            IF ~entry.ok THEN {ErrorText(w, i, NoOut, entry.e)}
            ELSE LET out == IF entry.v.notes = <<>> THEN Line(M_NoNotes) ELSE Line(M_NotesAre \o entry.v.notes)
                 IN IF c.set THEN {Ask(w, i, "notes", out, M_Notes)} ELSE {Succeed(w, i, out)}
       [] c.op = "alias" ->
            IF c.npos = 2 THEN Save(w, i, fault, SetAlias(st, c.site, c.name), NoOut, M_AliasAdded)
            ELSE IF c.remove THEN Save(w, i, fault, RemoveAlias(st, c.site), NoOut, M_AliasRemoved)
            ELSE LET a == GetAlias(st, c.site)
                 IN IF a.ok THEN {Succeed(w, i, Line(T("'") \o c.site \o M_IsAlias \o a.v \o T("'.")))}
                    ELSE {ErrorText(w, i, NoOut, a.e)}
       [] c.op = "list" -> List(w, i, fault)

(* The command is known: unlock first *)
Begin(w, i, cmd, fault) ==
  LET w1 == [w EXCEPT !.procs[i].cmd = cmd]
      p == w1.procs[i]
  IN IF p.mem.kind = "uninit" THEN {Fail(w1, i, NoOut, M_Missing)}
     ELSE IF ~p.unl THEN {Ask(w1, i, "unlock", NoOut, M_Prompt)}
     ELSE Exec(w1, i, fault)

(* Everything a step prints in front of what follows *)
Prefixed(out, S) == {[r EXCEPT !.out = out \o @] : r \in S}

-----------------------------------------------------------------------------
(* Reactions to input.  Entered lines are texts without line break.        *)

TooShort(t) == ByteLen(t) < 6
MaybeShort(t) == Len(t) < 6       \* bytes or characters: both are accepted readings

Unlocking(w, i, t, fault) ==
  LET p == w.procs[i]
      retry(msg) == R(OnErr(msg) \o Txt(M_Prompt), w, Waits)
      attempt == IF p.mem.kind = "damaged" THEN {retry(AnyLine)}
                 ELSE IF p.mem.pp = t
                 THEN Exec([w EXCEPT !.procs[i].unl = TRUE], i, fault)
                 ELSE {retry(Line(M_Wrong))}
  IN (IF TooShort(t) THEN {} ELSE attempt) \cup (IF MaybeShort(t) THEN {retry(Line(M_Short))} ELSE {})

Consent(w, i, t, fault) ==
  LET a == LowerAscii(Trim(t))
  IN IF a \in YesTexts THEN AfterConsent(w, i, fault, NoOut)
     ELSE IF a \in NoTexts \cup {<<>>} THEN {Succeed(w, i, NoOut)}
     ELSE {Ask(w, i, "consent", NoOut, M_Consent)}

NotesEntered(w, i, t, fault) ==
  LET c == w.procs[i].cmd
  IN Save(w, i, fault, SetNotes(w.procs[i].mem.st, c.site, c.name, c.rev, t), NoOut,
          IF t = <<>> THEN M_NotesRemoved ELSE M_NotesStored)

(* Lines of a recovery code.  The first n complete lines of a text *)
FirstLines(text, n) == Punctuated(SubSeq(Chars(text), 1, n * LineSize))

CodeEntered(w, i, t, rows, fault) ==
  LET p == w.procs[i]
      line == Trim(t)
      text == p.acc \o line
      d == Decode(text, p.mem.pp, rows)
      With(acc) == [w EXCEPT !.procs[i].acc = acc]
  IN IF line = <<>> THEN {Fail(w, i, NoOut, <<>>)}
     ELSE CASE d.k = "ok" -> Store(w, i, fault, NoOut, d.value)
            [] d.k = "incomplete" -> {Ask(With(Punctuated(Chars(text))), i, "code", OnErr(Line(M_CodeMore)), M_CodeLine)}
            [] d.k = "mismatch" ->
                 LET acc == FirstLines(text, d.line)
                 IN {Ask(With(acc), i, "code",
                         OnErr(IF acc = <<>> THEN Line(M_CodeBad) ELSE Line(M_CodeAccepted \o acc \o M_CodeTypo)), M_CodeLine)}
            [] d.k = "extra" ->
                 LET acc == FirstLines(text, d.line)
                 IN {Ask(With(acc), i, "extra", NoOut, M_CodeExtra1 \o acc \o M_CodeExtra2)}
            [] OTHER -> IF d.k \in DOMAIN E_Text THEN {Fail(w, i, NoOut, E_Text[d.k])} ELSE {}

Extra(w, i, t, rows, fault) ==
  LET a == LowerAscii(Trim(t))
      acc == w.procs[i].acc
      d == Decode(acc, w.procs[i].mem.pp, rows)
  IN IF a \in YesTexts \cup {<<>>}
     THEN CASE d.k = "ok" -> Store(w, i, fault, NoOut, d.value)
            [] OTHER -> IF d.k \in DOMAIN E_Text THEN {Fail(w, i, NoOut, E_Text[d.k])} ELSE {}
     ELSE IF a \in NoTexts THEN {Fail(w, i, NoOut, <<>>)}
     ELSE {Ask(w, i, "extra", NoOut, M_CodeExtra1 \o acc \o M_CodeExtra2)}

New1(w, i, t) ==
  (IF MaybeShort(t) THEN {Fail(w, i, NoOut, M_Short)} ELSE {})
  \cup (IF TooShort(t) THEN {} ELSE {Ask([w EXCEPT !.procs[i].acc = t], i, "new2", NoOut, M_New2)})

New2(w, i, t, fault) ==
  LET pp == w.procs[i].acc
      mem == StoreOf(pp, Empty)
  IN IF t # pp THEN {Fail(w, i, NoOut, M_Mismatch)}
     ELSE Saved(w, i, fault, mem, NoOut,
                Succeed([w EXCEPT !.disk = mem, !.procs[i].mem = mem], i, Line(M_NewSet \o w.path \o T("."))))

ResetConsent(w, i, t) ==
  LET a == LowerAscii(Trim(t))
  IN IF a \in YesTexts THEN {Ask(w, i, "new1", NoOut, M_New1)}
     ELSE IF a \in NoTexts \cup {<<>>} THEN {Succeed(w, i, NoOut)}
     ELSE {Ask(w, i, "reset?", NoOut, M_Reset)}

(* A new process *)
Start(w, i, words, fault) ==
  LET r == ParseArgs(words, FALSE)
      c == Command(r)
      loaded == Set(w, i, [Idle EXCEPT !.cmd = c, !.mem = w.disk])
      none == Set(w, i, [Idle EXCEPT !.cmd = c])
      ended == Set(w, i, [Idle EXCEPT !.pc = "end"])
  IN IF r.k = "usage" THEN {R(OnErr(AnyText), ended, 2)}
     ELSE IF r.k = "help" THEN {R(AnyText, ended, 0)}
     ELSE IF r.op = "set-primary"
     THEN IF w.disk.kind # "none" /\ ~c.yes THEN {Ask(none, i, "reset?", NoOut, M_Reset)}
          ELSE {Ask(none, i, "new1", NoOut, M_New1)}
     ELSE IF w.disk.kind = "none" THEN {Fail(none, i, NoOut, M_ReadFailure)}
     ELSE IF w.disk.kind = "bad" THEN {FailAny(none, i, NoOut)}
     ELSE IF r.op = "shell"
     THEN {R(Line(M_ShellHello), Set(w, i, [Idle EXCEPT !.sh = TRUE, !.pc = "line", !.mem = w.disk]), Waits)}
     ELSE Begin(loaded, i, c, fault)

(* A line of a shell *)
ShellLine(w, i, t, fault) ==
  LET s == ShellSplit(t)
      r == ParseArgs(s.words, TRUE)
      stay(out) == {R(out, w, Waits)}
  IN IF ~s.ok THEN stay(OnErr(Line(M_Quotes)))
     ELSE IF r.k = "usage" THEN stay(OnErr(AnyText))
     ELSE IF r.k # "cmd" THEN stay(AnyText) \cup stay(OnErr(AnyText))
     ELSE CASE r.op = "exit" -> {R(NoOut, [w EXCEPT !.procs[i].pc = "end"], 0)}
            [] r.op = "lock" -> {R(Line(M_Locked), [w EXCEPT !.procs[i].unl = FALSE], Waits)}
            [] r.op = "shell" -> stay(OnErr(Line(M_NoNesting)))
            [] r.op = "set-primary" -> stay(OnErr(Line(M_NoReset)))
            [] OTHER -> Begin(w, i, Command(r), fault)

(* One line entered, or at the end of input nothing *)
Enter(w, i, in, fault, rows) ==
  LET p == w.procs[i]
      t == in.t
  IN CASE p.pc = "unlock" -> Unlocking(w, i, Trim(t), fault)
       [] p.pc = "consent" -> Consent(w, i, t, fault)
       [] p.pc = "value" -> Store(w, i, fault, NoOut, Trim(t))
       [] p.pc = "code" -> CodeEntered(w, i, t, rows, fault)
       [] p.pc = "extra" -> Extra(w, i, t, rows, fault)
       [] p.pc = "notes" -> NotesEntered(w, i, t, fault)
       [] p.pc = "reset?" -> ResetConsent(w, i, t)
       [] p.pc = "new1" -> New1(w, i, Trim(t))
       [] p.pc = "new2" -> New2(w, i, Trim(t), fault)
       [] p.pc = "line" -> IF in.k = "eof" THEN {R(NoOut, [w EXCEPT !.procs[i].pc = "end"], 0)}
                           ELSE ShellLine(w, i, t, fault)
       [] OTHER -> {}

(* The end of input answers everything which is asked then.  (A primary    *)
(* password is asked for again and again, this is not considered here.)    *)
RECURSIVE AtEof(_, _, _, _, _)
AtEof(w, i, out, fault, rows) ==
  UNION {IF r.st = Waits /\ r.w.procs[i].pc # "unlock" THEN AtEof(r.w, i, out \o r.out, fault, rows)
         ELSE {[r EXCEPT !.out = out \o @]} :
         r \in Enter(w, i, [k |-> "eof", words |-> <<>>, t |-> <<>>], fault, rows)}

(* On a terminal: the end of input where something not displayed is asked  *)
(* for ends the command or the process, and nothing else.                  *)
Quit(w, i) ==
  LET all == <<Seg("all", <<>>)>>
      ended == [w EXCEPT !.procs[i].pc = "end"]
  IN IF w.procs[i].pc \notin Secret THEN {}
     ELSE {R(all, ended, st) : st \in 1..255}
          \cup IF w.procs[i].sh THEN {R(all, Over(w, i), Waits)} ELSE {}

(* A command line given up has no effect *)
Interrupt(w, i) == IF w.procs[i].pc = "line" THEN {R(NoOut, w, Waits)} ELSE {}

Normally(w, i, in, fault, rows) ==
  CASE in.k ="start" -> Start(w, i, in.words, fault)
    [] in.k = "kill" -> {R(NoOut, [w EXCEPT !.procs[i].pc = "end"], -9)}
    [] in.k = "eof" -> AtEof(w, i, NoOut, fault, rows)
    [] in.k = "quit" -> Quit(w, i)
    [] in.k = "intr" -> Interrupt(w, i)
    [] OTHER -> Enter(w, i, in, fault, rows)

(* Killed while reacting: the file is as before or as afterwards *)
Crashed(w, i, in, rows) ==
  {R(<<Seg("all", <<>>)>>, [w EXCEPT !.procs[i].pc = "end", !.disk = d], -9) :
     d \in {w.disk} \cup {r.w.disk : r \in Normally(w, i, in, "no", rows)}}

(* in: [k, words, t], k is "start", "line", "eof" or "kill", on a terminal *)
(* "quit" or "intr" as well                                                *)
React(w, i, in, fault, rows) ==
  IF fault = "crash" THEN Crashed(w, i, in, rows) ELSE Normally(w, i, in, fault, rows)
=============================================================================
