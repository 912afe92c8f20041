-------------------------------- MODULE Args ---------------------------------
(***************************************************************************)
(* From text to commands: splitting of shell lines into words, and the     *)
(* command line syntax (cli/src/args.rs).                                  *)
(***************************************************************************)
EXTENDS Text

(* Shell lines: single quotes, double quotes and backslashes as in the     *)
(* Bourne shell.  Result [ok, words].                                      *)
SQ == 39
DQ == 34
BS == 92
Metachars == {36, 96, DQ, BS, NL}

ShellSplit(t) ==
  LET n == Len(t)
      \* end of a double quoted part starting after i: position of the closing quote or 0
      RECURSIVE Close(_)
      Close(i) == IF i > n THEN 0
                  ELSE IF t[i] = DQ THEN i
                  ELSE IF t[i] = BS THEN (IF i + 1 > n \/ t[i + 1] = NL THEN 0 ELSE Close(i + 2))
                  ELSE Close(i + 1)
      RECURSIVE Unescape(_)
      Unescape(s) == IF s = <<>> THEN <<>>
                     ELSE IF s[1] = BS /\ Len(s) > 1 /\ s[2] \in Metachars
                     THEN <<s[2]>> \o Unescape(SubSeq(s, 3, Len(s)))
                     ELSE <<s[1]>> \o Unescape(Tail(s))
      RECURSIVE SkipWhite(_)
      SkipWhite(i) == IF i =< n /\ t[i] \in White THEN SkipWhite(i + 1) ELSE i
      RECURSIVE Plain(_)
      Plain(i) == IF i =< n /\ t[i] \notin White \cup {SQ, DQ, BS} THEN Plain(i + 1) ELSE i
      SingleEnd(i) == LET S == {k \in (i + 1)..n : t[k] = SQ} IN IF S = {} THEN 0 ELSE MinOf(S)
      bad == [ok |-> FALSE, words |-> <<>>]
      \* field: the word so far; w: its words
      RECURSIVE Go(_, _, _)
      Go(start, field, w) ==
        LET i == SkipWhite(start)
            \* a piece of a word which ends before position j
            Piece(p, j) ==
              IF j > n THEN [ok |-> TRUE, words |-> Append(w, field \o p)]
              ELSE IF t[j] \in White THEN Go(j + 1, <<>>, Append(w, field \o p))
              ELSE Go(j, field \o p, w)
        IN IF i > n THEN [ok |-> TRUE, words |-> w]
           ELSE IF t[i] = SQ
           THEN LET e == SingleEnd(i) IN IF e = 0 THEN bad ELSE Piece(SubSeq(t, i + 1, e - 1), e + 1)
           ELSE IF t[i] = DQ
           THEN LET e == Close(i + 1) IN IF e = 0 THEN bad ELSE Piece(Unescape(SubSeq(t, i + 1, e - 1)), e + 1)
           ELSE IF t[i] = BS
           THEN IF i = n \/ t[i + 1] = NL THEN Piece(<<BS>>, i + 1) ELSE Piece(<<t[i + 1]>>, i + 2)
           ELSE LET e == Plain(i) IN Piece(SubSeq(t, i, e - 1), e)
  IN Go(1, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Commands: [k, op, pos, flags, vals]; k is "cmd", "usage" or "help"      *)

Opt(name, short, takes) == [name |-> name, long |-> T(name), short |-> T(short)[1], takes |-> takes]
Flag(name, short) == Opt(name, short, FALSE)
Val(name, short) == Opt(name, short, TRUE)

Revision == Val("revision", "r")
AssumeYes == Flag("assume-yes", "y")

Syntax ==
  [s \in {"set-primary", "add", "add-stored", "remove", "show", "notes", "list", "alias", "shell", "exit", "lock"} |->
    CASE s = "set-primary" -> [min |-> 0, max |-> 0, opts |-> {AssumeYes}]
      [] s = "add" -> [min |-> 2, max |-> 2,
                       opts |-> {Revision, AssumeYes, Val("length", "l"), Flag("no-lower", "w"),
                                 Flag("no-upper", "u"), Flag("no-digit", "d"), Flag("no-symbol", "s")}]
      [] s = "add-stored" -> [min |-> 2, max |-> 2, opts |-> {Revision, AssumeYes, Flag("recovery", "c")}]
      [] s = "remove" -> [min |-> 2, max |-> 2, opts |-> {Revision}]
      [] s = "show" -> [min |-> 2, max |-> 2, opts |-> {Revision, Flag("qrcode", "q")}]
      [] s = "notes" -> [min |-> 2, max |-> 2, opts |-> {Revision, Flag("set", "s")}]
      [] s = "list" -> [min |-> 0, max |-> 2, opts |-> {Flag("show", "s"), Flag("recovery", "r"), Flag("verbose", "v")}]
      [] s = "alias" -> [min |-> 1, max |-> 2, opts |-> {Flag("remove", "r")}]
      [] s = "shell" -> [min |-> 0, max |-> 0, opts |-> {Val("history", "s")}]
      [] s \in {"exit", "lock"} -> [min |-> 0, max |-> 0, opts |-> {}]]

Names0 == [s \in DOMAIN Syntax |-> T(s)]
HelpLong == T("help")
HelpWord == T("help")
VersionLong == T("version")

(* A number as Rust reads it: digits, optionally after a plus sign; -1 if none *)
ParseNumber(t) ==
  LET d == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
      RECURSIVE Val10(_, _)
      Val10(s, acc) == IF s = <<>> THEN acc
                       ELSE IF s[1] \in 48..57 /\ acc < 100000 THEN Val10(Tail(s), acc * 10 + s[1] - 48)
                       ELSE -1
  IN IF d = <<>> THEN -1 ELSE Val10(d, 0)

Bad(k) == [k |-> k, op |-> "", pos |-> <<>>, flags |-> {}, vals |-> <<>>]

(* words after the subcommand *)
ParseSub(op, words) ==
  LET syn == Syntax[op]
      short(c) == {o \in syn.opts : o.short = c}
      long(t) == {o \in syn.opts : o.long = t}
      Given(r, o) == o.name \in r.flags \cup DOMAIN r.vals
      SetFlag(r, o) == [r EXCEPT !.flags = @ \cup {o.name}]
      SetVal(r, o, v) == [r EXCEPT !.vals = (o.name :> v) @@ @]
      ValueWord(w) == w = <<>> \/ w[1] # 45 \/ w = <<45>>
      RECURSIVE Go(_, _, _)
      RECURSIVE Cluster(_, _, _, _)
      \* c: rest of a cluster of short options
      Cluster(r, c, rest, dd) ==
        IF c = <<>> THEN Go(r, rest, dd)
        ELSE IF c[1] = 104 THEN Bad("help")
        ELSE LET O == short(c[1])
             IN IF O = {} THEN Bad("usage")
                ELSE LET o == CHOOSE o \in O : TRUE
                     IN IF Given(r, o) THEN Bad("usage")
                        ELSE IF ~o.takes THEN Cluster(SetFlag(r, o), Tail(c), rest, dd)
                        ELSE IF Len(c) > 1
                        THEN Go(SetVal(r, o, IF c[2] = 61 THEN SubSeq(c, 3, Len(c)) ELSE Tail(c)), rest, dd)
                        ELSE IF rest # <<>> /\ ValueWord(rest[1]) THEN Go(SetVal(r, o, rest[1]), Tail(rest), dd)
                        ELSE Bad("usage")
      Go(r, ws, dd) ==
        IF ws = <<>> THEN r
        ELSE LET w == ws[1]
                 rest == Tail(ws)
             IN IF dd \/ w = <<>> \/ w[1] # 45 \/ w = <<45>>
                THEN IF Len(r.pos) = syn.max THEN Bad("usage") ELSE Go([r EXCEPT !.pos = Append(@, w)], rest, dd)
                ELSE IF w = <<45, 45>> THEN Go(r, rest, TRUE)
                ELSE IF w[2] = 45
                THEN LET parts == SplitAt(SubSeq(w, 3, Len(w)), 61)
                         hasEq == Len(parts) > 1
                         O == long(parts[1])
                         v == SubSeq(w, 4 + Len(parts[1]), Len(w))
                     IN IF parts[1] = HelpLong THEN Bad("help")
                        ELSE IF O = {} THEN Bad("usage")
                        ELSE LET o == CHOOSE o \in O : TRUE
                             IN IF Given(r, o) THEN Bad("usage")
                                ELSE IF ~o.takes THEN (IF hasEq THEN Bad("usage") ELSE Go(SetFlag(r, o), rest, dd))
                                ELSE IF hasEq THEN Go(SetVal(r, o, v), rest, dd)
                                ELSE IF rest # <<>> /\ ValueWord(rest[1]) THEN Go(SetVal(r, o, rest[1]), Tail(rest), dd)
                                ELSE Bad("usage")
                ELSE Cluster(r, Tail(w), rest, dd)
      r0 == [k |-> "cmd", op |-> op, pos |-> <<>>, flags |-> {}, vals |-> <<>>]
      r == Go(r0, words, FALSE)
  IN IF r.k # "cmd" THEN r
     ELSE IF Len(r.pos) < syn.min THEN Bad("usage")
     ELSE IF "length" \in DOMAIN r.vals /\ ParseNumber(r.vals["length"]) \notin 4..24 THEN Bad("usage")
     ELSE r

(* shell: words of a shell line, which knows "exit" and "lock" *)
ParseArgs(words, shell) ==
  IF words = <<>> THEN Bad("usage")
  ELSE LET w == words[1]
           S == {s \in DOMAIN Syntax : Names0[s] = w /\ (shell \/ s \notin {"exit", "lock"})}
       IN IF w = HelpWord \/ w \in {T("--help"), T("-h"), T("--version"), T("-V")} THEN Bad("help")
          ELSE IF S = {} THEN Bad("usage")
          ELSE ParseSub(CHOOSE s \in S : TRUE, Tail(words))

(* The command as records for Cli.tla *)
Pos(r, i, default) == IF Len(r.pos) >= i THEN r.pos[i] ELSE default
ValueOf(r, name, default) == IF name \in DOMAIN r.vals THEN r.vals[name] ELSE default

Command(r) ==
  [op |-> r.op,
   site |-> Pos(r, 1, <<42>>),
   name |-> Pos(r, 2, <<42>>),
   npos |-> Len(r.pos),
   rev |-> ValueOf(r, "revision", One),
   len |-> IF "length" \in DOMAIN r.vals THEN ParseNumber(r.vals["length"]) ELSE 16,
   cs |-> (IF "no-lower" \in r.flags THEN 0 ELSE 1) + (IF "no-upper" \in r.flags THEN 0 ELSE 2)
            + (IF "no-digit" \in r.flags THEN 0 ELSE 4) + (IF "no-symbol" \in r.flags THEN 0 ELSE 8),
   yes |-> "assume-yes" \in r.flags,
   recovery |-> "recovery" \in r.flags,
   qr |-> "qrcode" \in r.flags,
   set |-> "set" \in r.flags,
   show |-> "show" \in r.flags,
   verbose |-> "verbose" \in r.flags,
   remove |-> "remove" \in r.flags]
=============================================================================
