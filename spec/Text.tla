-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points.  T("...") converts an ASCII *)
(* literal.  Everything here is pure; it is shared by all other modules.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c)]

T(str) == <<>> \o [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

NL == 10
Tab == 9

(* Decimal representation of a natural number *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

Range(s) == {s[i] : i \in DOMAIN s}

MinOf(S) == CHOOSE x \in S : \A y \in S : x =< y

(* Concatenation of a sequence of texts *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>>
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET m == Len(ss) \div 2 IN Cat(SubSeq(ss, 1, m)) \o Cat(SubSeq(ss, m + 1, Len(ss)))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* Splits a text at every occurrence of the code point c, like str::split *)
SplitAt(s, c) ==
  LET cuts == {i \in DOMAIN s : s[i] = c}
      n == Cardinality(cuts)
      Pos[k \in 0..(n + 1)] ==
         IF k = 0 THEN 0
         ELSE IF k = n + 1 THEN Len(s) + 1
         ELSE MinOf({i \in cuts : i > Pos[k - 1]})
  IN [k \in 1..(n + 1) |-> SubSeq(s, Pos[k - 1] + 1, Pos[k] - 1)]

IsPrefixOf(p, s) == Len(p) =< Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* Is p a contiguous part of s? *)
Contains(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

(* Lexicographic order by code point; equals the byte order of UTF-8 *)
Less(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == MinOf(D) IN a[i] < b[i]

(* Sorts a set of texts *)
RECURSIVE SortTexts(_)
SortTexts(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Less(x, y)
       IN <<m>> \o SortTexts(S \ {m})

(* White space as defined by Unicode, what Rust's str::trim removes *)
White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
           \cup (8192..8202)

Trim(s) ==
  LET keep == {i \in DOMAIN s : s[i] \notin White}
  IN IF keep = {} THEN <<>>
     ELSE SubSeq(s, MinOf(keep), CHOOSE m \in keep : \A k \in keep : k =< m)

(* Number of bytes in the UTF-8 encoding *)
RECURSIVE ByteLen(_)
ByteLen(s) ==
  IF s = <<>> THEN 0
  ELSE LET c == s[1]
       IN (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4)
            + ByteLen(Tail(s))

(* Lower case for ASCII only; other characters are left alone.  Used for   *)
(* yes/no answers, where the drivers do not enter upper case outside ASCII *)
LowerAscii(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]

WwwDot == T("www.")

(* One leading "www." is ignored *)
NormSite(s) == IF IsPrefixOf(WwwDot, s) THEN SubSeq(s, 5, Len(s)) ELSE s

One == T("1")

(* Revision "1" equals the empty revision *)
NormRev(r) == IF r = One THEN <<>> ELSE r

-----------------------------------------------------------------------------
(* Wildcard patterns: "*" any text, "?" any one character *)
Star == 42
QMark == 63

RECURSIVE Wild(_, _)
Wild(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = Star THEN \E k \in 0..Len(s) : Wild(Tail(p), SubSeq(s, k + 1, Len(s)))
  ELSE s # <<>> /\ (p[1] = QMark \/ p[1] = s[1]) /\ Wild(Tail(p), Tail(s))

(* The algorithm of the wildmatch 2.1.0 dependency.  It deviates from Wild *)
(* for some patterns (known finding of C05).                               *)
WmStates(p) ==
  \* sequence of [c |-> <<char>> or <<>>, w |-> wildcard before it]
  LET RECURSIVE Go(_, _, _)
      Go(q, star, acc) ==
        IF q = <<>> THEN IF p = <<>> THEN acc ELSE Append(acc, [c |-> <<>>, w |-> star])
        ELSE IF q[1] = Star THEN Go(Tail(q), TRUE, acc)
        ELSE Go(Tail(q), FALSE, Append(acc, [c |-> <<q[1]>>, w |-> star]))
  IN Go(p, FALSE, <<>>)

WildImpl(p, s) ==
  LET P == WmStates(p)
      Hit(st, ch) == st.c = <<QMark>> \/ st.c = <<ch>>
      \* going back to the last state with wildcard; 0 means no match
      RECURSIVE Back(_, _)
      Back(k, ch) == IF P[k].w THEN IF Hit(P[k], ch) THEN k + 1 ELSE k
                     ELSE IF k = 1 THEN 0 ELSE Back(k - 1, ch)
      RECURSIVE Go(_, _)
      Go(k, q) ==
        IF q = <<>> THEN P[k].c = <<>>
        ELSE IF k > Len(P) THEN FALSE
        ELSE IF Hit(P[k], q[1]) THEN Go(k + 1, Tail(q))
        ELSE IF P[k].w THEN (IF P[k].c = <<>> THEN TRUE ELSE Go(k, Tail(q)))
        ELSE IF k = 1 THEN FALSE
        ELSE LET b == Back(k - 1, q[1]) IN IF b = 0 THEN FALSE ELSE Go(b, Tail(q))
  IN IF P = <<>> THEN s = <<>> ELSE Go(1, s)
=============================================================================
