------------------------------ MODULE Recovery -------------------------------
(***************************************************************************)
(* Recovery codes (pfp/src/recovery_codes.rs): alphabet, layout, checksums *)
(* and the diagnosis of entered codes.  Bytes are numbers 0..255.  The     *)
(* authenticated decryption itself is an oracle: a set of rows             *)
(* [pp, data, plain], data being the bytes without checksums and plain     *)
(* <<>> (does not decrypt) or <<bytes>>.                                   *)
(***************************************************************************)
EXTENDS Text, Bitwise

BlockSize == 14                  \* bytes of data in a line
LineSize == 24                   \* characters in a line
HeaderSize == 1 + 16 + 12        \* version, salt, nonce
TagSize == 16
Version == 1

Alphabet32 == T("ABCDEFGHJKLMNPQRSTUVWXYZ23456789")
Alphabet32Set == Range(Alphabet32)
Value32 == [c \in Alphabet32Set |-> (CHOOSE i \in 1..32 : Alphabet32[i] = c) - 1]

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c

(* What remains of an entered text: characters of the alphabet, upper case *)
Chars(text) ==
  LET up == [i \in DOMAIN text |-> Upper(text[i])]
  IN SelectSeq(up, LAMBDA c : c \in Alphabet32Set)

(* Punctuation as in displayed codes *)
Punctuated(cs) ==
  Cat([i \in 1..Len(cs) |->
         <<cs[i]>> \o (IF i = Len(cs) THEN <<>>
                       ELSE IF i % LineSize = 0 THEN <<NL>>
                       ELSE IF i % (LineSize \div 2) = 0 THEN <<58>>
                       ELSE IF i % (LineSize \div 6) = 0 THEN <<45>>
                       ELSE <<>>)])

(* Eight characters are five bytes *)
Bytes5(c) ==
  LET v == [i \in 1..8 |-> Value32[c[i]]]
  IN << v[1] * 8 + v[2] \div 4,
        (v[2] % 4) * 64 + v[3] * 2 + v[4] \div 16,
        (v[4] % 16) * 16 + v[5] \div 2,
        (v[5] % 2) * 128 + v[6] * 4 + v[7] \div 8,
        (v[7] % 8) * 32 + v[8] >>

Decode32(cs) ==       \* Len(cs) is a multiple of 8
  Cat([k \in 1..(Len(cs) \div 8) |-> Bytes5(SubSeq(cs, 8 * k - 7, 8 * k))])

Perm == [i \in 0..255 |-> ((i + 379) * 467) % 256]

RECURSIVE PearsonFrom(_, _)
PearsonFrom(h, bytes) ==
  IF bytes = <<>> THEN h ELSE PearsonFrom(Perm[h ^^ bytes[1]], Tail(bytes))
Pearson(bytes, virtual) == PearsonFrom(Perm[virtual], bytes)

(* Kind of the n-th line (counted from 0): "last", "more" or "wrong" *)
LineKind(row, n) ==
  LET block == SubSeq(row, 1, BlockSize)
      sum == row[BlockSize + 1]
      m == n % 256
  IN IF sum = Pearson(block, 255 - m) THEN "last"
     ELSE IF sum = Pearson(block, m) THEN "more"
     ELSE "wrong"

(* Diagnosis of an entered text: [k, line, data]; line counts from 0, data *)
(* are the bytes without checksums                                         *)
Diag(k, line, data) == [k |-> k, line |-> line, data |-> data]

Validate(text) ==
  LET cs == Chars(text)
      n == Len(cs) \div LineSize
      partial == Len(cs) % LineSize # 0
      row(i) == Decode32(SubSeq(cs, i * LineSize + 1, (i + 1) * LineSize))
      RECURSIVE Go(_, _)
      Go(i, acc) ==
        IF i = n THEN Diag("incomplete", 0, <<>>)
        ELSE LET r == row(i)
                 kind == LineKind(r, i)
                 data == acc \o SubSeq(r, 1, BlockSize)
             IN CASE kind = "wrong" -> Diag("mismatch", i, <<>>)
                  [] kind = "more" -> Go(i + 1, data)
                  [] kind = "last" -> IF i + 1 < n \/ partial THEN Diag("extra", i + 1, <<>>)
                                      ELSE Diag("ok", 0, data)
  IN Go(0, <<>>)

-----------------------------------------------------------------------------
(* UTF-8 *)
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(t) == Cat([i \in DOMAIN t |-> Utf8Char(t[i])])

(* <<text>>, or <<>> if the bytes are not valid UTF-8 *)
UnUtf8(bytes) ==
  LET cont(i) == i \in DOMAIN bytes /\ bytes[i] \in 128..191
      RECURSIVE Go(_, _)
      Go(i, acc) ==
        IF i > Len(bytes) THEN <<acc>>
        ELSE LET b == bytes[i]
             IN IF b < 128 THEN Go(i + 1, Append(acc, b))
                ELSE IF b \in 194..223 /\ cont(i + 1)
                THEN Go(i + 2, Append(acc, (b - 192) * 64 + bytes[i + 1] - 128))
                ELSE IF b \in 224..239 /\ cont(i + 1) /\ cont(i + 2)
                THEN LET c == (b - 224) * 4096 + (bytes[i + 1] - 128) * 64 + bytes[i + 2] - 128
                     IN IF c < 2048 \/ c \in 55296..57343 THEN <<>> ELSE Go(i + 3, Append(acc, c))
                ELSE IF b \in 240..244 /\ cont(i + 1) /\ cont(i + 2) /\ cont(i + 3)
                THEN LET c == (b - 240) * 262144 + (bytes[i + 1] - 128) * 4096
                                + (bytes[i + 2] - 128) * 64 + bytes[i + 3] - 128
                     IN IF c < 65536 \/ c > 1114111 THEN <<>> ELSE Go(i + 4, Append(acc, c))
                ELSE <<>>
  IN Go(1, <<>>)

RECURSIVE LastNonZero(_, _)
LastNonZero(bytes, n) == IF n = 0 \/ bytes[n] # 0 THEN n ELSE LastNonZero(bytes, n - 1)
StripZeros(bytes) == SubSeq(bytes, 1, LastNonZero(bytes, Len(bytes)))

RowsFor(rows, pp, data) == {r \in rows : r.pp = pp /\ r.data = data}

(* Decoding an entered text: [k, line, value], value is a text *)
Decode(text, pp, rows) ==
  LET d == Validate(text)
      res(k) == [k |-> k, line |-> 0, value |-> <<>>]
  IN IF d.k # "ok" THEN [k |-> d.k, line |-> d.line, value |-> <<>>]
     ELSE IF d.data[1] # Version THEN res("version")
     ELSE IF Len(d.data) < HeaderSize + TagSize THEN res("short")
     ELSE LET R == RowsFor(rows, pp, d.data)
          IN IF R = {} THEN res("no oracle")
             ELSE LET r == CHOOSE r \in R : TRUE
                  IN IF r.plain = <<>> THEN res("undecryptable")
                     ELSE LET t == UnUtf8(StripZeros(r.plain[1]))
                          IN IF t = <<>> THEN res("utf8")
                             ELSE [k |-> "ok", line |-> 0, value |-> t[1]]

(* Number of lines of the code for a password of n bytes *)
LinesFor(n) == (HeaderSize + TagSize + n + BlockSize - 1) \div BlockSize

(* Is code (as displayed) a correct code for the password value? *)
GoodCode(code, pp, value, rows) ==
  /\ code = Punctuated(Chars(code))
  /\ Len(Chars(code)) = LineSize * LinesFor(ByteLen(value))
  /\ LET d == Decode(code, pp, rows) IN d.k = "ok" /\ d.value = StripZeros(value)
=============================================================================
