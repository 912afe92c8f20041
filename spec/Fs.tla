---------------------------------- MODULE Fs ----------------------------------
(***************************************************************************)
(* File operations by which the storage file is saved.                     *)
(*                                                                         *)
(* fs = [names, inodes, handles]                                           *)
(*   names    path -> inode number (a function, growing and shrinking)     *)
(*   inodes   sequence of contents                                         *)
(*   handles  <<process, path>> -> [ino, app]: opened files; app says that *)
(*            everything is written to the end                             *)
(* Contents are sequences of chunks <<w, a, b>>: bytes a to b-1 of what    *)
(* write number w wrote (w = 0: what the file held initially).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Size(c) == LET RECURSIVE Sum(_)
               Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + c[k][3] - c[k][2]
           IN Sum(Len(c))

(* adjacent chunks of one write are one chunk *)
RECURSIVE Norm(_)
Norm(c) ==
  IF c = <<>> THEN <<>>
  ELSE LET h == c[1]
           r == Norm(Tail(c))
       IN IF h[3] = h[2] THEN r
          ELSE IF r # <<>> /\ r[1][1] = h[1] /\ r[1][2] = h[3]
          THEN <<<<h[1], h[2], r[1][3]>>>> \o Tail(r)
          ELSE <<h>> \o r

(* the part of c between offsets from and to *)
RECURSIVE Slice(_, _, _)
Slice(c, from, to) ==
  IF c = <<>> \/ to =< from THEN <<>>
  ELSE LET h == c[1]
           n == h[3] - h[2]
           a == IF from > n THEN n ELSE from
           b == IF to > n THEN n ELSE to
       IN (IF b > a THEN <<<<h[1], h[2] + a, h[2] + b>>>> ELSE <<>>)
          \o Slice(Tail(c), IF from > n THEN from - n ELSE 0, IF to > n THEN to - n ELSE 0)

Hole == -1       \* number of the "write" that consists of zero bytes

(* n bytes of write w, stored at offset off of c *)
Splice(c, w, off, n) ==
  LET size == Size(c)
      gap == IF off > size THEN <<<<Hole, size, off>>>> ELSE <<>>
  IN Norm(Slice(c, 0, off) \o gap \o <<<<w, 0, n>>>> \o Slice(c, off + n, size))

Cut(c, n) ==
  LET size == Size(c)
  IN Norm(IF n =< size THEN Slice(c, 0, n) ELSE c \o <<<<Hole, size, n>>>>)

Absent == <<<<-2, 0, 0>>>>

Contents(fs, path) == IF path \in DOMAIN fs.names THEN fs.inodes[fs.names[path]] ELSE Absent

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Opened(fs, p, path, trunc, app) ==
  LET ino == IF path \in DOMAIN fs.names THEN fs.names[path] ELSE Len(fs.inodes) + 1
      inodes == IF path \in DOMAIN fs.names
                THEN IF trunc THEN [fs.inodes EXCEPT ![ino] = <<>>] ELSE fs.inodes
                ELSE Append(fs.inodes, <<>>)
  IN [names |-> (path :> ino) @@ fs.names, inodes |-> inodes,
      handles |-> (<<p, path>> :> [ino |-> ino, app |-> app]) @@ fs.handles]

(* n bytes of write w are written *)
Written(fs, p, path, w, off, n) ==
  LET h == fs.handles[<<p, path>>]
      c == fs.inodes[h.ino]
  IN [fs EXCEPT !.inodes[h.ino] = Splice(c, w, IF h.app THEN Size(c) ELSE off, n)]

(* a successful operation: [p, op, path, path2, off, len, w] *)
Do(fs, o) ==
  CASE o.op = "trunc" -> Opened(fs, o.p, o.path, TRUE, FALSE)
    [] o.op \in {"open", "excl"} -> Opened(fs, o.p, o.path, FALSE, FALSE)
    [] o.op = "append" -> Opened(fs, o.p, o.path, FALSE, TRUE)
    [] o.op = "write" -> Written(fs, o.p, o.path, o.w, o.off, o.len)
    [] o.op = "truncate" ->
         LET ino == IF <<o.p, o.path>> \in DOMAIN fs.handles THEN fs.handles[<<o.p, o.path>>].ino ELSE fs.names[o.path]
         IN [fs EXCEPT !.inodes[ino] = Cut(@, o.off)]
    [] o.op = "rename" ->
         IF o.path = o.path2 THEN fs
         ELSE [fs EXCEPT !.names = (o.path2 :> fs.names[o.path]) @@ Without(fs.names, o.path)]
    [] o.op = "exchange" ->
         [fs EXCEPT !.names = (o.path2 :> fs.names[o.path]) @@ (o.path :> fs.names[o.path2]) @@ fs.names]
    [] o.op = "link" -> [fs EXCEPT !.names = (o.path2 :> fs.names[o.path]) @@ fs.names]
    [] o.op = "unlink" -> [fs EXCEPT !.names = Without(fs.names, o.path)]
    [] OTHER -> fs         \* close, chmod, sync, mkdir: contents stay

(* the states passed through while the operation is performed *)
During(fs, o) ==
  {Do(fs, o)} \cup
  (IF o.op = "write" THEN {Written(fs, o.p, o.path, o.w, o.off, n) : n \in {k \in {1, o.len \div 2, o.len - 1} : k > 0}}
   ELSE {})
=============================================================================
