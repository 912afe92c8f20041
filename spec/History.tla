------------------------------ MODULE History --------------------------------
(***************************************************************************)
(* The command history of shells.                                          *)
(*                                                                         *)
(*   file    lines kept in the history file                                *)
(*   mem[i]  lines known to the shell in process i                         *)
(*   new[i]  has it added any?                                             *)
(*                                                                         *)
(* A shell starts with what the file holds, adds what is entered at its    *)
(* prompt (never the answers to questions) and, unless killed, writes all  *)
(* of it when it ends.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT Limit           \* lines kept at most, 100 for the program

Newest(h) == IF Len(h) > Limit THEN SubSeq(h, Len(h) - Limit + 1, Len(h)) ELSE h

Remember(h, t) ==
  IF t = <<>> \/ (h # <<>> /\ h[Len(h)] = t) THEN h ELSE Newest(Append(h, t))

NoHistory(file, P) == [file |-> file, mem |-> [i \in P |-> <<>>], new |-> [i \in P |-> FALSE]]

HOpened(H, i) == [H EXCEPT !.mem[i] = H.file, !.new[i] = FALSE]
HEntered(H, i, t) == LET h == Remember(H.mem[i], t)
                    IN [H EXCEPT !.mem[i] = h, !.new[i] = @ \/ h # H.mem[i]]
(* The n-th last line, the first one if there are less *)
HBack(H, i, n) ==
  LET h == H.mem[i]
  IN IF h = <<>> THEN <<>> ELSE IF n >= Len(h) THEN h[1] ELSE h[Len(h) - n + 1]

HClosed(H, i) == IF H.new[i] THEN [H EXCEPT !.file = H.mem[i], !.new[i] = FALSE] ELSE H
=============================================================================
