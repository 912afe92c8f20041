------------------------------ MODULE MCHistory ------------------------------
(***************************************************************************)
(* Bounded model of shells sharing a history file: what is entered at      *)
(* prompts (lines 1..L) and as answers (<<9>>).  Ask = TRUE adds        *)
(* answers to the history, which the invariants must notice.               *)
(***************************************************************************)
EXTENDS History, FiniteSets, TLC

L2 == {<<1>>, <<2>>}
L3 == L2 \cup {<<>>}
CONSTANTS Procs, Lines, Depth, Ask, AtOnce
VARIABLES h, open, all, log, steps
vars == <<h, open, all, log, steps>>

Init == h = NoHistory(<<>>, Procs) /\ open = {} /\ all = <<>> /\ log = <<>> /\ steps = 0

Step == steps < Depth /\ steps' = steps + 1

Start(i) == /\ i \notin open /\ Cardinality(open) < AtOnce
            /\ h' = HOpened(h, i) /\ open' = open \cup {i}
            /\ all' = IF open = {} THEN h.file ELSE all
            /\ UNCHANGED log
Line(i, t) == /\ i \in open /\ h' = HEntered(h, i, t)
              /\ log' = Append(log, t)
              /\ all' = Remember(all, t)
              /\ UNCHANGED open
Answer(i) == /\ i \in open /\ h' = IF Ask THEN HEntered(h, i, <<9>>) ELSE h
             /\ UNCHANGED <<open, all, log>>
End(i) == /\ i \in open /\ h' = HClosed(h, i) /\ open' = open \ {i} /\ UNCHANGED <<all, log>>
Kill(i) == /\ i \in open /\ h' = [h EXCEPT !.new[i] = FALSE] /\ open' = open \ {i} /\ all' = h.file /\ UNCHANGED log

Next == Step /\ \E i \in Procs : Start(i) \/ Answer(i) \/ End(i) \/ Kill(i) \/ \E t \in Lines : Line(i, t)
Spec == Init /\ [][Next]_vars

(* Only what was entered at prompts, no more than the limit, no line twice in a row *)
OnlyLines == \A k \in DOMAIN h.file : \E j \in DOMAIN log : log[j] = h.file[k]
Bounded == Len(h.file) =< Limit
NoRepeats == \A k \in 1..Len(h.file) - 1 : h.file[k] # h.file[k + 1]
(* One shell at a time: all that was entered since, the newest lines of it *)
Complete == (AtOnce = 1 /\ open = {} /\ steps > 0) => h.file = all
=============================================================================
