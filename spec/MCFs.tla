--------------------------------- MODULE MCFs ---------------------------------
(***************************************************************************)
(* The protocol by which instances save, at the level of file operations,  *)
(* with crashes, failures and short writes at every point.  It is shown    *)
(* that the file is complete at all times, and that saving is the single   *)
(* atomic step which Vault.tla and Cli.tla take it for.                    *)
(***************************************************************************)
EXTENDS Fs

CONSTANTS Procs,        \* instances
          Saves,        \* how often each one saves
          Protocol      \* "temp": temporary file and rename; wrong ones: "inplace", "fixed" (one temporary
                        \* name for all), "unlink" (the old file is removed first), "keep" (no truncation),
                        \* "untidy" (failing to save leaves the temporary file)

VARIABLES fs, pc, left, last, done,
          debris        \* temporary files of instances which were killed
vars == <<fs, pc, left, last, done, debris>>

Target == "storage"
N(k) == 5 - k           \* bytes of each one's k-th save
Temp(p, k) == IF Protocol = "fixed" THEN "tmp" ELSE "tmp" \o ToString(p)
Path(p, k) == IF Protocol = "inplace" THEN Target ELSE Temp(p, k)
W(p, k) == p * 10 + k   \* number of what process p writes with its k-th save
Whole(w) == <<<<w, 0, N(w % 10)>>>>

Complete == {<<<<0, 0, 6>>>>} \cup {Whole(W(p, k)) : p \in Procs, k \in 1..Saves}

Init == /\ fs = [names |-> (Target :> 1), inodes |-> <<<<<<0, 0, 6>>>>>>, handles |-> <<>>]
        /\ pc = [p \in Procs |-> "idle"]
        /\ left = [p \in Procs |-> Saves]
        /\ last = [p \in Procs |-> 0]           \* bytes written so far
        /\ done = 0                             \* last save reported as done
        /\ debris = {}

K(p) == Saves - left[p] + 1
Op(p, op, path, path2, off, len) == [p |-> p, op |-> op, path |-> path, path2 |-> path2, off |-> off, len |-> len, w |-> W(p, K(p))]
Go(p, s) == pc' = [pc EXCEPT ![p] = s]

Start(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ IF Protocol = "unlink" /\ Target \in DOMAIN fs.names
               THEN fs' = Do(fs, Op(p, "unlink", Target, "", 0, 0))
               ELSE UNCHANGED fs
            /\ Go(p, "open") /\ UNCHANGED <<left, last, done, debris>>

Open(p) == /\ pc[p] = "open"
           /\ fs' = Do(fs, Op(p, IF Protocol = "keep" THEN "open" ELSE "trunc", Path(p, K(p)), "", 0, 0))
           /\ last' = [last EXCEPT ![p] = 0]
           /\ Go(p, "write") /\ UNCHANGED <<left, done, debris>>

Write(p) == /\ pc[p] = "write" /\ last[p] < N(K(p))
            /\ \E n \in 1..(N(K(p)) - last[p]) :
                 /\ fs' = [fs EXCEPT !.inodes[fs.handles[<<p, Path(p, K(p))>>].ino] =
                             LET c == @ IN Norm(Slice(c, 0, last[p]) \o
                                  (IF Size(c) < last[p] THEN <<<<Hole, Size(c), last[p]>>>> ELSE <<>>) \o
                                  <<<<W(p, K(p)), last[p], last[p] + n>>>> \o Slice(c, last[p] + n, Size(c)))]
                 /\ last' = [last EXCEPT ![p] = @ + n]
            /\ UNCHANGED <<pc, left, done, debris>>

Finish(p) == /\ pc[p] = "write" /\ last[p] = N(K(p))
             /\ IF Protocol = "inplace" THEN UNCHANGED fs
                ELSE /\ Path(p, K(p)) \in DOMAIN fs.names
                     /\ fs' = Do(fs, Op(p, "rename", Path(p, K(p)), Target, 0, 0))
             /\ done' = W(p, K(p))
             /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ Go(p, "idle") /\ UNCHANGED <<last, debris>>

(* an operation fails: clean up and report *)
Fail(p) == /\ pc[p] \in {"open", "write"}
           /\ fs' = IF Path(p, K(p)) \in DOMAIN fs.names /\ Path(p, K(p)) # Target /\ Protocol # "untidy"
                    THEN Do(fs, Op(p, "unlink", Path(p, K(p)), "", 0, 0)) ELSE fs
           /\ left' = [left EXCEPT ![p] = @ - 1]
           /\ Go(p, "idle") /\ UNCHANGED <<last, done, debris>>

(* the process ends, its temporary file stays; a later process may have    *)
(* the same number                                                         *)
Crash(p) == /\ pc[p] # "idle"
            /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ debris' = debris \cup {Path(p, K(p))}
            /\ Go(p, "idle") /\ UNCHANGED <<fs, last, done>>

Next == \E p \in Procs : Start(p) \/ Open(p) \/ Write(p) \/ Finish(p) \/ Fail(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars

AlwaysComplete == Contents(fs, Target) \in Complete

(* saving is atomic: the file changes only in the step that completes a    *)
(* save, to what this process saved                                        *)
Atomic == [][Contents(fs, Target)' # Contents(fs, Target)
             => \E p \in Procs : pc[p] = "write" /\ pc'[p] = "idle" /\ Contents(fs, Target)' = Whole(W(p, K(p)))
                                 /\ done' = W(p, K(p))]_vars

(* nothing but the file is left when nobody is saving, unless somebody was killed *)
Tidy == DOMAIN fs.names \subseteq {Target} \cup debris \cup {Path(p, K(p)) : p \in {q \in Procs : pc[q] # "idle"}}

(* what was reported as done last is what the file holds                   *)
DoneHolds == done # 0 => Contents(fs, Target) = Whole(done)
=============================================================================
