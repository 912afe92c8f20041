------------------------------- MODULE Place ----------------------------------
(***************************************************************************)
(* What lies around the storage file.                                      *)
(*                                                                         *)
(*   P.things   set of [path, kind, mode, id]: files, directories and      *)
(*              links; id stands for the contents of other files and the   *)
(*              targets of links (0 for the storage file, whose contents   *)
(*              are the subject of Cli.tla)                                *)
(*   P.debris   paths of what processes that were killed while saving, or  *)
(*              could not tidy up, have left behind                        *)
(*                                                                         *)
(* Running a command creates the storage file and the directories leading  *)
(* to it, if missing, and leaves everything else as it is, access          *)
(* permissions included.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Untouched(things) == [things |-> things, debris |-> {}]

Paths(T) == {x.path : x \in T}

(* target: path of the storage file; above: the directories leading to it; *)
(* may the storage file be created, may directories, may debris be left    *)
Permitted(P, now, target, above, created, dirs, mess) ==
  LET new == {x \in now : x.path \notin Paths(P.things)}
      old == {x \in P.things : x.path \notin Paths(now)}
  IN /\ \A x \in P.things : x.path \in Paths(now) \ P.debris => x \in now
     /\ Paths(old) \subseteq P.debris
     /\ \A x \in new : \/ mess
                       \/ x.path = target /\ x.kind = "file" /\ created
                       \/ x.path \in above /\ x.kind = "dir" /\ dirs

Arranged(P, now, target, above) ==
  [things |-> now,
   debris |-> {x \in P.debris \cup (Paths(now) \ (Paths(P.things) \cup {target} \cup above)) : x \in Paths(now)}]
=============================================================================
