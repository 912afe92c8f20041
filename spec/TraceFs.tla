------------------------------- MODULE TraceFs --------------------------------
(***************************************************************************)
(* The file operations of one input to the real program (recorded by       *)
(* shim/fsshim.c), carried out in the model of files of Fs.tla: in every   *)
(* state passed through the storage file has to be complete, as before the *)
(* first or as after the last of them.                                     *)
(*                                                                         *)
(* Each line of the trace file: target, files (path, size; the first one   *)
(* is the target if it exists), events (successful operations), size (of   *)
(* the real file afterwards, -1 without one).                              *)
(***************************************************************************)
EXTENDS Fs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.PFP_TRACE)
Verbose == IOEnv.PFP_VERBOSE = "1"

VARIABLES tid, l, fs
vars == <<tid, l, fs>>

Tr == Traces[tid]

Initially(tr) ==
  [names |-> [p \in {f.path : f \in {tr.files[k] : k \in DOMAIN tr.files}} |->
                CHOOSE k \in DOMAIN tr.files : tr.files[k].path = p],
   inodes |-> [k \in DOMAIN tr.files |-> Norm(<<<<IF tr.files[k].path = tr.target THEN 0 ELSE -10 - k, 0, tr.files[k].size>>>>)],
   handles |-> <<>>]

Known(s, o) ==
  CASE o.op = "write" -> <<o.p, o.path>> \in DOMAIN s.handles
    [] o.op = "truncate" -> <<o.p, o.path>> \in DOMAIN s.handles \/ o.path \in DOMAIN s.names
    [] o.op \in {"rename", "link", "unlink"} -> o.path \in DOMAIN s.names
    [] o.op = "exchange" -> {o.path, o.path2} \subseteq DOMAIN s.names
    [] OTHER -> TRUE

Lost == [names |-> <<>>, inodes |-> <<>>, handles |-> <<>>]

(* state after all operations; Lost if the model cannot follow them *)
RECURSIVE After(_, _)
After(s, ops) ==
  IF ops = <<>> THEN s
  ELSE IF ~Known(s, ops[1]) THEN Lost
  ELSE After(Do(s, ops[1]), Tail(ops))

Old(tr) == Contents(Initially(tr), tr.target)
Final(tr) == Contents(After(Initially(tr), tr.events), tr.target)

Follows(tr) ==
  LET a == After(Initially(tr), tr.events)
  IN /\ a # Lost
     /\ IF tr.target \in DOMAIN a.names THEN Size(Contents(a, tr.target)) = tr.size ELSE tr.size = -1

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ fs = Initially(Traces[tid])

Complete(s) == Contents(s, Tr.target) \in {Old(Tr), Final(Tr)}

Consume == /\ l =< Len(Tr.events)
           /\ LET o == Tr.events[l]
              IN /\ ~Follows(Tr) \/ \A s \in During(fs, o) : Complete(s)
                 /\ fs' = IF Follows(Tr) THEN Do(fs, o) ELSE fs
           /\ l' = l + 1
           /\ UNCHANGED tid

Done == /\ l = Len(Tr.events) + 1
        /\ PrintT("DONE " \o ToString(tid))
        /\ Follows(Tr) => PrintT("FOLLOWED " \o ToString(tid))
        /\ UNCHANGED vars

Next == Consume \/ Done
Spec == Init /\ [][Next]_vars

Explain ==
  Verbose => PrintT("AT " \o ToJson([tid |-> tid, l |-> l, v |-> fs,
     allowed |-> {Old(Tr), Final(Tr)}]))
=============================================================================
