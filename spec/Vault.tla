-------------------------------- MODULE Vault --------------------------------
(***************************************************************************)
(* The library as a state machine: one storage file and any number of      *)
(* instances of Passwords<FileIO> working on it.                           *)
(*                                                                         *)
(* State  v = [disk, inst]:                                                *)
(*   disk    [kind, pp, st]   what the file holds: kind "none" (no file),  *)
(*           "bad" (not loadable), "uninit" (loadable, but not             *)
(*           initialised), "damaged" (salt or digest secret unusable) or   *)
(*           "store": contents st, opened by primary password pp           *)
(*   inst[i] [open, unl, mem] mem is the instance's private copy, of the   *)
(*           same shape as disk; unl means unlocked, which always is with  *)
(*           mem.pp                                                        *)
(*                                                                         *)
(* Apply(v, ev) is the set of permitted outcomes [res, v] of one call.     *)
(* ev.fault says that writing the file fails during this call.             *)
(***************************************************************************)
EXTENDS PfpCore

NoFile == [kind |-> "none", pp |-> <<>>, st |-> Empty]
Uninit == [kind |-> "uninit", pp |-> <<>>, st |-> Empty]
StoreOf(pp, st) == [kind |-> "store", pp |-> pp, st |-> st]
Closed == [open |-> FALSE, unl |-> FALSE, mem |-> Uninit]

Out(res, v) == [res |-> res, v |-> v]

LockedOps == {"getAlias", "setAlias", "removeAlias", "setGenerated", "setStored", "has", "get",
              "getNotes", "setNotes", "remove", "list", "listSites", "decode", "recoveryCode"}
ReadOps == {"getAlias", "has", "get", "getNotes", "list", "listSites", "initialized", "unlocked",
            "decode", "recoveryCode"}
WriteOps == {"setAlias", "removeAlias", "removeSites", "setGenerated", "setStored", "setNotes",
             "remove", "reset"}

(* A call that changes the contents and then saves them.  If saving fails  *)
(* the change may or may not remain in memory.                             *)
Saving(v, i, fault, r) ==
  IF ~r.res.ok THEN {Out(r.res, v)}
  ELSE LET mem == [v.inst[i].mem EXCEPT !.st = r.st]
       IN IF fault
          THEN {Out(Err("SaveFailure"), v),
                Out(Err("SaveFailure"), [v EXCEPT !.inst[i].mem = mem])}
          ELSE {Out(r.res, [v EXCEPT !.inst[i].mem = mem, !.disk = mem])}

Reset(v, i, pp, fault) ==
  LET mem == StoreOf(pp, Empty)
      with(u, m) == [v EXCEPT !.inst[i].unl = u, !.inst[i].mem = m]
  IN IF fault
     THEN \* either rolled back or replaced in memory, but never old keys with new data
          {Out(Err("SaveFailure"), v),
           Out(Err("SaveFailure"), with(FALSE, v.inst[i].mem)),
           Out(Err("SaveFailure"), with(FALSE, mem)),
           Out(Err("SaveFailure"), with(TRUE, mem))}
     ELSE {Out(Ok(0), [with(TRUE, mem) EXCEPT !.disk = mem])}

Unlock(v, i, pp) ==
  LET I == v.inst[i]
  IN IF I.mem.kind = "uninit" THEN {Out(Err("StorageNotInitialized"), v)}
     ELSE IF I.mem.kind = "damaged" THEN {Out(Err("Damaged"), v)}
     ELSE IF I.mem.pp = pp THEN {Out(Ok(0), [v EXCEPT !.inst[i].unl = TRUE])}
     ELSE {Out(Err("DecryptionFailure"), v)}

Load(v, i) ==
  CASE v.disk.kind = "none" -> {Out(Err("FileReadFailure"), [v EXCEPT !.inst[i] = Closed])}
    [] v.disk.kind = "bad" -> {Out(Err("BadFile"), [v EXCEPT !.inst[i] = Closed])}
    [] OTHER -> {Out(Ok(0), [v EXCEPT !.inst[i] = [open |-> TRUE, unl |-> FALSE, mem |-> v.disk]])}

(* names that can matter to a pattern *)
ListOut(st, ev) == {Ok(ListPws(st, ev.site, M)) : M \in MatchSets(NamesIn(st), ev.name)}
ListSitesOut(st, ev) == {Ok(ListSites(st, M)) : M \in MatchSets(SiteNamesIn(st), ev.site)}

Query(st, ev) ==     \* set of permitted results
  CASE ev.op = "getAlias" -> {GetAlias(st, ev.site)}
    [] ev.op = "has" -> {Has(st, ev.site, ev.name, ev.rev)}
    [] ev.op = "get" -> {GetEntry(st, ev.site, ev.name, ev.rev)}
    [] ev.op = "getNotes" -> {GetNotes(st, ev.site, ev.name, ev.rev)}
    [] ev.op = "list" -> ListOut(st, ev)
    [] ev.op = "listSites" -> ListSitesOut(st, ev)

Change(st, ev) ==    \* [res, st]
  CASE ev.op = "setAlias" -> SetAlias(st, ev.site, ev.target)
    [] ev.op = "removeAlias" -> RemoveAlias(st, ev.site)
    [] ev.op = "removeSites" -> RemoveSites(st, ev.sites)
    [] ev.op = "setGenerated" -> SetGenerated(st, ev.site, ev.name, ev.rev, ev.len, ev.cs)
    [] ev.op = "setStored" -> SetStored(st, ev.site, ev.name, ev.rev, ev.value)
    [] ev.op = "setNotes" -> SetNotes(st, ev.site, ev.name, ev.rev, ev.notes)
    [] ev.op = "remove" -> RemovePw(st, ev.site, ev.name, ev.rev)

Apply(v, ev) ==
  LET i == ev.i
      I == v.inst[i]
  IN CASE ev.op = "load" -> Load(v, i)
       [] ev.op = "new" -> {Out(Ok(0), [v EXCEPT !.inst[i] = [open |-> TRUE, unl |-> FALSE, mem |-> Uninit]])}
       [] ev.op = "drop" -> {Out(Ok(0), [v EXCEPT !.inst[i] = Closed])}
       [] OTHER ->
          IF ~I.open THEN {Out(Err("NoInstance"), v)}
          ELSE CASE ev.op = "lock" -> {Out(Ok(0), [v EXCEPT !.inst[i].unl = FALSE])}
                 [] ev.op = "unlock" -> Unlock(v, i, ev.pp)
                 [] ev.op = "reset" -> Reset(v, i, ev.pp, ev.fault)
                 [] ev.op = "initialized" -> {Out(Ok(I.mem.kind \in {"store", "damaged"}), v)}
                 [] ev.op = "unlocked" -> {Out(Ok(I.unl), v)}
                 [] ev.op = "removeSites" /\ ev.sites = <<>> ->
                      {Out(Ok(<<>>), v)} \cup (IF I.unl THEN {} ELSE {Out(Err("PasswordsLocked"), v)})
                 [] ~I.unl /\ ev.op \in {"list", "listSites"} -> {Out(Err("AnyError"), v)}
                 [] ~I.unl -> {Out(Err("PasswordsLocked"), v)}
                 [] ev.op \in ReadOps -> {Out(r, v) : r \in Query(I.mem.st, ev)}
                 [] OTHER -> Saving(v, i, ev.fault, Change(I.mem.st, ev))

(* What an implementation may do as well which notices that another        *)
(* instance has saved since this one has read the file: go on from what    *)
(* the file holds now, or refuse to save.                                  *)
Stale(v, i) == v.inst[i].open /\ v.disk.kind = "store" /\ v.inst[i].mem # v.disk
Refresh(v, i) == [v EXCEPT !.inst[i].mem = v.disk]

Careful(v, ev) ==      \* two sets of outcomes
  IF ev.op \in {"load", "new", "drop"} \/ ~Stale(v, ev.i) THEN <<{}, {}>>
  ELSE <<IF ~v.inst[ev.i].unl \/ v.inst[ev.i].mem.pp = v.disk.pp THEN Apply(Refresh(v, ev.i), ev) ELSE {},
         IF ev.op \in WriteOps THEN {Out(Err("AnyError"), v)} ELSE {}>>

-----------------------------------------------------------------------------
(* What the specification guarantees about every reachable state *)

TypeOK(v) ==
  /\ v.disk.kind \in {"none", "bad", "uninit", "damaged", "store"}
  /\ \A i \in DOMAIN v.inst : v.inst[i].unl => v.inst[i].open /\ v.inst[i].mem.kind = "store"

ContentsOK(v) ==
  /\ WellFormed(v.disk.st)
  /\ \A i \in DOMAIN v.inst : WellFormed(v.inst[i].mem.st)
=============================================================================
