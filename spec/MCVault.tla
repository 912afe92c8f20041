------------------------------- MODULE MCVault -------------------------------
(***************************************************************************)
(* Bounded instance of Vault.tla: every history of calls by one instance   *)
(* over a few sites, names, revisions and values.  Each step is one        *)
(* library call.  With Emit = TRUE every transition is printed as JSON;    *)
(* lib/replay.py walks all of them through the real library.               *)
(***************************************************************************)
EXTENDS Vault, Json

CONSTANTS SiteArgs,      \* site arguments, including spellings with www.
          Names, Revs,   \* name and revision arguments
          Values,        \* values of stored passwords
          Lens,          \* lengths of generated passwords
          NotesTexts,    \* notes
          PPs,           \* primary passwords
          Faults,        \* subset of BOOLEAN: may saving fail?
          MaxPws,        \* at most this many passwords at a time
          WithLock,      \* lock, unlock, reset, load during the history?
          Emit

VARIABLES v, last
vars == <<v, last>>

NoArgs == [op |-> "none", i |-> 1, fault |-> FALSE, site |-> <<>>, name |-> <<>>, rev |-> <<>>,
           target |-> <<>>, value |-> <<>>, notes |-> <<>>, len |-> 0, cs |-> 0, pp |-> <<>>,
           sites |-> <<>>]

Call(op) == [NoArgs EXCEPT !.op = op]
Ids(op) == {[Call(op) EXCEPT !.site = s, !.name = n, !.rev = r] :
              s \in SiteArgs, n \in Names, r \in Revs}

Calls ==
  {[Call("getAlias") EXCEPT !.site = s] : s \in SiteArgs}
  \cup {[Call("removeAlias") EXCEPT !.site = s] : s \in SiteArgs}
  \cup {[Call("setAlias") EXCEPT !.site = s, !.target = t] : s, t \in SiteArgs}
  \cup {[Call("removeSites") EXCEPT !.sites = <<s>>] : s \in {NormSite(s) : s \in SiteArgs}}
  \cup Ids("has") \cup Ids("get") \cup Ids("getNotes") \cup Ids("remove")
  \cup UNION {{[e EXCEPT !.value = x] : x \in Values} : e \in Ids("setStored")}
  \cup UNION {{[e EXCEPT !.len = x, !.cs = 15] : x \in Lens} : e \in Ids("setGenerated")}
  \cup UNION {{[e EXCEPT !.notes = x] : x \in NotesTexts} : e \in Ids("setNotes")}
  \cup {[Call("list") EXCEPT !.site = s, !.name = <<Star>>] : s \in SiteArgs}
  \cup {[Call("listSites") EXCEPT !.site = s] : s \in SiteArgs \cup {<<Star>>}}
  \cup (IF WithLock THEN
          {[Call(op) EXCEPT !.pp = p] : op \in {"unlock", "reset"}, p \in PPs}
          \cup {Call("lock"), Call("load"), Call("drop"), Call("unlocked"), Call("initialized")}
        ELSE {})

FaultyCalls == {[e EXCEPT !.fault = TRUE] : e \in {c \in Calls : c.op \in WriteOps}}

AllCalls == (IF FALSE \in Faults THEN Calls ELSE {}) \cup (IF TRUE \in Faults THEN FaultyCalls ELSE {})

(* remove_sites is documented to be for sites without passwords only *)
Permitted(ev) ==
  ev.op = "removeSites" =>
     \A p \in v.inst[1].mem.st.pws : p.site # ev.sites[1]

Init ==
  /\ LET pp == CHOOSE p \in PPs : TRUE
         d == StoreOf(pp, Empty)
     IN v = [disk |-> d, inst |-> <<[open |-> TRUE, unl |-> TRUE, mem |-> d]>>]
  /\ last = [ev |-> NoArgs, res |-> Ok(0)]

Step(op) ==
  \E ev \in {e \in AllCalls : e.op = op} :
     /\ Permitted(ev)
     /\ \E o \in Apply(v, ev) :
          /\ v' = o.v
          /\ last' = [ev |-> ev, res |-> o.res]

AnyGetAlias == Step("getAlias")
AnySetAlias == Step("setAlias")
AnyRemoveAlias == Step("removeAlias")
AnyRemoveSites == Step("removeSites")
AnySetGenerated == Step("setGenerated")
AnySetStored == Step("setStored")
AnyHas == Step("has")
AnyGet == Step("get")
AnyGetNotes == Step("getNotes")
AnySetNotes == Step("setNotes")
AnyRemove == Step("remove")
AnyList == Step("list")
AnyListSites == Step("listSites")
AnyReset == Step("reset")
AnyUnlock == Step("unlock")
AnyLock == Step("lock")
AnyLoad == Step("load")
AnyDrop == Step("drop")
AnyFlags == Step("unlocked") \/ Step("initialized")

Next == \/ AnyGetAlias \/ AnySetAlias \/ AnyRemoveAlias \/ AnyRemoveSites \/ AnySetGenerated
        \/ AnySetStored \/ AnyHas \/ AnyGet \/ AnyGetNotes \/ AnySetNotes \/ AnyRemove \/ AnyList
        \/ AnyListSites \/ AnyReset \/ AnyUnlock \/ AnyLock \/ AnyLoad \/ AnyDrop \/ AnyFlags

Spec == Init /\ [][Next]_vars

View == v

Bound == Cardinality(v.inst[1].mem.st.pws) =< MaxPws

(* values for the configurations *)
SitesABC == {T("a"), T("b"), T("c")}
SitesAW == {T("a"), T("www.a"), T("b")}
SitesA == {T("a")}
SitesAB == {T("a"), T("b")}
SitesABCD == {T("a"), T("b"), T("c"), T("d")}
NamesX == {T("x")}
NamesXY == {T("x"), T("y")}
RevsE == {<<>>}
RevsE12 == {<<>>, T("1"), T("2")}
ValuesP == {T("p")}
ValuesPQ == {T("p"), T("q")}
Lens5 == {5}
Lens57 == {5, 7}
LensNone == {}
NotesEN == {<<>>, T("n")}
NotesN == {T("n")}
NotesENM == {<<>>, T("n"), T("m")}
PPsOne == {T("primary1")}
PPsTwo == {T("primary1"), T("primary2")}

-----------------------------------------------------------------------------
Inv == TypeOK(v) /\ ContentsOK(v)

(* C14: an unlocked instance always holds data of its own primary password; *)
(* a session whose last save succeeded equals the file                      *)
InvSaved == (FALSE \in Faults /\ TRUE \notin Faults /\ v.inst[1].open)
               => v.inst[1].mem = v.disk \/ v.inst[1].mem.kind = "uninit"

(* C02: calls reporting an error and reading calls leave everything alone *)
NoTrace ==
  [][(~last'.res.ok /\ ~last'.ev.fault /\ last'.ev.op # "load") \/ last'.ev.op \in ReadOps
        => v' = v]_vars

(* C01: a successful modification is in the file *)
Durable ==
  [][(last'.res.ok /\ last'.ev.op \in WriteOps) => v'.disk = v'.inst[1].mem]_vars

(* C03/C01: a modification touches the addressed entry only *)
OnlyAddressed ==
  [][last'.ev.op \in {"setGenerated", "setStored", "setNotes", "remove"} =>
       \A p \in (v.inst[1].mem.st.pws \cup v'.inst[1].mem.st.pws) :
          ~(p.site = Resolve(v.inst[1].mem.st, last'.ev.site) /\ p.name = last'.ev.name
              /\ p.rev = NormRev(last'.ev.rev))
            => (p \in v.inst[1].mem.st.pws <=> p \in v'.inst[1].mem.st.pws)]_vars

(* C04: operations on aliases never change passwords *)
AliasesKeepPasswords ==
  [][last'.ev.op \in {"setAlias", "removeAlias", "removeSites"} =>
       v'.inst[1].mem.st.pws = v.inst[1].mem.st.pws]_vars

(* C06: while locked nothing changes and nothing but errors is returned *)
LockedIsInert ==
  [][(v.inst[1].open /\ ~v.inst[1].unl /\ last'.ev.op \in LockedOps) =>
       ~last'.res.ok /\ v' = v]_vars

(* C06: only the right primary password unlocks *)
OnlyRightPassword ==
  [][(~v.inst[1].unl /\ v'.inst[1].unl) =>
       \/ last'.ev.op = "unlock" /\ last'.ev.pp = v.inst[1].mem.pp
       \/ last'.ev.op = "reset"]_vars

(* C07: reset leaves nothing behind *)
ResetEmpties ==
  [][(last'.ev.op = "reset" /\ last'.res.ok) =>
       v'.disk = StoreOf(last'.ev.pp, Empty)]_vars

(* C14: a failed save never changes the file and is always reported *)
FailedSaveReported ==
  [][last'.ev.fault => v'.disk = v.disk
       /\ (last'.res.ok => (last'.ev.op = "removeSites" /\ last'.ev.sites = <<>>))]_vars

-----------------------------------------------------------------------------
Brief(w) == [disk |-> w.disk, inst |-> w.inst[1]]
(* With Emit: prints every reachable state with all calls and their outcomes; *)
(* beyond the bound only those leading back *)
EmitNode ==
  Emit =>
    PrintT("NODE " \o ToJson([state |-> Brief(v),
        calls |-> {[ev |-> ev, outs |-> {[res |-> o.res, post |-> IF o.v = v THEN <<>> ELSE <<Brief(o.v)>>] :
                                          o \in Apply(v, ev)}] : ev \in {e \in AllCalls : Permitted(e) /\ (Bound \/ e.op = "remove")}}]))
=============================================================================
