------------------------------- MODULE MCShare -------------------------------
(***************************************************************************)
(* Several instances on one storage file: every interleaving of their      *)
(* calls, in a small world.  With Sharing = "private", as implemented,     *)
(* each instance works on its own copy of the contents and saves all of    *)
(* it; with "careful" it goes on from what the file holds, or refuses if   *)
(* this is encrypted with another primary password.                        *)
(* As in MCVault all transitions can be emitted and replayed.              *)
(***************************************************************************)
EXTENDS Vault, Json

CONSTANTS Insts,         \* number of instances
          Values, PPs,
          Aliases,       \* aliases as well?
          Sharing,
          Emit

VARIABLES v, last, saved
vars == <<v, last, saved>>

NoArgs == [op |-> "none", i |-> 1, fault |-> FALSE, site |-> <<>>, name |-> <<>>, rev |-> <<>>,
           target |-> <<>>, value |-> <<>>, notes |-> <<>>, len |-> 0, cs |-> 0, pp |-> <<>>,
           sites |-> <<>>]

Call(op, i) == [NoArgs EXCEPT !.op = op, !.i = i]
Entry(op, i) == [Call(op, i) EXCEPT !.site = T("a"), !.name = T("x")]

Calls ==
  UNION {
    {Call("load", i), Call("drop", i), Call("lock", i)}
    \cup {[Call(op, i) EXCEPT !.pp = p] : op \in {"unlock", "reset"}, p \in PPs}
    \cup {[Entry("setStored", i) EXCEPT !.value = x] : x \in Values}
    \cup {Entry("remove", i), Entry("get", i), [Call("listSites", i) EXCEPT !.site = <<Star>>]}
    \cup (IF Aliases THEN {[Call("setAlias", i) EXCEPT !.site = T("b"), !.target = T("a")], [Call("removeAlias", i) EXCEPT !.site = T("b")],
                           [Call("removeSites", i) EXCEPT !.sites = <<T("b")>>]} ELSE {})
    : i \in 1..Insts}

Outcomes(ev) ==
  IF Sharing = "private" \/ ev.op \in {"load", "drop", "reset"} \/ ~Stale(v, ev.i) THEN Apply(v, ev)
  ELSE IF ev.op = "unlock" \/ v.inst[ev.i].mem.pp = v.disk.pp THEN Apply(Refresh(v, ev.i), ev)
  ELSE IF ev.op \in WriteOps THEN {Out(Err("AnyError"), v)}
  ELSE Apply(v, ev)

Init ==
  /\ LET d == StoreOf(CHOOSE p \in PPs : TRUE, Empty)
     IN v = [disk |-> d, inst |-> [i \in 1..Insts |-> Closed]] /\ saved = d
  /\ last = [ev |-> NoArgs, res |-> Ok(0)]

Step(op) ==
  \E ev \in {e \in Calls : e.op = op} :
    \E o \in Outcomes(ev) :
      /\ v' = o.v
      /\ last' = [ev |-> ev, res |-> o.res]
      /\ saved' = IF o.res.ok /\ ev.op \in WriteOps THEN o.v.inst[ev.i].mem ELSE saved

Loading == Step("load") \/ Step("drop")
Locking == Step("lock") \/ Step("unlock")
Resetting == Step("reset")
Changing == Step("setStored") \/ Step("remove") \/ Step("setAlias") \/ Step("removeAlias") \/ Step("removeSites")
Reading == Step("get") \/ Step("listSites")

Next == Loading \/ Locking \/ Resetting \/ Changing \/ Reading

Spec == Init /\ [][Next]_vars
View == <<v, saved>>

PPsOne == {T("primary1")}
PPsTwo == {T("primary1"), T("primary2")}
ValuesP == {T("p")}
ValuesPQ == {T("p"), T("q")}

-----------------------------------------------------------------------------
Inv == TypeOK(v) /\ ContentsOK(v)

(* the file is the complete result of the last save *)
Whole == v.disk = saved

(* what is started later sees what was reported *)
Seen == [][last'.ev.op = "load" => v'.inst[last'.ev.i].mem = saved]_vars

(* reading, locking and failing calls write nothing *)
OnlySaves == [][v'.disk # v.disk => last'.res.ok /\ last'.ev.op \in WriteOps]_vars

(* nobody else's instance is touched *)
Private == [][\A j \in 1..Insts : j # last'.ev.i => v'.inst[j] = v.inst[j]]_vars

(* no change is undone by another instance: a save goes on from what the   *)
(* file held (a reset is asked to empty it)                                *)
NoUndo == [][(last'.res.ok /\ last'.ev.op \in WriteOps \ {"reset"} /\ v' # v) =>
               \E o \in Apply(Refresh(v, last'.ev.i), last'.ev) : o.v.disk = v'.disk]_vars

EmitNode ==
  Emit =>
    PrintT("NODE " \o ToJson([state |-> v,
        calls |-> {[ev |-> ev, outs |-> {[res |-> o.res, post |-> IF o.v = v THEN <<>> ELSE <<o.v>>] :
                                          o \in Outcomes(ev)}] : ev \in Calls}]))
=============================================================================
