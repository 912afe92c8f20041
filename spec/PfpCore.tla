------------------------------ MODULE PfpCore -------------------------------
(***************************************************************************)
(* Meaning of the storage contents and of every operation of the library   *)
(* (pfp/src/passwords.rs, pfp/src/storage.rs), as pure functions.          *)
(*                                                                         *)
(* Contents:  [sites, pws], two sets of records.                           *)
(*   site entry  [site, alias, bad, raw]      alias is <<>> or <<text>>    *)
(*   password    [type, site, name, rev, len, cs, value, notes, bad, raw]  *)
(*               type is "gen" (generated), "sto" (stored) or "bad";       *)
(*               len and cs (bits: 1 lower, 2 upper, 4 digit, 8 symbol)    *)
(*               belong to "gen", value to "sto".                          *)
(* An entry which is stored but cannot be read back has bad # "": the kind *)
(* of error reading it gives, and raw identifies its ciphertext.           *)
(***************************************************************************)
EXTENDS Text

Empty == [sites |-> {}, pws |-> {}]

SiteRec(s, a) == [site |-> s, alias |-> a, bad |-> "", raw |-> ""]

GenRec(s, n, r, l, c, notes) ==
  [type |-> "gen", site |-> s, name |-> n, rev |-> r, len |-> l, cs |-> c,
   value |-> <<>>, notes |-> notes, bad |-> "", raw |-> ""]

StoRec(s, n, r, v, notes) ==
  [type |-> "sto", site |-> s, name |-> n, rev |-> r, len |-> 0, cs |-> 0,
   value |-> v, notes |-> notes, bad |-> "", raw |-> ""]

Ok(v) == [ok |-> TRUE, v |-> v, e |-> ""]
Err(e) == [ok |-> FALSE, v |-> <<>>, e |-> e]

-----------------------------------------------------------------------------
(* Queries *)

AliasOf(st, s) ==       \* s is normalised; result <<>> or <<target>>
  LET E == {e \in st.sites : e.site = s /\ e.bad = "" /\ e.alias # <<>>}
  IN IF E = {} THEN <<>> ELSE (CHOOSE e \in E : TRUE).alias

Resolve(st, s) ==
  LET n == NormSite(s)
      a == AliasOf(st, n)
  IN IF a = <<>> THEN n ELSE a[1]

PwsFor(st, s, n, r) ==  \* at most one
  LET site == Resolve(st, s)
      rev == NormRev(r)
  IN {p \in st.pws : p.site = site /\ p.name = n /\ p.rev = rev}

Readable(p) == p.bad = ""

GetAlias(st, s) ==
  LET a == AliasOf(st, NormSite(s))
  IN IF a = <<>> THEN Err("NoSuchAlias") ELSE Ok(a[1])

Has(st, s, n, r) == Ok(PwsFor(st, s, n, r) # {})

(* the stored entry; the value of a generated password is derived from it *)
GetEntry(st, s, n, r) ==
  LET P == PwsFor(st, s, n, r)
  IN IF P = {} THEN Err("KeyMissing")
     ELSE LET p == CHOOSE p \in P : TRUE
          IN IF p.bad # "" THEN Err("Damaged") ELSE Ok(p)

GetNotes(st, s, n, r) ==
  LET e == GetEntry(st, s, n, r)
  IN IF e.ok THEN Ok(e.v.notes) ELSE e

(* Salt of the derivation, from the identifier *)
DeriveSalt(p) ==
  p.site \o <<0>> \o p.name \o (IF p.rev = <<>> THEN <<>> ELSE <<0>> \o p.rev)

(* Names matching a pattern; both readings where the dependency deviates *)
MatchSets(names, pat) ==
  {{n \in names : Wild(pat, n)}, {n \in names : WildImpl(pat, n)}}

ListPws(st, s, M) ==    \* M: set of matching names
  LET site == Resolve(st, s)
  IN {p \in st.pws : p.site = site /\ Readable(p) /\ p.name \in M}

NamesIn(st) == {p.name : p \in st.pws}
SiteNamesIn(st) ==
  {e.site : e \in st.sites} \cup UNION {Range(e.alias) : e \in st.sites}

ListSites(st, M) ==
  {e \in st.sites : e.bad = "" /\ (e.site \in M \/ (e.alias # <<>> /\ e.alias[1] \in M))}

-----------------------------------------------------------------------------
(* Modifications: [res, st] *)

Same(st, res) == [res |-> res, st |-> st]

PutSite(st, e) ==
  [st EXCEPT !.sites = {x \in @ : x.site # e.site} \cup {e}]

EnsureSite(st, s) ==
  IF \E e \in st.sites : e.site = s /\ e.bad = "" THEN st ELSE PutSite(st, SiteRec(s, <<>>))

SetAlias(st, s, target) ==
  LET n == NormSite(s)
      a == Resolve(st, target)
      has == \E p \in st.pws : p.site = n /\ Readable(p)
  IN IF has /\ n = a THEN Same(st, Err("AliasRefused"))      \* for either reason
     ELSE IF has THEN Same(st, Err("SiteHasPasswords"))
     ELSE IF n = a THEN Same(st, Err("AliasToSelf"))
     ELSE [res |-> Ok(0),
           st |-> [st EXCEPT !.sites =
                     {IF e.bad = "" /\ e.alias = <<n>> THEN SiteRec(e.site, <<a>>) ELSE e :
                         e \in {x \in @ : x.site # n}}
                     \cup {SiteRec(n, <<a>>)}]]

RemoveAlias(st, s) ==
  LET n == NormSite(s)
  IN IF AliasOf(st, n) = <<>> THEN Same(st, Err("NoSuchAlias"))
     ELSE [res |-> Ok(0), st |-> [st EXCEPT !.sites = {e \in @ : e.site # n}]]

RemoveSites(st, ss) ==  \* ss: sequence without repetitions
  IF \A s \in Range(ss) : \E e \in st.sites : e.site = s
  THEN [res |-> Ok(0), st |-> [st EXCEPT !.sites = {e \in @ : e.site \notin Range(ss)}]]
  ELSE Same(st, Err("KeyMissing"))

PutPw(st, p) ==
  LET st1 == EnsureSite(st, p.site)
  IN [res |-> Ok(0),
      st |-> [st1 EXCEPT !.pws =
                {q \in @ : ~(q.site = p.site /\ q.name = p.name /\ q.rev = p.rev)} \cup {p}]]

SetGenerated(st, s, n, r, l, c) ==
  PutPw(st, GenRec(Resolve(st, s), n, NormRev(r), l, c, <<>>))

SetStored(st, s, n, r, v) ==
  PutPw(st, StoRec(Resolve(st, s), n, NormRev(r), v, <<>>))

SetNotes(st, s, n, r, notes) ==
  LET e == GetEntry(st, s, n, r)
  IN IF ~e.ok THEN Same(st, e)
     ELSE [res |-> Ok(0),
           st |-> [st EXCEPT !.pws = (@ \ {e.v}) \cup {[e.v EXCEPT !.notes = notes]}]]

RemovePw(st, s, n, r) ==
  LET P == PwsFor(st, s, n, r)
  IN IF P = {} THEN Same(st, Err("KeyMissing"))
     ELSE [res |-> Ok(0), st |-> [st EXCEPT !.pws = @ \ P]]

-----------------------------------------------------------------------------
(* Invariants of contents written by these operations alone *)

UniqueEntries(st) ==
  /\ \A e, f \in st.sites : e.site = f.site => e = f
  /\ \A p, q \in st.pws :
        (p.site = q.site /\ p.name = q.name /\ p.rev = q.rev) => p = q

(* C04: aliases are resolved in one step *)
AliasesOneStep(st) ==
  \A e \in st.sites : e.bad = "" /\ e.alias # <<>> =>
     /\ e.alias[1] # e.site
     /\ AliasOf(st, e.alias[1]) = <<>>

(* C04: aliased sites own no passwords *)
NoCapture(st) ==
  \A p \in st.pws : Readable(p) => AliasOf(st, p.site) = <<>>

(* every password is reachable under its own site's name *)
Reachable(st) ==
  \A p \in st.pws : Readable(p) => Resolve(st, p.site) = p.site \/ IsPrefixOf(WwwDot, p.site)

(* C05 relies on this: every site with passwords has a site entry *)
SitesKnown(st) == \A p \in st.pws : \E e \in st.sites : e.site = p.site /\ e.alias = <<>>

WellFormed(st) ==
  UniqueEntries(st) /\ AliasesOneStep(st) /\ NoCapture(st) /\ SitesKnown(st)

(* C05/C02: site entries a listing may drop *)
Droppable(st) ==
  {e \in st.sites : e.alias = <<>> /\ e.bad = "" /\ ~\E p \in st.pws : p.site = e.site /\ Readable(p)}
=============================================================================
