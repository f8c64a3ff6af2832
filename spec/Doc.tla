-------------------------------- MODULE Doc --------------------------------
(* Documents of one source as values, and every edit as an operator on them.      *)
(*                                                                                *)
(* A document is a record                                                         *)
(*   p : root parameters, name -> value                                           *)
(*   L : lists, list path -> [def, next, ids]                                     *)
(*   I : list items, item path -> [p : parameters, r : references]                *)
(* A list path is <<list>> or <<list, id, inner, id, inner2, ...>> and ends with  *)
(* a list name; an item path is a list path followed by an id.                    *)
(* A value is <<"v", token>>, <<"n">> (null), <<"u">> (undefined) or <<"d">>      *)
(* (never written: the source's default is read).                                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Functions, TLC

CONSTANTS
  RootP,    \* set of root parameter names
  PDef,     \* parameter name -> [t : type, vt : "n" | "q" | "u" | "qu", dv : kind of its default value]
  ListDef,  \* list name -> [P : parameter names, subs : inner list names, refs : table names, enum : BOOLEAN]
  Rows,     \* table name -> set of row ids
  RefVt     \* <<list name, table name>> -> "n" | "q" | "u" | "qu"

Dflt  == <<"d">>
Null  == <<"n">>
Undef == <<"u">>

NullOk(vt)  == vt \in {"q", "qu"}
UndefOk(vt) == vt \in {"u", "qu"}
QvOk(vt, v) == \/ v[1] = "v"
               \/ v[1] = "n" /\ NullOk(vt)
               \/ v[1] = "u" /\ UndefOk(vt)

KindL(lp) == lp[Len(lp)]          \* list name of a list path
KindI(ip) == ip[Len(ip) - 1]      \* list name of an item path
OwnerL(ip) == SubSeq(ip, 1, Len(ip) - 1)
IdOf(ip)  == ip[Len(ip)]
PNames(ip) == IF Len(ip) = 0 THEN RootP ELSE ListDef[KindI(ip)].P

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a



EmptyList == [def |-> TRUE, next |-> 0, ids |-> <<>>]
UndefList == [def |-> FALSE, next |-> 0, ids |-> <<>>]
FreshItem(kind) == [p |-> [n \in ListDef[kind].P |-> Dflt], r |-> [t \in ListDef[kind].refs |-> Dflt]]

---------------------------------------------------------------------------
(* Parameters *)

WriteOk(ip, n, t, v) == /\ n \in PNames(ip)
                        /\ PDef[n].t = t
                        /\ QvOk(PDef[n].vt, v)

GetP(d, ip, n) == IF Len(ip) = 0 THEN d.p[n] ELSE d.I[ip].p[n]
SetP(d, ip, n, v) == IF Len(ip) = 0 THEN [d EXCEPT !.p[n] = v] ELSE [d EXCEPT !.I[ip].p[n] = v]

---------------------------------------------------------------------------
(* References and enums *)

RefOk(ip, t, v) == LET k == KindI(ip) IN
  /\ t \in ListDef[k].refs
  /\ IF v[1] = "v" THEN v[2] \in Rows[t] ELSE QvOk(RefVt[<<k, t>>], v)

SetR(d, ip, t, v) == [d EXCEPT !.I[ip].r[t] = v]
SetE(d, ip, t, v) == [d EXCEPT !.I[ip].r = [x \in DOMAIN d.I[ip].r |-> IF x = t THEN v ELSE Dflt]]
\* the variants of an enum item that are active
Active(d, ip) == {t \in ListDef[KindI(ip)].refs : d.I[ip].r[t][1] = "v"}

---------------------------------------------------------------------------
(* Lists *)

Has(l, id) == \E k \in 1..Len(l.ids) : l.ids[k] = id
Without(ids, id) == SelectSeq(ids, LAMBDA x : x # id)
PosOf(ids, id) == CHOOSE k \in 1..Len(ids) : ids[k] = id
PutAt(ids, k, id) == SubSeq(ids, 1, k - 1) \o <<id>> \o SubSeq(ids, k, Len(ids))

Define(d, lp) == IF d.L[lp].def THEN d ELSE [d EXCEPT !.L[lp] = EmptyList]

InsertItem(d, lp, first) ==
  LET l  == d.L[lp]
      ip == Append(lp, l.next)
      l2 == [l EXCEPT !.next = @ + 1, !.ids = IF first THEN <<l.next>> \o @ ELSE Append(@, l.next)]
      k  == KindL(lp)
  IN [d EXCEPT !.L = [d.L EXCEPT ![lp] = l2] @@ [q \in {Append(ip, c) : c \in ListDef[k].subs} |-> EmptyList],
               !.I = @ @@ (ip :> FreshItem(k))]

RemoveItem(d, lp, id) ==
  LET ip == Append(lp, id)
      d2 == [d EXCEPT !.L[lp].ids = Without(@, id)]
  IN [d2 EXCEPT !.L = Restrict(@, {q \in DOMAIN @ : ~IsPre(ip, q)}),
                !.I = Restrict(@, {q \in DOMAIN @ : ~IsPre(ip, q)})]

MovedFirst(ids, id) == <<id>> \o Without(ids, id)
MovedLast(ids, id)  == Append(Without(ids, id), id)
\* put id directly before / after other
MovedPrev(ids, other, id) == LET w == Without(ids, id) IN PutAt(w, PosOf(w, other), id)
MovedNext(ids, other, id) == LET w == Without(ids, id) IN PutAt(w, PosOf(w, other) + 1, id)

\* what every way of reading a list must show
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
OptId(s, k) == IF k \in 1..Len(s) THEN <<s[k]>> ELSE <<>>
Views(l, probe) ==
  [fwd   |-> l.ids,
   bwd   |-> Rev(l.ids),
   first |-> OptId(l.ids, 1),
   last  |-> OptId(l.ids, Len(l.ids)),
   len   |-> Len(l.ids),
   next  |-> l.next,
   probe |-> probe,
   has   |-> [k \in 1..Len(probe) |-> Has(l, probe[k])],
   from  |-> [k \in 1..Len(probe) |-> IF Has(l, probe[k]) THEN SubSeq(l.ids, PosOf(l.ids, probe[k]), Len(l.ids)) ELSE <<>>],
   upto  |-> [k \in 1..Len(probe) |-> IF Has(l, probe[k]) THEN Rev(SubSeq(l.ids, 1, PosOf(l.ids, probe[k]))) ELSE <<>>]]

---------------------------------------------------------------------------
(* Well-formedness: what every reachable document satisfies *)

NoDup(s) == Cardinality(ToSet(s)) = Len(s)
ListOk(l) == /\ NoDup(l.ids)
             /\ \A k \in 1..Len(l.ids) : l.ids[k] < l.next
             /\ ~l.def => l.ids = <<>>
ItemOk(d, ip) ==
  /\ OwnerL(ip) \in DOMAIN d.L /\ Has(d.L[OwnerL(ip)], IdOf(ip))
  /\ \A n \in DOMAIN d.I[ip].p : LET v == d.I[ip].p[n] IN v = Dflt \/ QvOk(PDef[n].vt, v)
  /\ ListDef[KindI(ip)].enum => Cardinality(Active(d, ip)) <= 1
  /\ \A t \in DOMAIN d.I[ip].r : LET v == d.I[ip].r[t] IN v[1] = "v" => v[2] \in Rows[t]
DocOk(d) ==
  /\ \A n \in RootP : d.p[n] = Dflt \/ QvOk(PDef[n].vt, d.p[n])
  /\ \A lp \in DOMAIN d.L : ListOk(d.L[lp])
  /\ \A ip \in DOMAIN d.I : ItemOk(d, ip)
  /\ \A lp \in DOMAIN d.L : \A k \in 1..Len(d.L[lp].ids) : Append(lp, d.L[lp].ids[k]) \in DOMAIN d.I
  /\ \A ip \in DOMAIN d.I : \A c \in ListDef[KindI(ip)].subs : Append(ip, c) \in DOMAIN d.L

---------------------------------------------------------------------------
(* A document as plain JSON data (functions over paths become sequences of pairs) *)
DocOut(d) ==
  [p |-> d.p,
   L |-> LET s == SetToSeq(DOMAIN d.L) IN [k \in 1..Len(s) |-> <<s[k], d.L[s[k]].def, d.L[s[k]].next, d.L[s[k]].ids>>],
   I |-> LET s == SetToSeq(DOMAIN d.I) IN [k \in 1..Len(s) |-> <<s[k], d.I[s[k]].p, d.I[s[k]].r>>]]
=============================================================================
