------------------------------ MODULE Version ------------------------------
(* Conversion of documents between sources. A source is a record                   *)
(*   rootp, rootl : names of root parameters and root lists                        *)
(*   pdef  : parameter name -> [t, vt, dv]                                         *)
(*   lists : list name -> [P, subs, refs, enum, undef]                             *)
(*   rows  : table name -> row ids                                                 *)
(*   refs  : <<list, table>> -> [vt, dv]                                           *)
(*   src   : the document it defines (module Doc)                                  *)
(* pdef, lists and refs also describe members that are not in use.                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Functions, TLC

Dflt  == <<"d">>
Null  == <<"n">>
Undef == <<"u">>
Clash == <<"x">>      \* a value that has no place in the new source
NullOk(vt)  == vt \in {"q", "qu"}
UndefOk(vt) == vt \in {"u", "qu"}
QvOk(vt, v) == v[1] \in {"v", "d"} \/ (v[1] = "n" /\ NullOk(vt)) \/ (v[1] = "u" /\ UndefOk(vt))

EmptyList == [def |-> TRUE, next |-> 0, ids |-> <<>>]
UndefList == [def |-> FALSE, next |-> 0, ids |-> <<>>]
KindL(lp) == lp[Len(lp)]
KindI(ip) == ip[Len(ip) - 1]
OwnerL(ip) == SubSeq(ip, 1, Len(ip) - 1)

VtOf(S, l, t) == IF S.lists[l].enum THEN "q" ELSE S.refs[<<l, t>>].vt

---------------------------------------------------------------------------
\* The conversion

\* a list of the document has a place in the new source
RECURSIVE Kept(_, _, _)
Kept(O, N, lp) ==
  IF Len(lp) = 1 THEN lp[1] \in O.rootl /\ lp[1] \in N.rootl
  ELSE LET k == lp[Len(lp) - 2] IN /\ KindL(lp) \in O.lists[k].subs /\ KindL(lp) \in N.lists[k].subs
                                   /\ Kept(O, N, SubSeq(lp, 1, Len(lp) - 2))

\* a parameter: kept when it exists with the same type; new ones are undefined if they may be
ConvP(n, inOld, wasList, v, od, nd) ==
  IF inOld THEN IF v = Dflt \/ od.t = nd.t THEN v ELSE Clash
  ELSE IF wasList THEN Clash
  ELSE IF UndefOk(nd.vt) THEN Undef ELSE Dflt

ConvItem(O, N, k, it) ==
  [p |-> [n \in N.lists[k].P |->
            LET in == n \in O.lists[k].P
            IN ConvP(n, in, n \in O.lists[k].subs, IF in THEN it.p[n] ELSE Dflt, O.pdef[n], N.pdef[n])],
   r |-> [t \in N.lists[k].refs |->
            IF t \in O.lists[k].refs THEN it.r[t]
            ELSE IF UndefOk(VtOf(N, k, t)) THEN Undef ELSE Dflt]]

\* lists of the new source that the document brings nothing for: from the new source at the
\* root, empty within items, or undefined
NewList(O, N, lp) ==
  LET l == KindL(lp)
      known == IF Len(lp) = 1 THEN l \in O.rootp ELSE l \in O.lists[lp[Len(lp) - 2]].P
  IN IF N.lists[l].undef /\ ~known THEN UndefList
     ELSE IF Len(lp) = 1 THEN N.src.L[lp] ELSE EmptyList

Conv(O, N, d) ==
  LET keptL == {lp \in DOMAIN d.L : Kept(O, N, lp)}
      items == {ip \in DOMAIN d.I : OwnerL(ip) \in keptL}
      newRoot == {lp \in DOMAIN N.src.L : lp[1] \notin O.rootl /\ NewList(O, N, <<lp[1]>>).def}
      newI == {ip \in DOMAIN N.src.I : OwnerL(ip) \in newRoot}
      undefRoot == {<<l>> : l \in {x \in N.rootl \ O.rootl : ~NewList(O, N, <<x>>).def}}
      newSubs == UNION {{Append(ip, c) : c \in N.lists[KindI(ip)].subs} : ip \in items} \ keptL
  IN [p |-> [n \in N.rootp |->
               LET in == n \in O.rootp
               IN ConvP(n, in, n \in O.rootl, IF in THEN d.p[n] ELSE Dflt, O.pdef[n], N.pdef[n])],
      L |-> [lp \in keptL |-> d.L[lp]] @@ [lp \in newRoot |-> N.src.L[lp]]
            @@ [lp \in undefRoot \cup newSubs |-> NewList(O, N, lp)],
      I |-> [ip \in items |-> ConvItem(O, N, KindI(ip), d.I[ip])] @@ [ip \in newI |-> N.src.I[ip]]]

---------------------------------------------------------------------------
\* What a valid document of a source is

RefOk(S, l, t, v) == /\ QvOk(VtOf(S, l, t), v)
                     /\ v[1] = "v" => v[2] \in S.rows[t]
Active(S, k, it) == {t \in S.lists[k].refs : it.r[t][1] = "v"}
EnumOk(S, k, it) == S.lists[k].enum => /\ Cardinality(Active(S, k, it)) = 1
                                       /\ \A t \in S.lists[k].refs : it.r[t][1] \in {"v", "d"}
ListDefOk(S, d, lp) == d.L[lp].def \/ S.lists[KindL(lp)].undef
ItemOk(S, k, it) == /\ \A n \in S.lists[k].P : it.p[n] # Clash /\ QvOk(S.pdef[n].vt, it.p[n])
                    /\ \A t \in S.lists[k].refs : RefOk(S, k, t, it.r[t])
                    /\ EnumOk(S, k, it)
Valid(S, d) == /\ \A n \in S.rootp : d.p[n] # Clash /\ QvOk(S.pdef[n].vt, d.p[n])
               /\ \A lp \in DOMAIN d.L : ListDefOk(S, d, lp)
               /\ \A ip \in DOMAIN d.I : ItemOk(S, KindI(ip), d.I[ip])

\* the new source has a place for everything in the document (otherwise an error is in order)
Exact(O, N, d, c) ==
  LET kept == {KindI(ip) : ip \in {q \in DOMAIN d.I : Kept(O, N, OwnerL(q))}}
  IN /\ \A n \in N.rootp : c.p[n] # Clash
     /\ N.rootl \cap O.rootp = {}
     /\ \A ip \in DOMAIN c.I : \A n \in DOMAIN c.I[ip].p : c.I[ip].p[n] # Clash
     /\ \A k \in kept : /\ N.lists[k].subs \cap O.lists[k].P = {}
                        /\ N.lists[k].refs # {} /\ O.lists[k].refs # {} => O.lists[k].enum = N.lists[k].enum

\* how far each part of a converted document is determined:
\* <<"x">> no place for the value, <<"i", v>> not allowed by the new source
MarkP(vt, v) == IF v = Clash \/ QvOk(vt, v) THEN v ELSE <<"i", v>>
MarkR(S, k, t, v) == IF RefOk(S, k, t, v) THEN v ELSE <<"i", v>>
Marked(O, N, d) ==
  [p |-> [n \in N.rootp |-> MarkP(N.pdef[n].vt, d.p[n])],
   L |-> LET s == SetToSeq(DOMAIN d.L)
         IN [i \in 1..Len(s) |-> LET lp == s[i] IN
              <<lp, d.L[lp].def, d.L[lp].next, d.L[lp].ids,
                IF ~ListDefOk(N, d, lp) THEN "i"
                ELSE IF KindL(lp) \in (IF Len(lp) = 1 THEN O.rootp ELSE O.lists[lp[Len(lp) - 2]].P) THEN "x" ELSE "">>],
   I |-> LET s == SetToSeq(DOMAIN d.I)
         IN [i \in 1..Len(s) |-> LET k == KindI(s[i]) IN
              <<s[i], [n \in N.lists[k].P |-> MarkP(N.pdef[n].vt, d.I[s[i]].p[n])],
                [t \in N.lists[k].refs |-> MarkR(N, k, t, d.I[s[i]].r[t])],
                EnumOk(N, k, d.I[s[i]]) /\ \A t \in N.lists[k].refs : RefOk(N, k, t, d.I[s[i]].r[t])>>]]
=============================================================================
