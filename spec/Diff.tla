-------------------------------- MODULE Diff --------------------------------
(* Differences of documents as edit scripts, and their application.               *)
(*                                                                                *)
(* A list difference is <<"same">>, <<"undef">>, or                               *)
(*   [next |-> id counter, ops |-> sequence of operations]                        *)
(* where an operation deletes an item, creates one behind another one, or         *)
(* modifies members of one. Operations are applied in order, exactly as a reader  *)
(* of a stored difference does it. There is no operation that moves an item or    *)
(* forgets a member, so such items are deleted and created again.                 *)
EXTENDS Doc

SameList  == [k |-> "same"]
GoneList  == [k |-> "undef"]

\* ids of both lists, in the order of the first
Common(a, b) == SelectSeq(a, LAMBDA x : \E k \in 1..Len(b) : b[k] = x)

\* members that were written in a but are back to "never written" in b
LostMember(a, b, ip) == \E t \in DOMAIN a.I[ip].r : a.I[ip].r[t] # Dflt /\ b.I[ip].r[t] = Dflt

\* a largest set of common items that kept their relative order
Kept(a, b, lp) ==
  LET c == SelectSeq(Common(a.L[lp].ids, b.L[lp].ids), LAMBDA x : ~LostMember(a, b, Append(lp, x)))
      InOrder(S) == SelectSeq(a.L[lp].ids, LAMBDA x : x \in S) = SelectSeq(b.L[lp].ids, LAMBDA x : x \in S)
      good == {S \in SUBSET ToSet(c) : InOrder(S)}
  IN CHOOSE S \in good : \A T \in good : Cardinality(T) <= Cardinality(S)

Changed(f, g) == {n \in DOMAIN g : g[n] # f[n]}
Written(g) == {n \in DOMAIN g : g[n] # Dflt}

RECURSIVE NewItem(_, _), NewList(_, _), ListDiff(_, _, _), ItemDiff(_, _, _)

NewItem(b, ip) ==
  [p |-> Restrict(b.I[ip].p, Written(b.I[ip].p)), r |-> Restrict(b.I[ip].r, Written(b.I[ip].r)),
   l |-> [c \in ListDef[KindI(ip)].subs |-> NewList(b, Append(ip, c))]]

NewList(b, lp) ==
  IF ~b.L[lp].def THEN GoneList
  ELSE LET ids == b.L[lp].ids
       IN [k |-> "ops", next |-> b.L[lp].next,
           ops |-> [j \in 1..Len(ids) |->
                     [o |-> "create", id |-> ids[j], prev |-> IF j = 1 THEN <<>> ELSE <<ids[j - 1]>>,
                      d |-> NewItem(b, Append(lp, ids[j]))]]]

ItemDiff(a, b, ip) ==
  [p |-> Restrict(b.I[ip].p, Changed(a.I[ip].p, b.I[ip].p)),
   r |-> Restrict(b.I[ip].r, Changed(a.I[ip].r, b.I[ip].r)),
   l |-> [c \in {x \in ListDef[KindI(ip)].subs : ListDiff(a, b, Append(ip, x)) # SameList} |-> ListDiff(a, b, Append(ip, c))]]

ListDiff(a, b, lp) ==
  CASE ~a.L[lp].def /\ ~b.L[lp].def -> SameList
    [] a.L[lp].def /\ ~b.L[lp].def  -> GoneList
    [] ~a.L[lp].def /\ b.L[lp].def  -> NewList(b, lp)
    [] OTHER ->
       LET ai == a.L[lp].ids
           bi == b.L[lp].ids
           kept == Kept(a, b, lp)
           One(x) == IF x \notin kept THEN <<[o |-> "delete", id |-> x]>>
                     ELSE LET m == ItemDiff(a, b, Append(lp, x))
                          IN IF DOMAIN m.p = {} /\ DOMAIN m.r = {} /\ DOMAIN m.l = {} THEN <<>>
                             ELSE <<[o |-> "modify", id |-> x, d |-> m]>>
           New(j) == IF bi[j] \in kept THEN <<>>
                     ELSE <<[o |-> "create", id |-> bi[j], prev |-> IF j = 1 THEN <<>> ELSE <<bi[j - 1]>>,
                             d |-> NewItem(b, Append(lp, bi[j]))]>>
           ops == FoldLeft(LAMBDA acc, x : acc \o One(x), <<>>, ai)
                  \o FoldLeft(LAMBDA acc, j : acc \o New(j), <<>>, [j \in 1..Len(bi) |-> j])
       IN IF ops = <<>> /\ a.L[lp].next = b.L[lp].next THEN SameList
          ELSE [k |-> "ops", next |-> b.L[lp].next, ops |-> ops]

RootLists(d) == {lp \in DOMAIN d.L : Len(lp) = 1}
DocDiff(a, b) ==
  [p |-> Restrict(b.p, Changed(a.p, b.p)),
   l |-> [lp \in {x \in RootLists(b) : ListDiff(a, b, x) # SameList} |-> ListDiff(a, b, lp)]]

---------------------------------------------------------------------------
RECURSIVE ApplyList(_, _, _), ApplyItem(_, _, _)

Drop(d, ip) == [d EXCEPT !.L = Restrict(@, {q \in DOMAIN @ : ~IsPre(ip, q)}),
                         !.I = Restrict(@, {q \in DOMAIN @ : ~IsPre(ip, q)})]

ApplyItem(d, ip, x) ==
  LET d1 == [d EXCEPT !.I[ip].p = x.p @@ @, !.I[ip].r = x.r @@ @]
  IN FoldLeft(LAMBDA acc, c : ApplyList(acc, Append(ip, c), x.l[c]), d1, SetToSeq(DOMAIN x.l))

ApplyOp(d, lp, op) ==
  LET ip == Append(lp, op.id)
      ids == d.L[lp].ids
  IN CASE op.o = "delete" -> Drop([d EXCEPT !.L[lp].ids = Without(ids, op.id)], ip)
       [] op.o = "modify" -> ApplyItem(d, ip, op.d)
       [] op.o = "create" ->
            LET k == KindL(lp)
                at == IF op.prev = <<>> THEN 1 ELSE PosOf(ids, op.prev[1]) + 1
                d1 == [d EXCEPT !.L = [d.L EXCEPT ![lp].ids = PutAt(ids, at, op.id)]
                                       @@ [q \in {Append(ip, c) : c \in ListDef[k].subs} |-> EmptyList],
                                 !.I = @ @@ (ip :> FreshItem(k))]
            IN ApplyItem(d1, ip, op.d)

ApplyList(d, lp, x) ==
  CASE x.k = "same"  -> d
    [] x.k = "undef" -> [Drop(d, lp) EXCEPT !.L = @ @@ (lp :> UndefList)]
    [] OTHER -> FoldLeft(LAMBDA acc, op : ApplyOp(acc, lp, op),
                         [d EXCEPT !.L[lp].def = TRUE, !.L[lp].next = x.next], x.ops)

ApplyDoc(d, x) ==
  FoldLeft(LAMBDA acc, lp : ApplyList(acc, lp, x.l[lp]), [d EXCEPT !.p = x.p @@ @], SetToSeq(DOMAIN x.l))

Exact(a, b) == ApplyDoc(a, DocDiff(a, b)) = b
IsEmpty(x) == DOMAIN x.p = {} /\ DOMAIN x.l = {}
=============================================================================
