----------------------------- MODULE VersionMC -----------------------------
(* A base source is changed K0 times (the old source), its document edited KE times, *)
(* the source changed KN more times (the new source), and the converted document      *)
(* edited KA times. When more stages are asked for, the document is then converted to *)
(* a source changed KN more times, and so on.                                         *)
EXTENDS Version, DocCfg

CONSTANTS K0, KE, KN, KA, Vals, Pick(_),
          Kinds(_)    \* which kinds of changes to try: all, or some at random
Some(S) == {RandomElement(S), RandomElement(S), RandomElement(S), RandomElement(S), RandomElement(S)}
VARIABLES old, new, doc, edits, k, phase, cdoc, after, past
vars == <<old, new, doc, edits, k, phase, cdoc, after, past>>
\* state-dependent, so that TLC does not evaluate the choice once and for all
PickRnd(S) == IF S = {} THEN {} ELSE {RandomElement({x \in S : k >= 0})}

D(S) == INSTANCE Doc WITH RootP <- S.rootp, PDef <- S.pdef, ListDef <- S.lists, Rows <- S.rows,
                          RefVt <- [x \in DOMAIN S.refs |-> S.refs[x].vt]

Types == ToSet(Cfg.types)
Vts == ToSet(Cfg.vts)
RootNames == ToSet(Cfg.rootnames)      \* may be parameters or lists
ListNames == DOMAIN Cfg.lists
TopLists == ToSet(Cfg.toplists)        \* names that may be root lists
ItemNames == [l \in ListNames |-> ToSet(Cfg.itemnames[l])]
SubNames == [l \in ListNames |-> ToSet(Cfg.subnames[l])]
Tables == DOMAIN McRows
AllRows == ToSet(Cfg.allrows)
DvOk(vt, dv) == dv = "v" \/ (dv = "n" /\ NullOk(vt)) \/ (dv = "u" /\ UndefOk(vt))

RefVt0(l, t) == IF <<l, t>> \in DOMAIN McRefVt THEN McRefVt[<<l, t>>] ELSE "q"
Base == [rootp |-> McRootP, rootl |-> ToSet(Cfg.rootl), pdef |-> McPDef,
         lists |-> [l \in ListNames |-> [P |-> McListDef[l].P, subs |-> McListDef[l].subs, refs |-> McListDef[l].refs,
                                         enum |-> McListDef[l].enum, undef |-> Cfg.lists[l].undef, old |-> {}, rold |-> {}]],
         oldroot |-> {}, oldrows |-> [t \in DOMAIN McRows |-> {}],
         rows |-> McRows,
         refs |-> [x \in ListNames \X Tables |-> [vt |-> RefVt0(x[1], x[2]), dv |-> IF NullOk(RefVt0(x[1], x[2])) THEN Null ELSE <<"v", CHOOSE r \in McRows[x[2]] : TRUE>>]],
         src |-> McSrc]

\* the source document after a change of the source
SrcP(S, T, n, in, v) == IF in /\ S.pdef[n].t = T.pdef[n].t /\ QvOk(T.pdef[n].vt, v) THEN v ELSE Dflt
\* members and rows out of use that are there, and the source document without them
UseOnly(S) ==
  LET T == [S EXCEPT !.oldroot = @ \cap (S.rootp \cup S.rootl), !.oldrows = [t \in DOMAIN @ |-> @[t] \cap S.rows[t]],
                     !.lists = [l \in DOMAIN @ |-> [@[l] EXCEPT !.old = @ \cap (S.lists[l].P \cup S.lists[l].subs), !.rold = @ \cap S.lists[l].refs]]]
      out == {lp \in DOMAIN S.src.L : \E i \in {x \in 3..Len(lp) : x % 2 = 1} : lp[i] \in T.lists[lp[i - 2]].old}
  IN [T EXCEPT !.src =
       [@ EXCEPT !.L = [lp \in {q \in DOMAIN @ : Len(q) = 1 \/ SubSeq(q, 1, Len(q) - 2) \notin out} |-> IF lp \in out THEN EmptyList ELSE @[lp]],
                 !.I = [ip \in {q \in DOMAIN @ : OwnerL(q) \notin out} |-> LET l == KindI(ip) IN
                          [p |-> [n \in DOMAIN @[ip].p |-> IF n \in T.lists[l].old THEN Dflt ELSE @[ip].p[n]],
                           r |-> [t \in DOMAIN @[ip].r |-> IF t \in T.lists[l].rold \/ (@[ip].r[t][1] = "v" /\ @[ip].r[t][2] \in T.oldrows[t])
                                                           THEN Dflt ELSE @[ip].r[t]]]]]]
Fit0(S, T) ==
  LET d == S.src
      kept == {lp \in DOMAIN d.L : Kept(S, T, lp)}
      items == {ip \in DOMAIN d.I : OwnerL(ip) \in kept}
      subs == UNION {{Append(ip, c) : c \in T.lists[KindI(ip)].subs} : ip \in items} \cup {<<l>> : l \in T.rootl}
  IN [T EXCEPT !.src =
       [p |-> [n \in T.rootp |-> Dflt],
        L |-> [lp \in kept |-> IF d.L[lp].def \/ T.lists[KindL(lp)].undef THEN d.L[lp] ELSE EmptyList] @@ [lp \in subs \ kept |-> EmptyList],
        I |-> [ip \in items |-> LET l == KindI(ip) IN
                 [p |-> [n \in T.lists[l].P |-> LET in == n \in S.lists[l].P IN SrcP(S, T, n, in, IF in THEN d.I[ip].p[n] ELSE Dflt)],
                  r |-> [t \in T.lists[l].refs |-> IF t \in S.lists[l].refs /\ RefOk(T, l, t, d.I[ip].r[t]) THEN d.I[ip].r[t] ELSE Dflt]]]]]
Fit(S, T) == UseOnly(Fit0(S, T))
Toggle(S, x) == IF x \in S THEN S \ {x} ELSE S \cup {x}
NoOldRow(S, t, v) == v[1] = "v" => v[2] \notin S.oldrows[t]
SourceOk(S) == /\ Valid(S, S.src)
               /\ UseOnly(S) = S
               /\ \A l \in ListNames : \A t \in S.lists[l].refs : ~S.lists[l].enum => NoOldRow(S, t, S.refs[<<l, t>>].dv)
               /\ \A l \in ListNames : \A t \in S.lists[l].refs : ~S.lists[l].enum => RefOk(S, l, t, S.refs[<<l, t>>].dv)

ChangeOf(S, A(_), ks) ==
  \/ 1 \in ks /\ \E n \in Pick(S.rootp) : A(Fit(S, [S EXCEPT !.rootp = @ \ {n}]))
  \/ 2 \in ks /\ \E n \in Pick(RootNames \ (S.rootp \cup S.rootl)) : \E t \in Pick(Types) : \E vt \in Pick(Vts) : \E dv \in Pick({x \in {"v", "n", "u"} : DvOk(vt, x)}) :
       A(Fit(S, [S EXCEPT !.rootp = @ \cup {n}, !.pdef[n] = [t |-> t, vt |-> vt, dv |-> dv]]))
  \/ 3 \in ks /\ \E n \in Pick(S.rootp) : \E t \in Pick(Types) : \E vt \in Pick(Vts) : \E dv \in Pick({x \in {"v", "n", "u"} : DvOk(vt, x)}) :
       A(Fit(S, [S EXCEPT !.pdef[n] = [t |-> t, vt |-> vt, dv |-> dv]]))
  \/ 4 \in ks /\ \E n \in Pick(S.rootp) : \E vt \in Pick(Vts) : \E dv \in Pick({x \in {"v", "n", "u"} : DvOk(vt, x)}) :
       A(Fit(S, [S EXCEPT !.pdef[n] = [t |-> @.t, vt |-> vt, dv |-> dv]]))
  \/ \E l \in Pick(ListNames) :
       \/ 5 \in ks /\ \E n \in Pick(S.lists[l].P) : A(Fit(S, [S EXCEPT !.lists[l].P = @ \ {n}]))
       \/ 6 \in ks /\ \E n \in Pick(ItemNames[l] \ (S.lists[l].P \cup S.lists[l].subs)) : \E t \in Pick(Types) : \E vt \in Pick(Vts) : \E dv \in Pick({x \in {"v", "n", "u"} : DvOk(vt, x)}) :
            A(Fit(S, [S EXCEPT !.lists[l].P = @ \cup {n}, !.pdef[n] = [t |-> t, vt |-> vt, dv |-> dv]]))
       \/ 7 \in ks /\ \E n \in Pick(S.lists[l].P) : \E vt \in Pick(Vts) : \E dv \in Pick({x \in {"v", "n", "u"} : DvOk(vt, x)}) :
            A(Fit(S, [S EXCEPT !.pdef[n] = [t |-> @.t, vt |-> vt, dv |-> dv]]))
       \/ 8 \in ks /\ \E n \in Pick(S.lists[l].P) : \E t \in Pick(Types) :
            A(Fit(S, [S EXCEPT !.pdef[n] = [t |-> t, vt |-> @.vt, dv |-> @.dv]]))
       \/ 9 \in ks /\ \E c \in Pick(S.lists[l].subs) : A(Fit(S, [S EXCEPT !.lists[l].subs = @ \ {c}]))
       \/ 10 \in ks /\ \E c \in Pick(SubNames[l] \ (S.lists[l].subs \cup S.lists[l].P)) : A(Fit(S, [S EXCEPT !.lists[l].subs = @ \cup {c}]))
       \/ 11 \in ks /\ A(Fit(S, [S EXCEPT !.lists[l].undef = ~@]))
       \/ 12 \in ks /\ \E t \in Pick(S.lists[l].refs) : A(Fit(S, [S EXCEPT !.lists[l].refs = @ \ {t}]))
       \/ 13 \in ks /\ \E t \in Pick(Tables \ S.lists[l].refs) : \E vt \in Pick(Vts) : \E dv \in Pick({v \in {Null, Undef} : QvOk(vt, v)} \cup {<<"v", r>> : r \in S.rows[t]}) :
            A(Fit(S, [S EXCEPT !.lists[l].refs = @ \cup {t}, !.refs[<<l, t>>] = [vt |-> vt, dv |-> dv]]))
       \/ 14 \in ks /\ \E t \in Pick(S.lists[l].refs) : \E vt \in Pick(Vts) : \E dv \in Pick({v \in {Null, Undef} : QvOk(vt, v)} \cup {<<"v", r>> : r \in S.rows[t]}) :
            A(Fit(S, [S EXCEPT !.refs[<<l, t>>] = [vt |-> vt, dv |-> dv]]))
       \/ 15 \in ks /\ S.lists[l].refs # {} /\ A(Fit(S, [S EXCEPT !.lists[l].enum = ~@]))
  \/ 16 \in ks /\ \E l \in Pick(S.rootl) : A(Fit(S, [S EXCEPT !.rootl = @ \ {l}]))
  \/ 17 \in ks /\ \E l \in Pick(TopLists \ (S.rootp \cup S.rootl)) : A(Fit(S, [S EXCEPT !.rootl = @ \cup {l}]))
  \/ 18 \in ks /\ \E t \in Pick(Tables) : \E r \in Pick(S.rows[t]) : Cardinality(S.rows[t]) > 1 /\ A(Fit(S, [S EXCEPT !.rows[t] = @ \ {r}]))
  \/ 19 \in ks /\ \E t \in Pick(Tables) : \E r \in Pick(AllRows) : A(Fit(S, [S EXCEPT !.rows[t] = @ \cup {r}]))
  \/ 20 \in ks /\ \E lp \in Pick({q \in DOMAIN S.src.L : S.src.L[q].def /\ S.src.L[q].ids # <<>>}) :
       \E id \in Pick(ToSet(S.src.L[lp].ids)) : A([S EXCEPT !.src = D(S)!RemoveItem(@, lp, id)])
  \/ 21 \in ks /\ \E lp \in Pick({q \in DOMAIN S.src.L : S.src.L[q].def /\ ~S.lists[KindL(q)].enum}) : \E i \in Pick({0, 2}) :
       S.src.L[lp].ids = <<>> /\ A([S EXCEPT !.src = D(S)!InsertItem([@ EXCEPT !.L[lp].next = @ + i], lp, FALSE)])
  \/ \E l \in Pick(ListNames) :
       \/ 22 \in ks /\ \E n \in Pick(S.lists[l].P \cup S.lists[l].subs) : A(Fit(S, [S EXCEPT !.lists[l].old = Toggle(@, n)]))
       \/ 23 \in ks /\ \E t \in Pick(S.lists[l].refs) : A(Fit(S, [S EXCEPT !.lists[l].rold = Toggle(@, t)]))
  \/ 24 \in ks /\ \E t \in Pick(Tables) : \E r \in Pick(S.rows[t]) : A(Fit(S, [S EXCEPT !.oldrows[t] = Toggle(@, r)]))
  \/ 25 \in ks /\ \E n \in Pick(S.rootp \cup S.rootl) : A(Fit(S, [S EXCEPT !.oldroot = Toggle(@, n)]))
Change(S, A(_)) == \E ks \in {Kinds({x \in 1..25 : k >= 0})} : ChangeOf(S, A, ks)

---------------------------------------------------------------------------
\* edits of a document d of source S; A(document, record)
GoodVals(S, n) == {<<"v", x>> : x \in Vals} \cup {v \in {Null, Undef} : QvOk(S.pdef[n].vt, v)}
Edit(S, d, A(_, _)) ==
  \/ \E ip \in Pick({<<>>} \cup DOMAIN d.I) : \E n \in Pick(D(S)!PNames(ip)) : \E v \in Pick(GoodVals(S, n)) :
       A(D(S)!SetP(d, ip, n, v), [op |-> "set", path |-> ip, name |-> n, t |-> S.pdef[n].t, v |-> v, how |-> "set"])
  \/ \E lp \in Pick({q \in DOMAIN d.L : d.L[q].def /\ d.L[q].next < 6}) : \E what \in Pick({"insert_last", "insert_first"}) :
       A(D(S)!InsertItem(d, lp, what = "insert_first"), [op |-> "list", path |-> lp, what |-> what, id |-> 0, other |-> 0])
  \/ \E lp \in Pick({q \in DOMAIN d.L : d.L[q].def}) : \E id \in Pick(ToSet(d.L[lp].ids)) :
       \/ A(D(S)!RemoveItem(d, lp, id), [op |-> "list", path |-> lp, what |-> "remove", id |-> id, other |-> 0])
       \/ A([d EXCEPT !.L[lp].ids = D(S)!MovedLast(@, id)], [op |-> "list", path |-> lp, what |-> "move_last", id |-> id, other |-> 0])
  \/ \E lp \in Pick({q \in DOMAIN d.L : ~d.L[q].def}) :
       A(D(S)!Define(d, lp), [op |-> "list", path |-> lp, what |-> "define", id |-> 0, other |-> 0])
  \/ \E ip \in Pick({q \in DOMAIN d.I : S.lists[KindI(q)].refs # {}}) : \E t \in Pick(S.lists[KindI(ip)].refs) :
     IF S.lists[KindI(ip)].enum
     THEN \E r \in Pick(S.rows[t]) : A(D(S)!SetE(d, ip, t, <<"v", r>>), [op |-> "ref", what |-> "set_enum", path |-> ip, name |-> t, row |-> r])
     ELSE \E v \in Pick({<<"v", r>> : r \in S.rows[t]} \cup {x \in {Null, Undef} : QvOk(VtOf(S, KindI(ip), t), x)}) :
            A(D(S)!SetR(d, ip, t, v), [op |-> "ref", what |-> "set", path |-> ip, name |-> t, v |-> v])
PutDoc(d, rec) == doc' = d /\ edits' = Append(edits, rec @@ [slot |-> "a"])
PutConv(d, rec) == cdoc' = d /\ after' = Append(after, rec @@ [slot |-> "x"])

---------------------------------------------------------------------------
Seq0(X) == SetToSeq(X)
Out(S) == [rootp |-> Seq0(S.rootp), rootl |-> Seq0(S.rootl), pdef |-> S.pdef,
           lists |-> [l \in DOMAIN S.lists |-> [P |-> Seq0(S.lists[l].P), subs |-> Seq0(S.lists[l].subs), refs |-> Seq0(S.lists[l].refs),
                                                enum |-> S.lists[l].enum, undef |-> S.lists[l].undef,
                                                old |-> Seq0(S.lists[l].old), rold |-> Seq0(S.lists[l].rold)]],
           oldroot |-> Seq0(S.oldroot), oldrows |-> [t \in DOMAIN S.oldrows |-> Seq0(S.oldrows[t])],
           rows |-> [t \in DOMAIN S.rows |-> Seq0(S.rows[t])],
           refs |-> LET s == Seq0(DOMAIN S.refs) IN [i \in DOMAIN s |-> <<s[i][1], s[i][2], VtOf(S, s[i][1], s[i][2]), S.refs[s[i]].dv>>],
           src |-> D(S)!DocOut(S.src)]

\* values of the new source's own items are tokens of their own
Retok(S) == [S EXCEPT !.src.I = [ip \in DOMAIN @ |-> [@[ip] EXCEPT !.p = [n \in DOMAIN @ |->
               IF @[n][1] = "v" THEN <<"v", @[n][2] + 100>> ELSE @[n]]]]]

Init == old = Base /\ new = Base /\ doc = Base.src /\ edits = <<>> /\ k = 0 /\ phase = "old" /\ cdoc = <<>> /\ after = <<>> /\ past = <<>>
ToOld(S) == SourceOk(S) /\ old' = S
ToNew(S) == SourceOk(S) /\ new' = S
Good(c) == Valid(new, c) /\ Exact(old, new, doc, c)
Before ==
  \/ phase = "old" /\ k < K0 /\ Change(old, ToOld) /\ k' = k + 1 /\ UNCHANGED <<new, doc, edits, phase>>
  \/ phase = "old" /\ (Cfg.fewer \/ k = K0) /\ phase' = "edit" /\ k' = 0 /\ doc' = old.src /\ UNCHANGED <<old, new, edits>>
  \/ phase = "edit" /\ k < KE /\ Edit(old, doc, PutDoc) /\ k' = k + 1 /\ UNCHANGED <<old, new, phase>>
  \/ phase = "edit" /\ (Cfg.fewer \/ k = KE) /\ phase' = "new" /\ k' = 0 /\ new' = Retok(old) /\ UNCHANGED <<old, doc, edits>>
  \/ phase = "new" /\ k < KN /\ Change(new, ToNew) /\ k' = k + 1 /\ UNCHANGED <<old, doc, edits, phase>>
Stage(c) == [old |-> Out(old), new |-> Out(new), edits |-> edits, doc |-> D(old)!DocOut(doc),
             conv |-> Marked(old, new, c), valid |-> Valid(new, c), exact |-> Exact(old, new, doc, c)]
Next ==
  \/ Before /\ UNCHANGED <<cdoc, after, past>>
  \/ phase = "new" /\ (Cfg.fewer \/ k = KN) /\ phase' = "conv" /\ k' = 0 /\ cdoc' = Conv(old, new, doc) /\ UNCHANGED <<old, new, doc, edits, after, past>>
  \/ phase = "conv" /\ k < KA /\ Good(Conv(old, new, doc)) /\ Edit(new, cdoc, PutConv) /\ k' = k + 1 /\ UNCHANGED <<old, new, doc, edits, phase, past>>
  \/ phase = "conv" /\ LET c == Conv(old, new, doc) IN
       \/ /\ Len(past) + 1 < Cfg.stages /\ k = KA /\ Good(c)
          /\ phase' = "new" /\ k' = 0 /\ old' = new /\ doc' = cdoc /\ edits' = after /\ after' = <<>> /\ cdoc' = <<>>
          /\ new' = Retok(new) /\ past' = Append(past, Stage(c))
       \/ /\ phase' = "done" /\ UNCHANGED <<old, new, doc, edits, k, cdoc, after, past>>
          /\ Cfg.fewer \/ ~Good(c) \/ (k = KA /\ Len(past) + 1 = Cfg.stages)
          /\ PrintT("TRACE " \o ToJson([stages |-> Append(past, Stage(c)), after |-> after, cdoc |-> IF after = <<>> THEN <<>> ELSE <<D(new)!DocOut(cdoc)>>]))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* laws of the conversion
Struct(S, d) == /\ DOMAIN d.p = S.rootp
                /\ {lp[1] : lp \in {q \in DOMAIN d.L : Len(q) = 1}} = S.rootl
                /\ \A ip \in DOMAIN d.I : /\ DOMAIN d.I[ip].p = S.lists[KindI(ip)].P /\ DOMAIN d.I[ip].r = S.lists[KindI(ip)].refs
                                          /\ \A c \in S.lists[KindI(ip)].subs : Append(ip, c) \in DOMAIN d.L
                /\ \A lp \in DOMAIN d.L : ToSet(d.L[lp].ids) = {ip[Len(ip)] : ip \in {q \in DOMAIN d.I : OwnerL(q) = lp}}
Done == phase = "new"
FitsNew == Done => Struct(new, Conv(old, new, doc))
Identity == Done => Conv(old, old, doc) = doc
Idempotent == Done => LET c == Conv(old, new, doc) IN Conv(new, new, c) = c
KeepsValid == (Done /\ new = Retok(old)) => (Valid(old, doc) <=> Valid(new, Conv(old, new, doc)))
=============================================================================
