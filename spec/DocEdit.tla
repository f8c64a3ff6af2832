------------------------------ MODULE DocEdit ------------------------------
(* Behaviours of a program that edits documents: several copies of one document   *)
(* (slots), each edited through any accessor. Every step appends one record to    *)
(* `log`: the call, the result it must give and the document it must leave.       *)
EXTENDS Doc, Json

CONSTANTS
  Src,       \* the document as the source defines it
  Slots,     \* names of copies
  Toks,      \* value tokens to write
  MaxItems,  \* no insertion into a list of this length
  MaxId,     \* no insertion once a list has given this many ids
  Depth,     \* number of steps of a behaviour
  Feat,      \* enabled groups of actions
  Pick(_)    \* S itself (exhaustive) or one random element of S (simulation)

VARIABLES docs,  \* slot -> <<>> (none) or <<document>>
          log, done
vars == <<docs, log, done>>

Live == {c \in Slots : docs[c] # <<>>}
D(c) == docs[c][1]
Types == {"bool", "int", "float", "str", "ia", "fa", "bin"}
ByRef == {"str", "ia", "fa", "bin"}

\* the token of a type's initial value (0, "", zero-filled array)
InitTok == 0

Put(c, d, rec) == /\ docs' = [docs EXCEPT ![c] = <<d>>]
                  /\ log' = Append(log, rec @@ [slot |-> c, doc |-> DocOut(d)])
                  /\ UNCHANGED done
Same(c, rec) == /\ log' = Append(log, rec @@ [slot |-> c])
                /\ UNCHANGED <<docs, done>>

More == ~done /\ Len(log) < Depth

Paths(d) == {<<>>} \cup DOMAIN d.I
LPaths(d) == {lp \in DOMAIN d.L : d.L[lp].def}

GoodVals(n) == {<<"v", k>> : k \in Toks}
               \cup (IF NullOk(PDef[n].vt) THEN {Null} ELSE {})
               \cup (IF UndefOk(PDef[n].vt) THEN {Undef} ELSE {})

\* D01, D06: an allowed write takes effect on exactly that parameter
SetGood == /\ More /\ "set" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(Paths(D(c))) : \E n \in Pick(PNames(ip)) :
     \E v \in Pick(GoodVals(n)) : \E how \in Pick({"set", "sabun", "pmut"}) :
       Put(c, SetP(D(c), ip, n, v),
           [op |-> "set", path |-> ip, name |-> n, t |-> PDef[n].t, v |-> v, how |-> how, res |-> TRUE])

\* in-place mutation of strings and arrays through a mutable reference
SetInPlace == /\ More /\ "mut" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(Paths(D(c))) :
     \E n \in Pick({x \in PNames(ip) : PDef[x].t \in ByRef /\ (GetP(D(c), ip, x)[1] = "v" \/ (GetP(D(c), ip, x) = Dflt /\ PDef[x].dv = "v"))}) :
     \E k \in Pick(Toks) :
       Put(c, SetP(D(c), ip, n, <<"v", k>>),
           [op |-> "set", path |-> ip, name |-> n, t |-> PDef[n].t, v |-> <<"v", k>>, how |-> "mut", res |-> TRUE])

SetInit == /\ More /\ "mut" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(Paths(D(c))) : \E n \in Pick(PNames(ip)) :
       Put(c, SetP(D(c), ip, n, <<"v", InitTok>>),
           [op |-> "set", path |-> ip, name |-> n, t |-> PDef[n].t, v |-> <<"v", InitTok>>, how |-> "init", res |-> TRUE])

\* D06: everything else is refused and changes nothing
IllNames(ip) == (DOMAIN PDef \cup {"nosuch"} \cup DOMAIN ListDef)
SetIll == /\ More /\ "ill" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(Paths(D(c))) : \E n \in Pick(IllNames(ip)) :
     \E t \in Pick(Types) : \E v \in Pick({<<"v", 1>>, Null, Undef}) : \E how \in Pick({"set", "sabun"}) :
       /\ ~WriteOk(ip, n, t, v)
       /\ Same(c, [op |-> "set", path |-> ip, name |-> n, t |-> t, v |-> v, how |-> how, res |-> FALSE])

---------------------------------------------------------------------------
Probe(l) == [k \in 1..(l.next + 1) |-> k - 1]
ListRec(d2, lp, what, id, other, res) ==
  [op |-> "list", path |-> lp, what |-> what, id |-> id, other |-> other, res |-> res,
   views |-> Views(d2.L[lp], Probe(d2.L[lp]))]

InsertStep == /\ More /\ "list" \in Feat
  /\ \E c \in Pick(Live) :
     \E lp \in Pick({q \in LPaths(D(c)) : Len(D(c).L[q].ids) < MaxItems /\ D(c).L[q].next < MaxId}) :
     \E what \in Pick({"insert", "insert_last", "insert_first"}) :
       LET d2 == InsertItem(D(c), lp, what = "insert_first")
       IN Put(c, d2, ListRec(d2, lp, what, D(c).L[lp].next, 0, TRUE))

RemoveStep == /\ More /\ "list" \in Feat
  /\ \E c \in Pick(Live) : \E lp \in Pick(LPaths(D(c))) :
     \E what \in Pick({"remove", "remove_first", "remove_last"}) :
     \E id \in Pick(IF what = "remove" THEN 0..D(c).L[lp].next ELSE {0}) :
       LET l == D(c).L[lp]
           n == Len(l.ids)
           victim == CASE what = "remove"       -> IF Has(l, id) THEN <<id>> ELSE <<>>
                       [] what = "remove_first" -> OptId(l.ids, 1)
                       [] what = "remove_last"  -> OptId(l.ids, n)
       IN IF victim = <<>>
          THEN Same(c, ListRec(D(c), lp, what, id, 0, FALSE))
          ELSE LET d2 == RemoveItem(D(c), lp, victim[1]) IN Put(c, d2, ListRec(d2, lp, what, id, 0, TRUE))

MoveStep == /\ More /\ "list" \in Feat
  /\ \E c \in Pick(Live) : \E lp \in Pick(LPaths(D(c))) :
     \E what \in Pick({"move_first", "move_last", "move_prev", "move_next"}) :
     \E id \in Pick(0..D(c).L[lp].next) :
     \E other \in Pick(IF what \in {"move_prev", "move_next"} THEN 0..D(c).L[lp].next ELSE {0}) :
       LET l == D(c).L[lp]
           ok == /\ Has(l, id)
                 /\ what \in {"move_prev", "move_next"} => Has(l, other) /\ other # id
       IN IF ~ok
          THEN Same(c, ListRec(D(c), lp, what, id, other, FALSE))
          ELSE LET ids2 == CASE what = "move_first" -> MovedFirst(l.ids, id)
                             [] what = "move_last"  -> MovedLast(l.ids, id)
                             [] what = "move_prev"  -> MovedPrev(l.ids, other, id)
                             [] what = "move_next"  -> MovedNext(l.ids, other, id)
                   d2 == [D(c) EXCEPT !.L[lp].ids = ids2]
               IN Put(c, d2, ListRec(d2, lp, what, id, other, TRUE))

DefineStep == /\ More /\ "list" \in Feat
  /\ \E c \in Pick(Live) : \E lp \in Pick({q \in DOMAIN D(c).L : ~D(c).L[q].def}) :
       LET d2 == Define(D(c), lp) IN Put(c, d2, ListRec(d2, lp, "define", 0, 0, TRUE))

---------------------------------------------------------------------------
\* D05
RefItems(d) == {ip \in DOMAIN d.I : ListDef[KindI(ip)].refs # {} /\ ~ListDef[KindI(ip)].enum}
EnumItems(d) == {ip \in DOMAIN d.I : ListDef[KindI(ip)].enum}

SetRef == /\ More /\ "ref" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(RefItems(D(c))) : \E t \in Pick(ListDef[KindI(ip)].refs) :
     \E v \in Pick({<<"v", r>> : r \in Rows[t]} \cup (IF NullOk(RefVt[<<KindI(ip), t>>]) THEN {Null} ELSE {})
                   \cup (IF UndefOk(RefVt[<<KindI(ip), t>>]) THEN {Undef} ELSE {})) :
       Put(c, SetR(D(c), ip, t, v), [op |-> "ref", what |-> "set", path |-> ip, name |-> t, v |-> v, res |-> TRUE])

SetRefIll == /\ More /\ "refill" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(RefItems(D(c))) : \E t \in Pick(DOMAIN Rows \cup {"nosuch"}) :
     \E v \in Pick({<<"v", "norow">>, Null, Undef} \cup UNION {{<<"v", r>> : r \in Rows[x]} : x \in DOMAIN Rows}) :
       /\ ~RefOk(ip, t, v)
       /\ Same(c, [op |-> "ref", what |-> "set", path |-> ip, name |-> t, v |-> v, res |-> FALSE])

SetEnum == /\ More /\ "ref" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(EnumItems(D(c))) : \E t \in Pick(ListDef[KindI(ip)].refs) :
     \E r \in Pick(Rows[t]) :
       Put(c, SetE(D(c), ip, t, <<"v", r>>),
           [op |-> "ref", what |-> "set_enum", path |-> ip, name |-> t, row |-> r, res |-> TRUE])

SetEnumIll == /\ More /\ "refill" \in Feat
  /\ \E c \in Pick(Live) : \E ip \in Pick(EnumItems(D(c))) : \E t \in Pick(DOMAIN Rows \cup {"nosuch"}) :
     \E r \in Pick({"norow"} \cup UNION {Rows[x] : x \in DOMAIN Rows}) :
       /\ ~RefOk(ip, t, <<"v", r>>)
       /\ Same(c, [op |-> "ref", what |-> "set_enum", path |-> ip, name |-> t, row |-> r, res |-> FALSE])

---------------------------------------------------------------------------
\* D02
Clone == /\ More /\ "clone" \in Feat
  /\ \E c \in Pick(Live) : \E to \in Pick(Slots \ {c}) :
       /\ docs' = [docs EXCEPT ![to] = docs[c]]
       /\ log' = Append(log, [op |-> "clone", slot |-> c, to |-> to, doc |-> DocOut(D(c))])
       /\ UNCHANGED done

DropCopy == /\ More /\ "clone" \in Feat
  /\ Cardinality(Live) > 1
  /\ \E c \in Pick(Live) :
       /\ docs' = [docs EXCEPT ![c] = <<>>]
       /\ log' = Append(log, [op |-> "drop", slot |-> c])
       /\ UNCHANGED done

---------------------------------------------------------------------------
Finish == /\ ~done /\ Len(log) = Depth
          /\ done' = TRUE
          /\ PrintT("TRACE " \o ToJson(log))
          /\ UNCHANGED <<docs, log>>

FirstSlot == CHOOSE c \in Slots : \A x \in Slots : TRUE

Init == /\ docs = [c \in Slots |-> IF c = FirstSlot THEN <<Src>> ELSE <<>>]
        /\ log = <<>>
        /\ done = FALSE

EditNext == \/ SetGood \/ SetInPlace \/ SetInit \/ SetIll
            \/ InsertStep \/ RemoveStep \/ MoveStep \/ DefineStep
            \/ SetRef \/ SetRefIll \/ SetEnum \/ SetEnumIll
            \/ Clone \/ DropCopy
Next == EditNext \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties of the specification itself *)
DocView == docs
AllOk == \A c \in Live : DocOk(D(c))

\* D04: within one slot the next id of a list that still exists never goes back,
\* unless the slot was replaced by a copy
LastOp == log'[Len(log')]
IdsGrow == [][\A c \in Live : (docs'[c] # <<>> /\ ~(LastOp.op = "clone" /\ LastOp.to = c)) =>
                \A lp \in DOMAIN D(c).L \cap DOMAIN docs'[c][1].L : docs'[c][1].L[lp].next >= D(c).L[lp].next]_docs

\* D02/D01: a step changes at most one slot, and a refused call none
OneSlot == [][Cardinality({c \in Slots : docs'[c] # docs[c]}) <= 1]_vars
Refused == [][(log' # log /\ "res" \in DOMAIN LastOp /\ LastOp.res = FALSE) => docs' = docs]_vars
=============================================================================
