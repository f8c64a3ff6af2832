------------------------------- MODULE Source --------------------------------
(* The source of a document: what makes it well-formed and which document it is.     *)
(*                                                                                  *)
(* A source is a root object and files of one member each. An object has members,    *)
(* possibly an id, a Ref or Enum object, and a list of members out of use (Old).     *)
(*   object   [m: members, id: 0 or 1 ids, rf: Ref/Enum objects, old: 0 or 1 lists]  *)
(*   member   [n: name, s: suffix, v: value]                                         *)
(*   value    parameter [k: "p", t: type, q: "v"/"n"/"u" (value, null, undefined), x: token] *)
(*            list [k: "l", tag, at: attributes, it: items, late: an attribute after the items] *)
(*            undefined inner list [k: "un"], anything else [k: "raw", r]            *)
(*   attribute [a: "Default"/"NextID"/"Old", o: object, x: number, ns: names], or one   *)
(*            that is none of them [a: "raw"]                                           *)
(*   id       [k: "n"/"s"/"f" (number, string, fraction), n, s]                      *)
(*   ref      [e: Enum?, m: entries [n, s, q, x], old]                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Marks == {"", "?", "!", "!?", "?!"}
Admits(s, q) == q = "v" \/ (q = "n" /\ s \in {"?", "!?", "?!"}) \/ (q = "u" /\ s \in {"!", "!?", "?!"})
BadNames == {"Bad", "Root", "9a", "a-b", "a b", "a.b", ""}     \* a name begins with a small letter, _ or @
AllDistinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Names(ms) == [i \in 1..Len(ms) |-> ms[i].n]
Index(ms, n) == IF \E i \in 1..Len(ms) : ms[i].n = n THEN CHOOSE i \in 1..Len(ms) : ms[i].n = n ELSE 0
Attrs(l, a) == SelectSeq(l.at, LAMBDA x : x.a = a)
Def(l) == Attrs(l, "Default")[1].o

\* ---------------------------------------------------------------- what a source must be
\* ids of the items of a mutable list: written ones, or the position
Ids(l) == [i \in 1..Len(l.it) |-> IF l.it[i].id = <<>> THEN i - 1 ELSE l.it[i].id[1].n]
NextOf(l) == IF Attrs(l, "NextID") # <<>> THEN Attrs(l, "NextID")[1].x
             ELSE LET d == Ids(l) IN IF d = <<>> THEN 0 ELSE 1 + (CHOOSE x \in ToSet(d) : \A y \in ToSet(d) : y <= x)

RECURSIVE ValueOk(_, _, _), ObjectOk(_, _)
ListOk(l) ==
  LET def == Len(Attrs(l, "Default"))
      nid == Len(Attrs(l, "NextID"))
      old == Len(Attrs(l, "Old"))
  IN /\ ~l.late
     /\ Attrs(l, "raw") = <<>>
     /\ \A i \in 1..Len(l.at) : l.at[i].a = "Default" => ObjectOk(l.at[i].o, "def")
     /\ def = (IF l.tag \in {"Cil", "Mil"} THEN 0 ELSE 1)
     /\ nid <= (IF l.tag \in {"MList", "Mil"} THEN 1 ELSE 0)
     /\ old <= (IF l.tag = "Table" THEN 1 ELSE 0)
     /\ l.tag \in {"CilDef", "MilDef"} => l.it = <<>>
     /\ \A i \in 1..Len(l.it) : ObjectOk(l.it[i], "item")
     /\ CASE l.tag = "Table" -> /\ \A i \in 1..Len(l.it) : l.it[i].id # <<>> /\ l.it[i].id[1].k = "s"
                                /\ AllDistinct([i \in 1..Len(l.it) |-> l.it[i].id[1].s])
          [] l.tag \in {"CList", "Cil"} -> \A i \in 1..Len(l.it) : l.it[i].id = <<>>
          [] l.tag \in {"MList", "Mil"} -> /\ \A i \in 1..Len(l.it) : l.it[i].id = <<>> \/ (l.it[i].id[1].k = "n" /\ l.it[i].id[1].n >= 0)
                                           /\ AllDistinct(Ids(l))
                                           /\ \A i \in 1..nid : Attrs(l, "NextID")[i].x >= 0 /\ \A j \in 1..Len(l.it) : Ids(l)[j] < Attrs(l, "NextID")[i].x
          [] OTHER -> TRUE
ValueOk(v, s, where) ==
  CASE v.k = "p" -> s \in Marks
    [] v.k = "raw" -> FALSE
    [] v.k = "un" -> where = "item" /\ s \in Marks
    [] v.k = "l" -> /\ v.tag \in (CASE where = "root" -> {"Table", "CList", "MList"} [] where = "def" -> {"CilDef", "MilDef"} [] where = "item" -> {"Cil", "Mil"})
                    /\ s = "" \/ (s = "!" /\ v.tag \in {"MList", "MilDef"})
                    /\ ListOk(v)
RefOk(r, where) == /\ AllDistinct(Names(r.m)) /\ \A i \in 1..Len(r.m) : r.m[i].n \notin BadNames
                   /\ \A i \in 1..Len(r.m) : r.m[i].s \in Marks
                   /\ where = "item" => r.old = <<>>
ObjectOk(o, where) ==
  /\ AllDistinct(Names(o.m)) /\ \A i \in 1..Len(o.m) : o.m[i].n \notin BadNames
  /\ \A i \in 1..Len(o.m) : ValueOk(o.m[i].v, o.m[i].s, where)
  /\ Len(o.id) <= (IF where = "item" THEN 1 ELSE 0)
  /\ Len(o.rf) <= (IF where = "root" THEN 0 ELSE 1)
  /\ \A i \in 1..Len(o.rf) : RefOk(o.rf[i], where)
  /\ where = "item" => o.old = <<>>
\* all members of the root
Members(src) == src.root.m \o src.files
StructureOk(src) == ObjectOk([src.root EXCEPT !.m = Members(src)], "root")

\* ---------------------------------------------------------------- what validation adds
RowsOf(src, n) == LET i == Index(Members(src), n)
                  IN IF i # 0 /\ Members(src)[i].v.k = "l" /\ Members(src)[i].v.tag = "Table"
                     THEN {Members(src)[i].v.it[j].id[1].s : j \in 1..Len(Members(src)[i].v.it)} ELSE {}
OldRowsOf(src, n) == LET i == Index(Members(src), n)
                     IN IF RowsOf(src, n) = {} THEN {}
                        ELSE UNION {ToSet(Attrs(Members(src)[i].v, "Old")[j].ns) : j \in 1..Len(Attrs(Members(src)[i].v, "Old"))}
OldNames(o) == IF o.old = <<>> THEN {} ELSE ToSet(o.old[1])
RefOldNames(r) == IF r.old = <<>> THEN {} ELSE ToSet(r.old[1])
Refs(o) == IF o.rf = <<>> THEN [e |-> FALSE, m |-> <<>>, old |-> <<>>] ELSE o.rf[1]

RECURSIVE DefValid(_, _, _), ItemValid(_, _, _)
DefValid(src, o, mut) ==
  /\ \A i \in 1..Len(o.m) :
       LET v == o.m[i].v IN
       CASE v.k = "p" -> Admits(o.m[i].s, v.q)
         [] v.k = "l" -> /\ v.tag = (IF mut THEN "MilDef" ELSE "CilDef")
                         /\ DefValid(src, Def(v), mut)
  /\ OldNames(o) \subseteq ToSet(Names(o.m))
  /\ LET r == Refs(o) IN
     /\ RefOldNames(r) \subseteq ToSet(Names(r.m))
     /\ \A i \in 1..Len(r.m) : IF r.e THEN r.m[i].q = "n" ELSE
          CASE r.m[i].q = "v" -> r.m[i].x = "" \/ r.m[i].x \in RowsOf(src, r.m[i].n)
            [] OTHER -> Admits(r.m[i].s, r.m[i].q)
ItemValid(src, def, it) ==
  /\ \A i \in 1..Len(it.m) :
       LET j == Index(def.m, it.m[i].n)
           v == it.m[i].v
       IN /\ j # 0
          /\ it.m[i].n \notin OldNames(def)
          /\ LET d == def.m[j].v IN
             CASE v.k = "p" -> d.k = "p" /\ d.t = v.t /\ Admits(def.m[j].s, v.q)
               [] v.k = "un" -> d.k = "l" /\ d.tag = "MilDef" /\ def.m[j].s = "!"
               [] v.k = "l" -> /\ d.k = "l"
                               /\ d.tag = (IF v.tag = "Mil" THEN "MilDef" ELSE "CilDef")
                               /\ \A a \in 1..Len(v.it) : ItemValid(src, Def(d), v.it[a])
  /\ LET r == Refs(def)
         g == Refs(it)
     IN /\ IF r.e THEN Len(g.m) = 1 /\ g.m[1].q = "v"
           ELSE \A i \in 1..Len(r.m) : r.m[i].q = "v" /\ r.m[i].x = "" => Index(g.m, r.m[i].n) # 0
        /\ \A i \in 1..Len(g.m) :
             LET j == Index(r.m, g.m[i].n) IN
             /\ j # 0
             /\ g.m[i].n \notin RefOldNames(r)
             /\ Admits(r.m[j].s, g.m[i].q)
             /\ g.m[i].q = "v" => g.m[i].x \in RowsOf(src, g.m[i].n) \ OldRowsOf(src, g.m[i].n)
Valid(src) ==
  /\ OldNames(src.root) \subseteq ToSet(Names(Members(src)))
  /\ \A i \in 1..Len(Members(src)) :
       LET v == Members(src)[i].v IN
       CASE v.k = "p" -> Admits(Members(src)[i].s, v.q)
         [] v.k = "l" -> /\ DefValid(src, Def(v), v.tag = "MList")
                         /\ \A j \in 1..Len(v.it) : ItemValid(src, Def(v), v.it[j])
                         /\ \A j \in 1..Len(Attrs(v, "Old")) : ToSet(Attrs(v, "Old")[j].ns) \subseteq {v.it[x].id[1].s : x \in 1..Len(v.it)}

\* what the manual leaves open: an Enum whose entries are not nullable, the word Ref for an Enum's item,
\* a default reference to a row out of use
RECURSIVE OpenObject(_, _), OpenValue(_, _)
OpenRef(src, o) == \E i \in 1..Len(o.rf) : \E j \in 1..Len(o.rf[i].m) :
                      LET x == o.rf[i].m[j] IN (o.rf[i].e /\ ~Admits(x.s, "n")) \/ (x.q = "v" /\ x.x \in OldRowsOf(src, x.n))
OpenObject(src, o) == OpenRef(src, o) \/ \E i \in 1..Len(o.m) : OpenValue(src, o.m[i].v)
OpenValue(src, v) == v.k = "l" /\ \E i \in 1..Len(v.at) : v.at[i].a = "Default" /\ OpenObject(src, v.at[i].o)
RECURSIVE Mixed(_, _)
Mixed(def, it) ==
  \/ it.rf # <<>> /\ def.rf # <<>> /\ it.rf[1].e # def.rf[1].e
  \/ \E i \in 1..Len(it.m) : it.m[i].v.k = "l" /\ Index(def.m, it.m[i].n) # 0 /\ def.m[Index(def.m, it.m[i].n)].v.k = "l"
                             /\ \E j \in 1..Len(it.m[i].v.it) : Mixed(Def(def.m[Index(def.m, it.m[i].n)].v), it.m[i].v.it[j])
Open(src) == LET ms == Members(src) IN
             \E i \in 1..Len(ms) : ms[i].v.k = "l" /\ (OpenValue(src, ms[i].v) \/ \E j \in 1..Len(ms[i].v.it) : Mixed(Def(ms[i].v), ms[i].v.it[j]))

\* an empty Ref or Enum object may count as none
RECURSIVE EmptyRef(_), EmptyRefValue(_)
EmptyRef(o) == (\E i \in 1..Len(o.rf) : o.rf[i].m = <<>>) \/ \E i \in 1..Len(o.m) : EmptyRefValue(o.m[i].v)
EmptyRefValue(v) == v.k = "l" /\ ((\E i \in 1..Len(v.at) : EmptyRef(v.at[i].o)) \/ \E i \in 1..Len(v.it) : EmptyRef(v.it[i]))

\* "bad": must be refused always, "invalid": by validation, "open": not decided here
Verdict(src) == IF EmptyRef([src.root EXCEPT !.m = Members(src)]) THEN "open" ELSE
                IF ~StructureOk(src) THEN "bad" ELSE IF ~Valid(src) THEN "invalid" ELSE IF Open(src) THEN "open" ELSE "ok"

\* ---------------------------------------------------------------- the document it is
\* parameters as [t, q, x, d: default is used], references as [q, x], lists with ids and next id
RECURSIVE MutDoc(_, _, _), ConstDoc(_, _)
ParamNames(o) == {o.m[i].n : i \in {j \in 1..Len(o.m) : o.m[j].v.k = "p"}}
ListNames(o) == {o.m[i].n : i \in {j \in 1..Len(o.m) : o.m[j].v.k = "l"}}
Given(it, n) == Index(it.m, n) # 0
PDoc(def, it) == [n \in ParamNames(def) |->
                    LET v == IF Given(it, n) THEN it.m[Index(it.m, n)].v ELSE def.m[Index(def.m, n)].v
                    IN [t |-> v.t, q |-> v.q, x |-> v.x, d |-> ~Given(it, n)]]
RDoc(def, it) == LET r == Refs(def)
                     g == Refs(it)
                 IN [n \in ToSet(Names(r.m)) |-> LET e == IF Index(g.m, n) # 0 THEN g.m[Index(g.m, n)] ELSE r.m[Index(r.m, n)] IN [q |-> e.q, x |-> e.x]]
SubDef(def, n) == Def(def.m[Index(def.m, n)].v)
MutItem(def, it) == [p |-> PDoc(def, it), r |-> RDoc(def, it), e |-> Refs(def).e,
                     m |-> [n \in ListNames(def) |->
                              IF ~Given(it, n) THEN [u |-> FALSE, n |-> 0, i |-> <<>>]
                              ELSE LET v == it.m[Index(it.m, n)].v
                                   IN IF v.k = "un" THEN [u |-> TRUE, n |-> 0, i |-> <<>>] ELSE MutDoc(SubDef(def, n), v, FALSE)]]
MutDoc(def, l, u) == [u |-> u, n |-> NextOf(l), i |-> [j \in 1..Len(l.it) |-> [id |-> Ids(l)[j], v |-> MutItem(def, l.it[j])]]]
ConstItem(def, it) == [p |-> PDoc(def, it), r |-> RDoc(def, it), e |-> Refs(def).e,
                       c |-> [n \in ListNames(def) |-> IF ~Given(it, n) THEN <<>> ELSE ConstDoc(SubDef(def, n), it.m[Index(it.m, n)].v)]]
ConstDoc(def, l) == [j \in 1..Len(l.it) |-> ConstItem(def, l.it[j])]
TableDoc(def, l) == [id \in {l.it[j].id[1].s : j \in 1..Len(l.it)} |-> ConstItem(def, l.it[CHOOSE j \in 1..Len(l.it) : l.it[j].id[1].s = id])]
Doc(src) ==
  LET ms == Members(src)
      of(tag) == {ms[i].n : i \in {j \in 1..Len(ms) : ms[j].v.k = "l" /\ ms[j].v.tag = tag}}
      val(n) == ms[Index(ms, n)].v
  IN [p |-> [n \in ParamNames([m |-> ms]) |-> [t |-> val(n).t, q |-> val(n).q, x |-> val(n).x, d |-> TRUE]],
      m |-> [n \in of("MList") |-> MutDoc(Def(val(n)), val(n), FALSE)],
      c |-> [n \in of("CList") |-> ConstDoc(Def(val(n)), val(n))],
      t |-> [n \in of("Table") |-> TableDoc(Def(val(n)), val(n))]]

\* ---------------------------------------------------------------- the source a document is printed as
\* one root object in which every item of a mutable list has its id and every mutable list its next id;
\* what is optional in items (marks of members) is left out
RECURSIVE PrintValue(_), PrintObj(_, _)
PrintList(l) ==
  [l EXCEPT !.at = Attrs(l, "Old") \o (IF l.tag \in {"MList", "Mil"} THEN <<[a |-> "NextID", o |-> [m |-> <<>>, id |-> <<>>, rf |-> <<>>, old |-> <<>>], x |-> NextOf(l), ns |-> <<>>]>> ELSE <<>>)
                   \o [i \in 1..Len(Attrs(l, "Default")) |-> [Attrs(l, "Default")[i] EXCEPT !.o = PrintObj(@, "def")]],
            !.it = [i \in 1..Len(l.it) |->
                      LET o == PrintObj(l.it[i], "item") IN IF l.tag \in {"MList", "Mil"} THEN [o EXCEPT !.id = <<[k |-> "n", n |-> Ids(l)[i], s |-> ""]>>] ELSE o]]
PrintValue(v) == IF v.k = "l" THEN PrintList(v) ELSE v
PrintObj(o, where) ==
  [o EXCEPT !.m = [i \in 1..Len(o.m) |-> [o.m[i] EXCEPT !.v = PrintValue(@), !.s = IF where = "item" THEN "" ELSE @]],
            !.rf = [i \in 1..Len(o.rf) |-> [o.rf[i] EXCEPT !.m = [j \in 1..Len(@) |-> [@[j] EXCEPT !.s = IF where = "item" THEN "" ELSE @]]]]]
Printed(src) == [root |-> [PrintObj([src.root EXCEPT !.m = Members(src)], "root") EXCEPT !.old = IF @ = <<>> THEN << <<>> >> ELSE @], files |-> <<>>]
=============================================================================
