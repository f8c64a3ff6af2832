------------------------------ MODULE SourceMC -------------------------------
(* Sources to read: every source that differs from a base in one place, and random    *)
(* walks through well-formed sources of which every step tried is a source to read.   *)
EXTENDS SourceParts, Json, Randomization

CONSTANTS Mode,     \* "all": every single edit of every base, "walk": random edits
          Steps
VARIABLES src, step, base, tried

Bases == <<
  [root |-> O(<<M("a", "", P("int", "v", 1)), M("b", "?", P("float", "n", 0)), M("c", "!", P("str", "u", 0)), M("d", "!?", P("bool", "v", 1)), M("e", "", P("bin", "v", 2))>>),
   files |-> <<M("f", "?", P("ia", "v", 1)), M("g", "", P("fa", "v", 2))>>],
  [root |-> O(<<M("t", "", Table1), M("u", "", Table2), M("m", "", List1)>>), files |-> <<>>],
  [root |-> [O(<<M("t", "", Table1), M("m", "", List2), M("a", "", P("int", "v", 1))>>) EXCEPT !.old = <<<<"a">>>>], files |-> <<M("u", "", Table2), M("k", "!", List2)>>],
  [root |-> O(<<M("k", "", [CList1 EXCEPT !.at[1].o.old = <<<<"o">>>>])>>), files |-> <<M("l", "", CList1)>>] >>

\* ---------------------------------------------------------------- edits
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Dup(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Shuffles(s) == {Drop(s, i) : i \in 1..Len(s)} \cup {Dup(s, i) : i \in 1..Len(s)} \cup {Swap(s, i) : i \in 1..(Len(s) - 1)}
SomeParams == {P("int", "v", 3), P("str", "n", 0), P("bin", "u", 0)}
Empties == {L(t, at, <<>>) : t \in {"Mil", "Cil"}, at \in {<<>>}} \cup {L(t, <<DefA(O(<<>>))>>, <<>>) : t \in {"MilDef", "CilDef", "MList", "CList", "Table"}}

RECURSIVE ValueEdits(_, _), ObjectEdits(_, _), OtherEdits(_)
AttrEdits(a) == CASE a.a = "Default" -> {[a EXCEPT !.o = o] : o \in ObjectEdits(a.o, "def")}
                  [] a.a = "NextID" -> {[a EXCEPT !.x = x] : x \in {-1, 0, 1, 2, 3, 4, 6}}
                  [] a.a = "raw" -> {}
                  [] a.a = "Old" -> {[a EXCEPT !.ns = x] : x \in {<<>>, <<"r1">>, <<"r1", "r2">>, <<"r9">>}}
ListEdits(l) ==
       {[l EXCEPT !.tag = t] : t \in {"MList", "Table", "CList", "Mil", "Cil", "MilDef", "CilDef"}}
  \cup {[l EXCEPT !.at = s] : s \in Shuffles(l.at)}
  \cup {[l EXCEPT !.at = @ \o <<a>>] : a \in {NextA(1), NextA(7), OldA(<<"r1">>), DefA(O(<<>>))} \cup {RawA(r) : r \in RawAttrs}}
  \cup UNION {{[l EXCEPT !.at[i] = a] : a \in AttrEdits(l.at[i])} : i \in 1..Len(l.at)}
  \cup {[l EXCEPT !.it = s] : s \in Shuffles(l.it)}
  \cup {[l EXCEPT !.it = @ \o <<o>>] : o \in {NoObj, [NoObj EXCEPT !.id = Id(1)], [NoObj EXCEPT !.id = Row("r3")]}}
  \cup UNION {{[l EXCEPT !.it[i] = o] : o \in ObjectEdits(l.it[i], "item")} : i \in 1..Len(l.it)}
  \cup (IF l.at # <<>> /\ l.it # <<>> THEN {[l EXCEPT !.late = TRUE]} ELSE {})
ValueEdits(v, where) ==
  (CASE v.k = "p" -> {P(t, v.q, v.x) : t \in Types} \cup {P(v.t, q, v.x) : q \in {"v", "n", "u"}} \cup {P(v.t, v.q, x) : x \in {1, 2, 3}} \cup {Raw(r) : r \in Raws}
     [] v.k = "l" -> ListEdits(v)
     [] OTHER -> {})
  \cup Empties \cup {P("int", "v", 1), P("str", "n", 0), P("str", "u", 0), Un}
EntryEdits(e) == {[e EXCEPT !.x = x] : x \in {"", "r1", "r2", "r9"}} \cup {[e EXCEPT !.q = q] : q \in {"v", "n", "u"}} \cup {[e EXCEPT !.s = s] : s \in Marks \cup {"??"}}
                 \cup {[e EXCEPT !.n = n] : n \in {"t", "u", "m", "zz", "Bad"}}
RefEdits(r) == {[r EXCEPT !.e = ~@]} \cup {[r EXCEPT !.m = s] : s \in Shuffles(r.m)}
               \cup UNION {{[r EXCEPT !.m[i] = e] : e \in EntryEdits(r.m[i])} : i \in 1..Len(r.m)}
               \cup UNION {{[r EXCEPT !.m = Append(@, [r.m[i] EXCEPT !.s = s])] : s \in Marks} : i \in 1..Len(r.m)}
               \cup {[r EXCEPT !.m = Append(@, e)] : e \in {E("t", "", "v", "r1"), E("u", "?", "n", ""), E("zz", "!", "u", ""), E("u", "", "v", "")}}
               \cup {[r EXCEPT !.old = o] : o \in {<<<<"t">>>>, <<<<"zz">>>>, <<>>}}
MemberEdits(m, where) == {[m EXCEPT !.v = v] : v \in ValueEdits(m.v, where)} \cup {[m EXCEPT !.s = s] : s \in Marks \cup {"??", "!!"}}
                         \cup {[m EXCEPT !.n = n] : n \in {"a", "b", "l", "x", "zz", "@q", "_X9"} \cup BadNames}
ObjectEdits(o, where) == OtherEdits(o) \cup UNION {{[o EXCEPT !.m[i] = m] : m \in MemberEdits(o.m[i], where)} : i \in 1..Len(o.m)}
OtherEdits(o) ==
       {[o EXCEPT !.m = s] : s \in Shuffles(o.m)}
  \cup UNION {{[o EXCEPT !.m = Append(@, [o.m[i] EXCEPT !.s = s])] : s \in Marks} : i \in 1..Len(o.m)}
  \cup {[o EXCEPT !.m = Append(@, M(n, "", p))] : n \in {"a", "zz"}, p \in SomeParams}
  \cup {[o EXCEPT !.id = i] : i \in {<<>>, Id(0), Id(1), Id(3), Id(4), Id(5), Id(-1), Row("r1"), Row("r2"), Row("r3"), Row("\" \\ r"), Frac, Id(0) \o Id(1)}}
  \cup {[o EXCEPT !.rf = r] : r \in Shuffles(o.rf)}
  \cup {[o EXCEPT !.rf = Append(@, r)] : r \in {Ref(<<E("t", "", "v", "r1")>>), Enum(<<E("t", "?", "n", "")>>), Ref(<<E("t", "?", "n", "")>>), Enum(<<E("u", "", "v", "r1")>>)}}
  \cup UNION {{[o EXCEPT !.rf[i] = r] : r \in RefEdits(o.rf[i])} : i \in 1..Len(o.rf)}
  \cup {[o EXCEPT !.old = x] : x \in {<<>>, <<<<"a">>>>, <<<<"l">>>>, <<<<"c", "a">>>>, <<<<"zz">>>>}}
MemberPart(s, i) == {[s EXCEPT !.root.m[i] = m] : m \in MemberEdits(s.root.m[i], "root")}
FilePart(s, i) == {[s EXCEPT !.files[i] = m] : m \in MemberEdits(s.files[i], "root")}
RootPart(s) == {[s EXCEPT !.root = o] : o \in OtherEdits(s.root)}
FilesPart(s) ==
       {[s EXCEPT !.files = Append(@, M("Root", x, Raw("object")))] : x \in {"", "!"}} \cup
       {[s EXCEPT !.files = Drop(@, i)] : i \in 1..Len(s.files)}
  \cup UNION {{[s EXCEPT !.files = Append(@, [s.files[i] EXCEPT !.s = x])] : x \in Marks \ {s.files[i].s}} : i \in 1..Len(s.files)}
  \cup {[s EXCEPT !.root.m = Drop(@, i), !.files = Append(@, s.root.m[i])] : i \in 1..Len(s.root.m)}
  \cup UNION {{[s EXCEPT !.files = Append(@, [s.root.m[i] EXCEPT !.s = x])] : x \in Marks} : i \in 1..Len(s.root.m)}
  \cup {[s EXCEPT !.root.m = Append(@, s.files[i]), !.files = Drop(@, i)] : i \in 1..Len(s.files)}
SourceEdits(s) == RootPart(s) \cup FilesPart(s) \cup UNION {MemberPart(s, i) : i \in 1..Len(s.root.m)} \cup UNION {FilePart(s, i) : i \in 1..Len(s.files)}
Part(s, k) == IF k = 1 THEN RootPart(s) ELSE IF k = 2 THEN FilesPart(s) ELSE IF k <= 2 + Len(s.root.m) THEN MemberPart(s, k - 2) ELSE FilePart(s, k - 2 - Len(s.root.m))
\* two files of one name cannot be, nor one without a name
Files(s) == /\ \A i \in 1..Len(s.files) : s.files[i].n # ""
            /\ \A i, j \in 1..Len(s.files) : i # j => <<s.files[i].n, s.files[i].s>> # <<s.files[j].n, s.files[j].s>>

\* ---------------------------------------------------------------- behaviour
Emit(s) == LET v == Verdict(s) IN
           PrintT("TRACE " \o ToJson([src |-> s, verdict |-> v] @@ (IF v = "ok" THEN [doc |-> Doc(s)] ELSE <<>>)))
Init == /\ base \in 1..Len(Bases)
        /\ src = Bases[base] /\ step = 0 /\ tried = ""
        /\ Emit(src)
Next == /\ step < Steps
        /\ step' = step + 1
        /\ UNCHANGED base
        /\ IF Mode = "all" THEN \E s \in SourceEdits(src) : Files(s) /\ src' = s /\ tried' = Verdict(s) /\ (s # src => Emit(s))
           ELSE \* a few edits of a random part; those that keep the source well-formed move on
                \E s \in RandomSubset(10, Part(src, RandomElement(1..(2 + Len(src.root.m) + Len(src.files))))) :
                   LET v == Verdict(s) IN
                   /\ Files(s) /\ s # src
                   /\ Emit(s)
                   /\ src' = (IF v = "ok" THEN s ELSE src)
                   /\ tried' = v
Spec == Init /\ [][Next]_<<src, step, base, tried>>

\* ---------------------------------------------------------------- properties of the specification
\* splitting a member off or taking it back does not change the meaning
Splitting == step = 0 => \A i \in 1..Len(src.root.m) :
   LET s == [src EXCEPT !.root.m = Drop(@, i), !.files = Append(@, src.root.m[i])] IN Verdict(s) = Verdict(src) /\ (Verdict(src) = "ok" => Doc(s) = Doc(src))
\* every reference of a document that is accepted finds its row, and ids are below the next id
RECURSIVE ListFine(_, _)
ItemFine(d, it) == /\ \A n \in DOMAIN it.r : it.r[n].q = "v" => n \in DOMAIN d.t /\ it.r[n].x \in DOMAIN d.t[n]
                   /\ it.e => Cardinality({n \in DOMAIN it.r : it.r[n].q = "v"}) = 1
ListFine(d, l) == /\ \A i, j \in 1..Len(l.i) : (i # j => l.i[i].id # l.i[j].id) /\ l.i[i].id < l.n
                  /\ \A i \in 1..Len(l.i) : ItemFine(d, l.i[i].v) /\ \A n \in DOMAIN l.i[i].v.m : ListFine(d, l.i[i].v.m[n])
Sound == Verdict(src) = "ok" => LET d == Doc(src) IN
         /\ \A n \in DOMAIN d.m : ListFine(d, d.m[n])
         /\ \A n \in DOMAIN d.t : \A r \in DOMAIN d.t[n] : ItemFine(d, d.t[n][r])
\* a document that is printed reads back as itself, and prints the same again
Printing == Verdict(src) = "ok" => LET p == Printed(src) IN Verdict(p) = "ok" /\ Doc(p) = Doc(src) /\ Printed(p) = p
Fine == base \in 1..Len(Bases) /\ (step = 0 => Verdict(src) = "ok")
=============================================================================
