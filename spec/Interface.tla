----------------------------- MODULE Interface -----------------------------
(* The Rust interface generated for a source: which types and functions there     *)
(* are, and the Rust type of each of them.                                        *)
(*                                                                                *)
(* A source is a record                                                           *)
(*   nodes : members, [name, k, up, t, vt, dv, old]; `k` is "p" (parameter),      *)
(*           "ml" / "mil" (mutable list / inner one), "t" (table),                *)
(*           "cl" / "cil" (constant list / inner one); `up` is the index of the   *)
(*           list or table the member belongs to, 0 for the root                  *)
(*   rows  : rows of tables, [tab, name, old]                                     *)
(*   refs  : references, [own, tab, vt, dv, old]                                  *)
(*   enums : the lists and tables whose references form an Enum                   *)
(* A name is a record: its text and the Rust names made of it (operator Name).     *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

LowC == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
UpC  == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
UpSet == ToSet(UpC)
LowSet == ToSet(LowC)
LowOf == [c \in UpSet |-> LowC[CHOOSE i \in 1..26 : UpC[i] = c]]
UpOf  == [c \in LowSet |-> UpC[CHOOSE i \in 1..26 : LowC[i] = c]]
ToLow(c) == IF c \in UpSet THEN LowOf[c] ELSE c
ToUp(c)  == IF c \in LowSet THEN UpOf[c] ELSE c

Txt(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)

\* names of functions: fooBar -> foo_bar, @at -> atat
Snake(cs) == Txt([i \in 1..Len(cs) |->
  IF i = 1 THEN (IF cs[1] = "@" THEN "at" ELSE ToLow(cs[1]))
           ELSE (IF cs[i] \in UpSet THEN "_" \o ToLow(cs[i]) ELSE cs[i])])
\* names of types: fooBar, foo_bar -> FooBar
Camel(cs) == Txt([i \in 1..Len(cs) |->
  IF i = 1 THEN (IF cs[1] = "@" THEN "At" ELSE ToUp(cs[1]))
           ELSE IF cs[i] = "_" THEN ""
           ELSE IF i > 2 /\ cs[i - 1] = "_" THEN ToUp(cs[i]) ELSE cs[i]])

Name(cs) == [txt |-> Txt(cs), sn |-> Snake(cs), cm |-> Camel(cs), up |-> cs[1] \in UpSet]

---------------------------------------------------------------------------
Lists == {"ml", "mil", "t", "cl", "cil"}
Mutable == {"ml", "mil"}
ByRef == {"str", "ia", "fa", "bin"}
RustType == [bool |-> "bool", int |-> "i64", float |-> "f64", str |-> "String",
             ia |-> "Vec<i64>", fa |-> "Vec<f64>", bin |-> "Vec<u8>"]
Wrap(vt, x) == CASE vt = "n" -> x [] vt = "q" -> "NullOr<" \o x \o ">"
                 [] vt = "u" -> "UndefOr<" \o x \o ">" [] vt = "qu" -> "Qv<" \o x \o ">"
WithOld(x, old) == IF old THEN x \o "_old" ELSE x

\* the type that stands for the root, an item of a list or a row of a table
OwnerType(s, i) == IF i = 0 THEN "RootIntf"
                   ELSE s.nodes[i].name.cm \o (IF s.nodes[i].k \in Mutable THEN "MItem" ELSE "CItem")
TableType(s, i) == s.nodes[i].name.cm \o "Table"
IdType(s, i) == s.nodes[i].name.cm \o "TableID"
EnumType(s, i) == s.nodes[i].name.cm \o "Enum"
KindType(s, i) == s.nodes[i].name.cm \o "Kind"
IsMut(s, i) == i = 0 \/ s.nodes[i].k \in Mutable

\* one function or variant, with the Rust type a use of it must have
F(on, fn, ty) == [on |-> on, fn |-> fn, ty |-> ty]
Read(o, r) == "fn(&" \o o \o ") -> " \o r
Write(o, r) == "fn(&mut " \o o \o ") -> " \o r

Base(n) == WithOld(n.name.sn, n.old)

ParamFns(s, i) ==
  LET n == s.nodes[i]
      o == OwnerType(s, n.up)
      b == Base(n)
      T == RustType[n.t]
      r == IF n.t \in ByRef THEN "&" \o T ELSE T
  IN <<F(o, b, Read(o, Wrap(n.vt, r))), F(o, b \o "_def_val", Read(o, Wrap(n.vt, r)))>>
     \o (IF IsMut(s, n.up) THEN <<F(o, "set_" \o b, "fn(&mut " \o o \o ", " \o Wrap(n.vt, T) \o ")")>> ELSE <<>>)
     \o (IF IsMut(s, n.up) /\ n.t \in ByRef THEN <<F(o, b \o "_mut", Write(o, Wrap(n.vt, "&mut " \o T)))>> ELSE <<>>)

ListFns(s, i) ==
  LET n == s.nodes[i]
      o == OwnerType(s, n.up)
      it == OwnerType(s, i)
      b == Base(n)
      ml == "MListConst<" \o it \o ">"
  IN CASE n.k \in Mutable -> <<F(o, b, Read(o, IF n.vt = "u" THEN "Option<" \o ml \o ">" ELSE ml)),
                               F(o, b \o "_mut", Write(o, "MListMut<" \o it \o ">"))>>
       [] n.k \in {"cl", "cil"} -> <<F(o, b, Read(o, "CListConst<" \o it \o ">"))>>
       [] n.k = "t" -> <<F(o, b, Read(o, "CTableConst<" \o TableType(s, i) \o ">"))>>

RowKey(r) == WithOld(r.name.sn, r.old)
RowVariant(r) == IF r.old THEN r.name.cm \o "Old" ELSE r.name.cm
RowsOf(s, i) == SelectSeq(s.rows, LAMBDA r : r.tab = i)

\* the first n sequences of ss, one after the other
RECURSIVE FlatTo(_, _)
FlatTo(ss, n) == IF n = 0 THEN <<>> ELSE FlatTo(ss, n - 1) \o ss[n]

TableFns(s, i) ==
  LET t == TableType(s, i)
      d == IdType(s, i)
      it == OwnerType(s, i)
      rs == RowsOf(s, i)
  IN <<F(t, "new", "fn(TablePtr) -> " \o t)>>
     \o FlatTo([k \in 1..Len(rs) |-> <<F(t, RowKey(rs[k]), Read(t, "CItemConst<" \o it \o ">")),
                                        F(t, RowKey(rs[k]) \o "_us", "unsafe " \o Read(t, it)),
                                        F(d, RowVariant(rs[k]), d)>>], Len(rs))
     \o (IF rs # <<>> THEN <<F(t, "get_by_id", "fn(&" \o t \o ", " \o d \o ") -> CItemConst<" \o it \o ">"),
                             F(t, "get_by_id_us", "unsafe fn(&" \o t \o ", " \o d \o ") -> " \o it)>> ELSE <<>>)
     \o <<F(d, "from_str", "fn(&str) -> Option<" \o d \o ">"), F(d, "from_num", "fn(usize) -> " \o d),
          F(d, "len", "fn() -> usize"), F(d, "to_num", Read(d, "usize")),
          F(d, "metadata", "fn() -> &'static [&'static str]"), F(d, "to_str", Read(d, "&'static str"))>>

RefFns(s, r) ==
  LET o == OwnerType(s, r.own)
      b == WithOld(s.nodes[r.tab].name.sn, r.old)
  IN <<F(o, "ref_" \o b, Read(o, Wrap(r.vt, OwnerType(s, r.tab)))), F(o, "ref_id_" \o b, Read(o, Wrap(r.vt, "&String")))>>
     \o (IF IsMut(s, r.own) THEN <<F(o, "set_ref_" \o b, "fn(&mut " \o o \o ", " \o Wrap(r.vt, IdType(s, r.tab)) \o ")")>> ELSE <<>>)

RefsOf(s, i) == SelectSeq(s.refs, LAMBDA r : r.own = i)
EnumFns(s, i) ==
  LET o == OwnerType(s, i)
      e == EnumType(s, i)
      k == KindType(s, i)
      rs == RefsOf(s, i)
      V(r) == s.nodes[r.tab].name.cm
  IN <<F(o, "get_enum", Read(o, e)), F(o, "get_enum_ids", Read(o, "(String, String)"))>>
     \o [x \in 1..Len(rs) |-> F(e, V(rs[x]), "fn(" \o OwnerType(s, rs[x].tab) \o ") -> " \o e)]
     \o (IF IsMut(s, i)
         THEN <<F(o, "set_enum", "fn(&mut " \o o \o ", " \o k \o ")"), F(k, "id", Read(k, "(&'static str, &'static str)"))>>
              \o [x \in 1..Len(rs) |-> F(k, V(rs[x]), "fn(" \o IdType(s, rs[x].tab) \o ") -> " \o k)]
         ELSE <<>>)

RootFns == <<F("RootIntf", "new", "fn(RootObject) -> RootIntf"), F("RootIntf", "root_obj_ref", Read("RootIntf", "&RootObject")),
             F("RootIntf", "root_obj_ref_mut", Write("RootIntf", "&mut RootObject")),
             F("RootIntf", "deconstruct", "fn(RootIntf) -> RootObject")>>

\* everything the generated interface offers
Fns(s) ==
  RootFns
  \o FlatTo([i \in 1..Len(s.nodes) |->
       IF s.nodes[i].k = "p" THEN ParamFns(s, i)
       ELSE ListFns(s, i) \o (IF s.nodes[i].k = "t" THEN TableFns(s, i) ELSE <<>>)
            \o (IF i \in s.enums THEN EnumFns(s, i) ELSE <<>>)], Len(s.nodes))
  \o FlatTo([k \in 1..Len(s.refs) |-> IF s.refs[k].own \in s.enums THEN <<>> ELSE RefFns(s, s.refs[k])], Len(s.refs))

TypesOf(s) == <<"RootIntf">> \o FlatTo([i \in 1..Len(s.nodes) |->
  IF s.nodes[i].k = "p" THEN <<>>
  ELSE <<OwnerType(s, i)>> \o (IF s.nodes[i].k = "t" THEN <<TableType(s, i), IdType(s, i)>> ELSE <<>>)
       \o (IF i \in s.enums THEN <<EnumType(s, i)>> \o (IF IsMut(s, i) THEN <<KindType(s, i)>> ELSE <<>>) ELSE <<>>)], Len(s.nodes))

---------------------------------------------------------------------------
(* The sources the interface is meant for: names that give distinct Rust names    *)
(* which are no words of the language.                                            *)
Words == {"as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
          "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait",
          "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do",
          "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "_", "Self"}
Distinct(q) == Cardinality(ToSet(q)) = Len(q)
Well(s, fs) ==   \* fs: Fns(s)
  /\ Distinct([k \in 1..Len(fs) |-> <<fs[k].on, fs[k].fn>>])
  /\ Distinct(TypesOf(s))
  /\ \A k \in 1..Len(fs) : fs[k].fn \notin Words
  /\ \A i \in 1..Len(s.nodes) : s.nodes[i].name.sn \notin Words
  /\ \A k \in 1..Len(s.rows) : s.rows[k].name.sn \notin Words

(* Well-formedness of the table of functions itself *)
\* every member is readable, and can be written exactly when it belongs to the document
MemberFns(s) == \A fs \in {ToSet(Fns(s))} : \A i \in 1..Len(s.nodes) :
  \A n \in {s.nodes[i]} : \A b \in {Base(n)} : \A o \in {OwnerType(s, n.up)} :
    \A mine \in {{f.fn : f \in {g \in fs : g.on = o}}} :
      /\ b \in mine
      /\ ((IF n.k = "p" THEN "set_" \o b ELSE b \o "_mut") \in mine)
         <=> (IsMut(s, n.up) /\ n.k \in {"p", "ml", "mil"})

---------------------------------------------------------------------------
(* The names a program uses for one member *)
Use(s, i) ==
  LET n == s.nodes[i] IN
  [name |-> n.name.txt, k |-> n.k, up |-> n.up, t |-> n.t, vt |-> n.vt, dv |-> n.dv, old |-> n.old,
   fn |-> Base(n), ty |-> IF n.k = "p" THEN "" ELSE OwnerType(s, i),
   tab |-> IF n.k = "t" THEN TableType(s, i) ELSE "", ids |-> IF n.k = "t" THEN IdType(s, i) ELSE "",
   camel |-> n.name.cm, enum |-> i \in s.enums]
Out(s, fs) ==
  [nodes |-> [i \in 1..Len(s.nodes) |-> Use(s, i)],
   rows  |-> [k \in 1..Len(s.rows) |-> [tab |-> s.rows[k].tab, name |-> s.rows[k].name.txt, old |-> s.rows[k].old,
                                        fn |-> RowKey(s.rows[k]), var |-> RowVariant(s.rows[k])]],
   refs  |-> [k \in 1..Len(s.refs) |-> [own |-> s.refs[k].own, tab |-> s.refs[k].tab, vt |-> s.refs[k].vt, dv |-> s.refs[k].dv,
                                        old |-> s.refs[k].old, fn |-> WithOld(s.nodes[s.refs[k].tab].name.sn, s.refs[k].old)]],
   fns   |-> fs]
=============================================================================
