----------------------------- MODULE SourceParts ------------------------------
(* Members that sources are built of. *)
EXTENDS Source

\* ---------------------------------------------------------------- pieces
P(t, q, x) == [k |-> "p", t |-> t, q |-> q, x |-> x]
M(n, s, v) == [n |-> n, s |-> s, v |-> v]
NoObj == [m |-> <<>>, id |-> <<>>, rf |-> <<>>, old |-> <<>>]
O(m) == [NoObj EXCEPT !.m = m]
Id(n) == <<[k |-> "n", n |-> n, s |-> ""]>>
Row(s) == <<[k |-> "s", n |-> 0, s |-> s]>>
Frac == <<[k |-> "f", n |-> 0, s |-> ""]>>
DefA(o) == [a |-> "Default", o |-> o, x |-> 0, ns |-> <<>>]
NextA(n) == [a |-> "NextID", o |-> NoObj, x |-> n, ns |-> <<>>]
OldA(ns) == [a |-> "Old", o |-> NoObj, x |-> 0, ns |-> ns]
RawA(r) == [a |-> "raw", o |-> NoObj, x |-> 0, ns |-> <<r>>]
L(tag, at, it) == [k |-> "l", tag |-> tag, at |-> at, it |-> it, late |-> FALSE]
Un == [k |-> "un"]
Raw(r) == [k |-> "raw", r |-> r]
E(n, s, q, x) == [n |-> n, s |-> s, q |-> q, x |-> x]
Ref(m) == [e |-> FALSE, m |-> m, old |-> <<>>]
Enum(m) == [e |-> TRUE, m |-> m, old |-> <<>>]

Types == {"int", "float", "str", "bool", "ia", "fa", "bin"}
Raws == {"null", "undefined", "object", "empty", "unknown", "half", "real", "big", "text", "nested", "two", "minus",
         "null1", "1null", "undef1", "mixed", "nullints", "nullfloats", "intnull2", "float2"}
RawAttrs == {"next2", "next0", "nexts", "nextf", "unknown", "number", "empty", "oldnumber", "default0", "default2"}

Table1 == L("Table", <<DefA(O(<<M("a", "", P("int", "v", 1)), M("s", "?", P("str", "n", 0))>>))>>,
            <<[O(<<M("a", "", P("int", "v", 2))>>) EXCEPT !.id = Row("r1")], [O(<<>>) EXCEPT !.id = Row("r2")]>>)
Table2 == L("Table", <<DefA([O(<<M("a", "", P("float", "v", 1)), M("c", "", L("CilDef", <<DefA(O(<<M("x", "!", P("bin", "v", 1))>>))>>, <<>>))>>)
                             EXCEPT !.rf = <<Ref(<<E("t", "?", "v", "r1")>>)>>]), OldA(<<"r2">>)>>,
            <<[O(<<M("c", "", L("Cil", <<>>, <<O(<<M("x", "", P("bin", "u", 0))>>), O(<<>>)>>))>>) EXCEPT !.id = Row("r1")],
              [O(<<M("a", "", P("float", "v", 2))>>) EXCEPT !.id = Row("r2"), !.rf = <<Ref(<<E("t", "", "n", "")>>)>>]>>)
List1 == L("MList", <<DefA([O(<<M("a", "", P("int", "v", 1)), M("f", "!?", P("fa", "u", 0)), M("l", "!", L("MilDef", <<DefA(O(<<M("x", "?", P("str", "v", 1))>>))>>, <<>>))>>)
                            EXCEPT !.rf = <<Ref(<<E("t", "?", "v", "r1"), E("u", "", "v", "")>>)>>]), NextA(5)>>,
           <<[O(<<M("a", "", P("int", "v", 2)), M("l", "", L("Mil", <<NextA(3)>>, <<[O(<<M("x", "", P("str", "n", 0))>>) EXCEPT !.id = Id(2)], [O(<<>>) EXCEPT !.id = Id(0)]>>))>>)
              EXCEPT !.id = Id(3), !.rf = <<Ref(<<E("u", "", "v", "r1")>>)>>],
             [O(<<M("f", "", P("fa", "v", 1)), M("l", "", Un)>>) EXCEPT !.rf = <<Ref(<<E("t", "", "n", ""), E("u", "", "v", "r1")>>)>>]>>)
List2 == L("MList", <<DefA([O(<<M("b", "", P("bool", "v", 1))>>) EXCEPT !.rf = <<Enum(<<E("t", "?", "n", ""), E("u", "?", "n", "")>>)>>])>>,
           <<[O(<<M("b", "", P("bool", "v", 2))>>) EXCEPT !.rf = <<Enum(<<E("t", "", "v", "r2")>>)>>],
             [NoObj EXCEPT !.rf = <<Enum(<<E("u", "", "v", "r1")>>)>>]>>)
CList1 == L("CList", <<DefA(O(<<M("a", "", P("str", "v", 1)), M("o", "", P("int", "v", 1)), M("c", "", L("CilDef", <<DefA(O(<<M("x", "", P("ia", "v", 1))>>))>>, <<>>))>>))>>,
            <<O(<<M("a", "", P("str", "v", 2)), M("c", "", L("Cil", <<>>, <<O(<<>>), O(<<M("x", "", P("ia", "v", 2))>>)>>))>>), O(<<>>)>>)
=============================================================================
