---------------------------- MODULE HistoryNames ----------------------------
(* Names of history files: every metadata record has a name of its own. Each record  *)
(* is printed with its name, and the implementation is asked to convert it back.     *)
EXTENDS History, Json

Nums == {0, 1, 9, 10, 12345678, 99999999, 100000000, 999999999, 1000000000, 2147483647}
Few == {0, 10, 99999999, 100000000}
Tags == {<<>>, <<"">>, <<"t">>, <<"_1_2">>, <<"(3)">>, <<"a b.his">>, <<"()">>}
Orders == {<<a>> : a \in Nums} \cup {<<a, b>> : a \in Few, b \in Nums} \cup {<<a, b, c>> : a \in {0, 7}, b \in {0, 123}, c \in Few}
Metas == [ctl : Few, prev : Few, order : Orders, tag : Tags] \cup [ctl : Nums, prev : Nums, order : {<<0>>, <<3, 1>>}, tag : {<<>>, <<"x">>}]

VARIABLES m, out
Init == m \in Metas /\ out = ""
Next == out = "" /\ out' = NameOf(m) /\ UNCHANGED m
        /\ PrintT("NAME " \o ToJson([ctl |-> m.ctl, prev |-> m.prev, order |-> m.order, tag |-> m.tag, name |-> NameOf(m)]))
Spec == Init /\ [][Next]_<<m, out>>
\* no two records share a name
Unique == m = (CHOOSE x \in Metas : TRUE) => Cardinality({NameOf(x) : x \in Metas}) = Cardinality(Metas)
=============================================================================
