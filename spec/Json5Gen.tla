------------------------------- MODULE Json5Gen ------------------------------
(* Texts derived from the grammar together with their values, and single-character   *)
(* corruptions of them. A derivation works off a stack of symbols: it writes text    *)
(* and builds the value; what it builds must be what Parse says.                     *)
EXTENDS Json5, Json, TLC

CONSTANTS Small,    \* few choices, for exhaustive derivation
          Depth, Items_, Chars_, Budget, Corruptions
VARIABLES txt, todo, vals, left, cor

vars == <<txt, todo, vals, left, cor>>
T(x) == <<"T", x>>
Pick(S) == IF Small THEN S ELSE {RandomElement(IF left < -100000 THEN {} ELSE S)}

\* ---------------------------------------------------------------- choices
Spaces == IF Small THEN {<<>>, <<32>>}
          ELSE {<<>>, <<32>>, <<9, 10>>, <<13, 10>>, <<160>>, <<65279>>, <<8233>>, <<12288, 11>>, <<12>>,
                <<47, 47, 97, 34, 10>>, <<47, 47, 8232>>, <<47, 42, 42, 47>>, <<47, 42, 93, 10, 42, 42, 47, 32>>, <<47, 42, 47, 42, 47>>}
Signs == IF Small THEN {<<>>, <<45>>} ELSE {<<>>, <<45>>, <<43>>}
Ints == IF Small THEN {<<0>>, <<1, 0>>}
        ELSE {<<0>>, <<1>>, <<7>>, <<9, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>, <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 3>>,
              <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>, <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>,
              <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>}
Hexes == IF Small THEN {<<10>>}
         ELSE {<<0>>, <<15>>, <<14, 5>>, <<0, 0, 1, 0>>, <<15, 15, 15, 15, 15, 15, 15, 15>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<10, 11, 12, 13, 14, 15, 1, 2, 3, 4>>,
               <<7, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>, <<8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>}
Fracs == IF Small THEN {<<>>, <<5>>} ELSE {<<>>, <<0>>, <<5>>, <<2, 5>>, <<1>>, <<0, 0, 1>>, <<3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3>>}
Exps == IF Small THEN {<<0>>} ELSE {<<0>>, <<1>>, <<0, 5>>, <<1, 0>>, <<2, 2>>, <<2, 3>>, <<3, 0, 0>>, <<3, 0, 8>>, <<3, 0, 9>>, <<3, 2, 4>>, <<4, 0, 0>>}
Kinds == {"int", "hex", "point", "fraction", "exp", "expp", "inf", "nan"}
DigitText(d) == [i \in 1..Len(d) |-> IF d[i] < 10 THEN 48 + d[i] ELSE IF d[i] % 2 = 0 THEN 55 + d[i] ELSE 87 + d[i]]
Pieces ==     \* pieces of a string: text and UTF-16 units
  LET raw == {[t |-> <<c>>, u |-> Units(c)] : c \in IF Small THEN {97, 48} ELSE {97, 48, 32, 9, 0, 34, 39, 47, 42, 233, 8232, 8233, 12354, 128512, 120, 65533}}
      esc == {[t |-> <<92, c>>, u |-> <<Single[c]>>] : c \in IF Small THEN {110} ELSE DOMAIN Single}
      self == {[t |-> <<92>> \o <<c>>, u |-> Units(c)] : c \in IF Small THEN {92} ELSE {34, 39, 92, 47, 97, 233, 128512, 65, 32, 123}}
      nul == {[t |-> <<92, 48>>, u |-> <<0>>]}
      hex == {[t |-> <<92, 120, 52, 49>>, u |-> <<65>>]} \cup (IF Small THEN {} ELSE {[t |-> <<92, 120, 70, 102>>, u |-> <<255>>], [t |-> <<92, 120, 48, 48>>, u |-> <<0>>]})
      uni == {[t |-> <<92, 117, 48, 48, 54, 49>>, u |-> <<97>>]} \cup
             (IF Small THEN {} ELSE {[t |-> <<92, 117, 68, 56, 51, 68, 92, 117, 100, 101, 48, 48>>, u |-> <<55357, 56832>>], [t |-> <<92, 117, 50, 48, 50, 56>>, u |-> <<8232>>],
                                     [t |-> <<92, 117, 102, 102, 102, 102>>, u |-> <<65535>>], [t |-> <<92, 117, 48, 48, 48, 97>>, u |-> <<10>>]})
      cont == {[t |-> <<92, 10>>, u |-> <<>>]} \cup (IF Small THEN {} ELSE {[t |-> <<92, 13, 10>>, u |-> <<>>], [t |-> <<92, 13>>, u |-> <<>>], [t |-> <<92, 8232>>, u |-> <<>>]})
  IN raw \cup esc \cup self \cup nul \cup hex \cup uni \cup cont
Keys ==
  {[t |-> <<97>>, n |-> <<97>>], [t |-> <<34, 98, 34>>, n |-> <<98>>]} \cup
  (IF Small THEN {} ELSE
   {[t |-> <<64, 97, 49>>, n |-> <<64, 97, 49>>], [t |-> <<36, 95>>, n |-> <<36, 95>>], [t |-> <<97, 33>>, n |-> <<97, 33>>], [t |-> <<97, 63>>, n |-> <<97, 63>>],
    [t |-> <<97, 33, 63>>, n |-> <<97, 33, 63>>], [t |-> <<110, 117, 108, 108>>, n |-> <<110, 117, 108, 108>>], [t |-> <<233, 769, 1632>>, n |-> <<233, 769, 1632>>],
    [t |-> <<12354, 2307, 8205>>, n |-> <<12354, 2307, 8205>>], [t |-> <<92, 117, 48, 48, 54, 52, 101>>, n |-> <<100, 101>>], [t |-> <<34, 34>>, n |-> <<>>],
    [t |-> <<39, 92, 110, 34, 39>>, n |-> <<10, 34>>], [t |-> <<34, 92, 117, 48, 48, 54, 49, 97, 34>>, n |-> <<97, 97>>], [t |-> <<39, 32, 58, 39>>, n |-> <<32, 58>>],
    [t |-> <<453, 8551>>, n |-> <<453, 8551>>], [t |-> <<67840>>, n |-> <<67840>>]})

\* ---------------------------------------------------------------- derivation
Rest == Tail(todo)
Go(t, syms, vs) == /\ txt' = txt \o t
                   /\ todo' = syms \o Rest
                   /\ vals' = vs
                   /\ left' = left - 1
                   /\ UNCHANGED cor
Push(v) == Append(vals, v)
Sp == <<"S">>
NumText ==
  \E g \in Pick(Signs), kind \in Pick(Kinds), i \in Pick(Ints), h \in Pick(Hexes), f \in Pick(Fracs), x \in Pick(Exps), xs \in Pick(Signs), up \in Pick({0, 32}) :
     LET neg == g = <<45>>
         e == IF kind \in {"exp", "expp"} THEN <<101 - up>> \o xs \o DigitText(x) ELSE <<>>
         en == e # <<>> /\ xs = <<45>>
         ex == IF e = <<>> THEN <<>> ELSE x
     IN CASE kind = "int" -> Go(g \o DigitText(i), <<>>, Push(Num(neg, 10, i, <<>>, FALSE, <<>>, FALSE)))
          [] kind = "hex" -> Go(g \o <<48, 120 - up>> \o DigitText(h), <<>>, Push(Num(neg, 16, h, <<>>, FALSE, <<>>, FALSE)))
          [] kind = "exp" -> Go(g \o DigitText(i) \o e, <<>>, Push(Num(neg, 10, i, <<>>, en, ex, TRUE)))
          [] kind \in {"point", "expp"} -> Go(g \o DigitText(i) \o <<46>> \o DigitText(f) \o e, <<>>, Push(Num(neg, 10, i, f, en, ex, TRUE)))
          [] kind = "fraction" -> IF f = <<>> THEN Go(g \o DigitText(i) \o <<46>>, <<>>, Push(Num(neg, 10, i, f, FALSE, <<>>, TRUE)))
                                  ELSE Go(g \o <<46>> \o DigitText(f), <<>>, Push(Num(neg, 10, <<>>, f, FALSE, <<>>, TRUE)))
          [] kind = "inf" -> Go(g \o <<73, 110, 102, 105, 110, 105, 116, 121>>, <<>>, Push([k |-> "inf", neg |-> neg]))
          [] kind = "nan" -> Go(g \o <<78, 97, 78>>, <<>>, Push([k |-> "nan"]))

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE x \o Rep(x, n - 1)
StrText == \E q \in Pick({34, 39}), n \in Pick(0..Chars_) : Go(<<q>>, Rep(<<<<"C", q>>>>, n) \o <<T(<<q>>), <<"STR">>>>, Push(<<>>))
Piece(q) ==
  LET afterNul == Len(txt) > 1 /\ txt[Len(txt)] = 48 /\ txt[Len(txt) - 1] = 92
      S == {p \in Pieces : p.t # <<q>> /\ ~(afterNul /\ p.t[1] \in Digit)}
  IN \E p \in Pick(S) : Go(p.t, <<>>, [vals EXCEPT ![Len(vals)] = @ \o p.u])

Trail(n) == IF n = 0 THEN {<<>>} ELSE {<<>>, <<T(<<44>>), Sp>>}
ArrText(d) == \E n \in Pick(0..Items_) : \E tr \in Pick(Trail(n)) :
  LET item == <<<<"V", d - 1>>, Sp>>
  IN Go(<<91>>, <<Sp>> \o (IF n = 0 THEN <<>> ELSE item \o Rep(<<T(<<44>>), Sp>> \o item, n - 1)) \o tr \o <<T(<<93>>), <<"ARR", n>>>>, vals)
ObjText(d) == \E n \in Pick(0..Items_) : \E tr \in Pick(Trail(n)) :
  LET item == <<<<"K">>, Sp, T(<<58>>), Sp, <<"V", d - 1>>, <<"PAIR">>, Sp>>
  IN Go(<<123>>, <<Sp>> \o (IF n = 0 THEN <<>> ELSE item \o Rep(<<T(<<44>>), Sp>> \o item, n - 1)) \o tr \o <<T(<<125>>), <<"OBJ">>>>, Push([k |-> "obj", v |-> <<>>]))
\* the object under construction is below the values of its unfinished pair
KeyText == LET o == vals[Len(vals)]
               S == {x \in Keys : \A i \in 1..Len(o.v) : o.v[i].n # x.n}
           IN IF S = {} THEN Go(<<113>> \o DigitText(<<Len(o.v)>>), <<>>, Push(<<113, 48 + Len(o.v)>>))
              ELSE \E x \in Pick(S) : Go(x.t, <<>>, Push(x.n))
Pair == LET n == Len(vals)
        IN Go(<<>>, <<>>, Append(SubSeq(vals, 1, n - 3), [vals[n - 2] EXCEPT !.v = Append(@, [n |-> vals[n - 1], v |-> vals[n]])]))

ValueText(d) ==
  \E kind \in Pick({"null", "undef", "bool", "num", "str"} \cup (IF d > 0 /\ left > 0 THEN {"arr", "obj"} ELSE {})) :
    CASE kind = "null" -> Go(<<110, 117, 108, 108>>, <<>>, Push([k |-> "null"]))
      [] kind = "undef" -> Go(<<117, 110, 100, 101, 102, 105, 110, 101, 100>>, <<>>, Push([k |-> "undef"]))
      [] kind = "bool" -> \E b \in Pick({TRUE, FALSE}) :
                            Go(IF b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>, <<>>, Push([k |-> "bool", v |-> b]))
      [] kind = "num" -> NumText
      [] kind = "str" -> StrText
      [] kind = "arr" -> ArrText(d)
      [] kind = "obj" -> ObjText(d)

Step ==
  LET x == todo[1]
      n == Len(vals)
  IN CASE x[1] = "V" -> ValueText(x[2])
       [] x[1] = "S" -> \E w \in Pick(Spaces) : Go(w, <<>>, vals)
       [] x[1] = "T" -> Go(x[2], <<>>, vals)
       [] x[1] = "C" -> Piece(x[2])
       [] x[1] = "STR" -> Go(<<>>, <<>>, [vals EXCEPT ![n] = Str(@)])
       [] x[1] = "ARR" -> Go(<<>>, <<>>, Append(SubSeq(vals, 1, n - x[2]), [k |-> "arr", v |-> SubSeq(vals, n - x[2] + 1, n)]))
       [] x[1] = "K" -> KeyText
       [] x[1] = "PAIR" -> Pair
       [] x[1] = "OBJ" -> Go(<<>>, <<>>, vals)

Finished == todo = <<>>
Out(t, v) == PrintT("TRACE " \o ToJson(IF v = Bad THEN [t |-> t] ELSE [t |-> t, v |-> v]))
Derive == /\ ~Finished
          /\ Step
          /\ todo' = <<>> => Out(txt', vals'[1])

Corrupt ==
  /\ Finished
  /\ cor < Corruptions
  /\ cor' = cor + 1
  /\ UNCHANGED <<txt, todo, vals, left>>
  /\ \E kind \in {RandomElement(IF cor < 0 THEN {} ELSE {"del", "ins", "rep", "swap"})},
        p \in {RandomElement(IF cor < 0 THEN {} ELSE 1..Len(txt))},
        c \in {RandomElement(IF cor < 0 THEN {} ELSE {48, 49, 57, 97, 101, 102, 120, 117, 10, 13, 32, 8232} \cup Odd \cup {txt[i] : i \in 1..Len(txt)})} :
       LET a == SubSeq(txt, 1, p - 1)
           b == SubSeq(txt, p + 1, Len(txt))
           t == TLCEval(CASE kind = "del" -> a \o b
                          [] kind = "ins" -> a \o <<c>> \o SubSeq(txt, p, Len(txt))
                          [] kind = "rep" -> a \o <<c>> \o b
                          [] kind = "swap" -> IF b = <<>> THEN a ELSE a \o <<b[1], txt[p]>> \o Tail(b))
       IN Sure(t) => Out(t, Parse(t))

Init == /\ txt = <<>>
        /\ todo = <<Sp, <<"V", Depth>>, Sp>>
        /\ vals = <<>>
        /\ left = Budget
        /\ cor = 0
Next == Derive \/ Corrupt
Spec == Init /\ [][Next]_vars

\* the two definitions of the language agree
Agree == Finished => Parse(txt) = vals[1]
InUniverse == Finished => Sure(txt)
=============================================================================
