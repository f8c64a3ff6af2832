-------------------------------- MODULE Json5 --------------------------------
(* The text form of sources: JSON5 with the three additions of this system          *)
(* (undefined, the sign @ in identifiers, and ! ? after an identifier).             *)
(* A text is a sequence of code points. Parse(t) is the value of the text or Bad.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bad == [k |-> "bad"]
Ch(t, p) == IF p <= Len(t) THEN t[p] ELSE -1
Done(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Fail == [ok |-> FALSE]

\* ---------------------------------------------------------------- characters
LineEnds == {10, 13, 8232, 8233}
Zs == {32, 160, 5760, 8239, 8287, 12288} \cup 8192..8202
Space == {9, 11, 12, 65279} \cup LineEnds \cup Zs
Digit == 48..57
HexDigit == Digit \cup 65..70 \cup 97..102
\* of the characters beyond ASCII, a few of every class
Letter == 65..90 \cup 97..122 \cup {170, 181, 186} \cup (192..255 \ {215, 247}) \cup {453, 688, 12354, 8551, 67840}    \* Lu Ll, Lt Lm Lo Nl
Mark == {769, 2307}                                                      \* Mn Mc
OtherDigit == {1632, 2406}                                               \* Nd
Connector == {95, 8255}                                                  \* Pc
Joiner == {8204, 8205}
IdStart == Letter \cup {36, 95, 64}
IdPart == IdStart \cup Mark \cup Digit \cup OtherDigit \cup Connector \cup Joiner
\* characters that are part of no class above
Odd == {0, 8, 26, 28, 31, 33, 34, 35, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 63, 91, 92, 93, 94, 96, 123, 124, 125, 126, 127, 133,
        168, 178, 183, 6158, 8203, 8288, 65533, 65535, 128512, 1114111}
Known == 0..255 \cup Space \cup IdPart \cup Odd \cup 55296..57343

HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Four(t, p) == ((HexVal(t[p]) * 16 + HexVal(t[p + 1])) * 16 + HexVal(t[p + 2])) * 16 + HexVal(t[p + 3])
AllHex(t, p, n) == \A i \in 0..(n - 1) : Ch(t, p + i) \in HexDigit

\* the classes of the characters of a text, also of the escaped ones, are known
Sure(t) == \A p \in 1..Len(t) : /\ t[p] \in Known
                                /\ t[p] = 92 /\ Ch(t, p + 1) = 117 /\ AllHex(t, p + 2, 4) => Four(t, p + 2) \in Known

\* ---------------------------------------------------------------- between tokens
RECURSIVE LineEnd(_, _), BlockEnd(_, _), Skip(_, _)
LineEnd(t, p) == IF p > Len(t) \/ Ch(t, p) \in LineEnds THEN p ELSE LineEnd(t, p + 1)
BlockEnd(t, p) == IF p + 1 > Len(t) THEN 0 ELSE IF t[p] = 42 /\ t[p + 1] = 47 THEN p + 2 ELSE BlockEnd(t, p + 1)
Skip(t, p) ==
  IF Ch(t, p) \in Space THEN Skip(t, p + 1)
  ELSE IF Ch(t, p) = 47 /\ Ch(t, p + 1) = 47 THEN Skip(t, LineEnd(t, p + 2))
  ELSE IF Ch(t, p) = 47 /\ Ch(t, p + 1) = 42 /\ BlockEnd(t, p + 2) # 0 THEN Skip(t, BlockEnd(t, p + 2))
  ELSE p

\* ---------------------------------------------------------------- numbers
\* neg, digits of the integer and of the fraction, exponent; real: written with a point or an exponent
Num(neg, base, i, f, en, e, real) == [k |-> "num", neg |-> neg, base |-> base, i |-> i, f |-> f, en |-> en, e |-> e, real |-> real]
RECURSIVE RunEnd(_, _, _)
RunEnd(t, p, S) == IF Ch(t, p) \in S THEN RunEnd(t, p + 1, S) ELSE p
Vals(t, a, b) == [j \in 1..(b - a) |-> HexVal(t[a + j - 1])]
Word(t, p, w) == p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w
Exponent(t, p) ==      \* [en, e, p]: an exponent that starts at p, if there is one
  LET s == Ch(t, p + 1) \in {43, 45}
      a == IF s THEN p + 2 ELSE p + 1
      b == RunEnd(t, a, Digit)
  IN IF Ch(t, p) \in {69, 101} /\ b > a THEN [en |-> Ch(t, p + 1) = 45, e |-> Vals(t, a, b), p |-> b]
     ELSE [en |-> FALSE, e |-> <<>>, p |-> p]
Number(t, p0) ==
  LET neg == Ch(t, p0) = 45
      p == IF Ch(t, p0) \in {43, 45} THEN p0 + 1 ELSE p0
      hb == RunEnd(t, p + 2, HexDigit)
      ib == IF Ch(t, p) = 48 THEN p + 1 ELSE RunEnd(t, p, Digit)
      point == Ch(t, ib) = 46
      fb == IF point THEN RunEnd(t, ib + 1, Digit) ELSE ib
      x == Exponent(t, fb)
  IN IF Word(t, p, <<73, 110, 102, 105, 110, 105, 116, 121>>) THEN Done([k |-> "inf", neg |-> neg], p + 8)
     ELSE IF Word(t, p, <<78, 97, 78>>) THEN Done([k |-> "nan"], p + 3)
     ELSE IF Ch(t, p) = 48 /\ Ch(t, p + 1) \in {88, 120} /\ hb > p + 2 THEN Done(Num(neg, 16, Vals(t, p + 2, hb), <<>>, FALSE, <<>>, FALSE), hb)
     ELSE IF ib = p /\ fb <= ib + 1 THEN Fail
     ELSE Done(Num(neg, 10, Vals(t, p, ib), IF point THEN Vals(t, ib + 1, fb) ELSE <<>>, x.en, x.e, point \/ x.p > fb), x.p)

\* ---------------------------------------------------------------- strings
\* a string is a sequence of UTF-16 units while it is read; a unit pair makes one character, and a
\* single surrogate is no character
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
RECURSIVE Chars(_, _)
Chars(u, p) ==         \* code points of the units from p on, -1 where there is none
  IF p > Len(u) THEN <<>>
  ELSE IF High(u[p]) /\ p < Len(u) /\ Low(u[p + 1]) THEN <<65536 + (u[p] - 55296) * 1024 + (u[p + 1] - 56320)>> \o Chars(u, p + 2)
  ELSE <<IF High(u[p]) \/ Low(u[p]) THEN -1 ELSE u[p]>> \o Chars(u, p + 1)
Str(u) == LET c == Chars(u, 1) IN IF \E i \in 1..Len(c) : c[i] = -1 THEN Bad ELSE [k |-> "str", v |-> c]

Single == [c \in {98, 102, 110, 114, 116, 118} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11]
RECURSIVE Quoted(_, _, _, _)
Quoted(t, p, q, u) ==
  LET c == Ch(t, p)
      d == Ch(t, p + 1)
  IN IF c = -1 \/ c \in {10, 13} THEN Fail
     ELSE IF c = q THEN (IF Str(u) = Bad THEN Fail ELSE Done(Str(u), p + 1))
     ELSE IF c # 92 THEN Quoted(t, p + 1, q, u \o Units(c))
     ELSE IF d = -1 THEN Fail
     ELSE IF d = 13 /\ Ch(t, p + 2) = 10 THEN Quoted(t, p + 3, q, u)
     ELSE IF d \in LineEnds THEN Quoted(t, p + 2, q, u)
     ELSE IF d = 117 THEN (IF AllHex(t, p + 2, 4) THEN Quoted(t, p + 6, q, Append(u, Four(t, p + 2))) ELSE Fail)
     ELSE IF d = 120 THEN (IF AllHex(t, p + 2, 2) THEN Quoted(t, p + 4, q, Append(u, HexVal(t[p + 2]) * 16 + HexVal(t[p + 3]))) ELSE Fail)
     ELSE IF d = 48 THEN (IF Ch(t, p + 2) \in Digit THEN Fail ELSE Quoted(t, p + 2, q, Append(u, 0)))
     ELSE IF d \in Digit THEN Fail
     ELSE Quoted(t, p + 2, q, u \o (IF d \in DOMAIN Single THEN <<Single[d]>> ELSE Units(d)))

\* ---------------------------------------------------------------- names of members
RECURSIVE Ident(_, _, _)
Ident(t, p, acc) ==
  LET set == IF acc = <<>> THEN IdStart ELSE IdPart
  IN IF Ch(t, p) \in set THEN Ident(t, p + 1, Append(acc, t[p]))
     ELSE IF Ch(t, p) = 92 THEN
       (IF Ch(t, p + 1) = 117 /\ AllHex(t, p + 2, 4) /\ Four(t, p + 2) \in set THEN Ident(t, p + 6, Append(acc, Four(t, p + 2))) ELSE Fail)
     ELSE IF acc = <<>> THEN Fail
     ELSE LET a == IF Ch(t, p) = 33 THEN p + 1 ELSE p
              b == IF Ch(t, a) = 63 THEN a + 1 ELSE a
          IN Done([k |-> "str", v |-> acc \o SubSeq(t, p, b - 1)], b)
Key(t, p) == IF Ch(t, p) \in {34, 39} THEN Quoted(t, p + 1, t[p], <<>>) ELSE Ident(t, p, <<>>)

\* ---------------------------------------------------------------- values
RECURSIVE Value(_, _), Items(_, _, _), Pairs(_, _, _)
Value(t, p) ==
  LET c == Ch(t, p) IN
  IF Word(t, p, <<110, 117, 108, 108>>) THEN Done([k |-> "null"], p + 4)
  ELSE IF Word(t, p, <<117, 110, 100, 101, 102, 105, 110, 101, 100>>) THEN Done([k |-> "undef"], p + 9)
  ELSE IF Word(t, p, <<116, 114, 117, 101>>) THEN Done([k |-> "bool", v |-> TRUE], p + 4)
  ELSE IF Word(t, p, <<102, 97, 108, 115, 101>>) THEN Done([k |-> "bool", v |-> FALSE], p + 5)
  ELSE IF c \in {34, 39} THEN Quoted(t, p + 1, c, <<>>)
  ELSE IF c = 91 THEN Items(t, Skip(t, p + 1), <<>>)
  ELSE IF c = 123 THEN Pairs(t, Skip(t, p + 1), <<>>)
  ELSE Number(t, p)
\* p is at the first character of an item or at the closing bracket
Items(t, p, acc) ==
  IF Ch(t, p) = 93 THEN Done([k |-> "arr", v |-> acc], p + 1)
  ELSE LET r == Value(t, p) IN
       IF ~r.ok THEN Fail
       ELSE LET e == Skip(t, r.p) IN
            IF Ch(t, e) = 44 THEN Items(t, Skip(t, e + 1), Append(acc, r.v))
            ELSE IF Ch(t, e) = 93 THEN Done([k |-> "arr", v |-> Append(acc, r.v)], e + 1)
            ELSE Fail
Pairs(t, p, acc) ==
  IF Ch(t, p) = 125 THEN Done([k |-> "obj", v |-> acc], p + 1)
  ELSE LET n == Key(t, p) IN
       IF ~n.ok \/ (\E i \in 1..Len(acc) : acc[i].n = n.v.v) THEN Fail
       ELSE LET e == Skip(t, n.p) IN
            IF Ch(t, e) # 58 THEN Fail
            ELSE LET r == Value(t, Skip(t, e + 1)) IN
                 IF ~r.ok THEN Fail
                 ELSE LET g == Skip(t, r.p)
                          more == Append(acc, [n |-> n.v.v, v |-> r.v])
                      IN IF Ch(t, g) = 44 THEN Pairs(t, Skip(t, g + 1), more)
                         ELSE IF Ch(t, g) = 125 THEN Done([k |-> "obj", v |-> more], g + 1)
                         ELSE Fail
Parse(t) == LET r == Value(t, Skip(t, 1)) IN IF r.ok /\ Skip(t, r.p) > Len(t) THEN r.v ELSE Bad
=============================================================================
