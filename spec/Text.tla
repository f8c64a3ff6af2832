-------------------------------- MODULE Text --------------------------------
(* Two text forms: bytes as URL-safe characters (six bits each), and lists of      *)
(* strings where those that look like decimal numbers are stored as numbers.       *)
EXTENDS Naturals, Sequences, SequencesExt, Functions, Json, TLC

CONSTANTS Kind,     \* "url" or "str"
          Alphabet, \* byte values, or characters
          MaxLen,
          Emit      \* "every", "last", "none"

\* ---------------------------------------------------------------- six-bit characters
RECURSIVE Bits(_, _)
Bits(v, n) == IF n = 0 THEN <<>> ELSE Append(Bits(v \div 2, n - 1), v % 2)
RECURSIVE UnBits(_)
UnBits(b) == IF b = <<>> THEN 0 ELSE 2 * UnBits(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
AllBits(w, n) == FoldLeft(LAMBDA acc, x : acc \o Bits(x, n), <<>>, w)
At(b, p) == IF p <= Len(b) THEN b[p] ELSE 0
Group(b, n, count) == TLCEval([i \in 1..count |-> UnBits([j \in 1..n |-> At(b, (i - 1) * n + j)])])

ToSix(bytes) == LET b == TLCEval(AllBits(bytes, 8)) IN Group(b, 6, (Len(b) + 5) \div 6)
\* left-over bits that do not make up a byte are padding
FromSix(six) == LET b == TLCEval(AllBits(six, 6)) IN Group(b, 8, Len(b) \div 8)

\* ---------------------------------------------------------------- numbers in strings
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Pos(t, ch) == LET p == {i \in 1..Len(t) : t[i] = ch} IN IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : i <= j

\* exactly the strings that the number form gives back unchanged: an optional sign, an integer part
\* without superfluous zeros, optionally a point and at least one digit; not minus zero
Canonical(t) ==
  LET neg == Len(t) > 0 /\ t[1] = "-"
      u == IF neg THEN Tail(t) ELSE t
      d == Pos(u, ".")
      ip == IF d = 0 THEN u ELSE SubSeq(u, 1, d - 1)
      fp == IF d = 0 THEN <<>> ELSE SubSeq(u, d + 1, Len(u))
  IN /\ Len(ip) > 0
     /\ \A i \in 1..Len(ip) : ip[i] \in Digits
     /\ \A i \in 1..Len(fp) : fp[i] \in Digits
     /\ Len(ip) > 1 => ip[1] # "0"
     /\ d # 0 => Len(fp) > 0
     /\ neg => \E i \in 1..Len(ip \o fp) : (ip \o fp)[i] # "0"

RECURSIVE DropZeros(_)
DropZeros(t) == IF Len(t) > 1 /\ t[1] = "0" THEN DropZeros(Tail(t)) ELSE t
Zeros(n) == [i \in 1..n |-> "0"]

\* a number: sign, digits of the integer without the point, number of digits after the point
Number(t) ==
  LET neg == t[1] = "-"
      u == IF neg THEN Tail(t) ELSE t
      d == Pos(u, ".")
  IN [neg |-> neg, dot |-> IF d = 0 THEN 0 ELSE Len(u) - d,
      dig |-> DropZeros(IF d = 0 THEN u ELSE SubSeq(u, 1, d - 1) \o SubSeq(u, d + 1, Len(u)))]
Show(n) ==
  LET pad == IF n.dot >= Len(n.dig) THEN Zeros(n.dot + 1 - Len(n.dig)) \o n.dig ELSE n.dig
      u == IF n.dot = 0 THEN pad ELSE SubSeq(pad, 1, Len(pad) - n.dot) \o <<".">> \o SubSeq(pad, Len(pad) - n.dot + 1, Len(pad))
  IN IF n.neg THEN <<"-">> \o u ELSE u

---------------------------------------------------------------------------
VARIABLE s
Out(t) == IF Kind = "url" THEN PrintT("TRACE " \o ToJson([s |-> t, x |-> ToSix(t)]))
          ELSE PrintT("TRACE " \o ToJson([s |-> t, x |-> IF Canonical(t) THEN <<Number(t).dig, Number(t).dot>> ELSE <<>>]))
Add(x) == LET t == Append(s, x)
          IN /\ Len(s) < MaxLen
             /\ s' = t
             /\ Emit = "every" \/ (Emit = "last" /\ Len(t) = MaxLen) => Out(t)
Init == s = <<>>
Next == \E x \in Alphabet : Add(x)
RNext == \E x \in {RandomElement(IF Len(s) >= 0 THEN Alphabet ELSE {})} : Add(x)
Spec == Init /\ [][Next]_s
RSpec == Init /\ [][RNext]_s

UrlExact == Kind = "url" => LET x == ToSix(s) IN /\ FromSix(x) = s
                                                /\ \A i \in 1..Len(x) : x[i] \in 0..63
NumberExact == Kind = "str" /\ Canonical(s) => Show(Number(s)) = s
\* nothing else may be stored as a number: show some number that a non-canonical string would collide with
OnlyCanonical == Kind = "str" /\ Canonical(s) => Canonical(Show(Number(s)))
=============================================================================
