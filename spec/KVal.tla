-------------------------------- MODULE KVal --------------------------------
(* The binary form of a sequence of values: a count, the number of tag bytes, the *)
(* tags (a prefix code, one bit after the other) and the data bytes. Encode writes *)
(* it, Decode reads it from the front of a longer byte sequence or fails.          *)
(* Integers are a sign and little-endian magnitude bytes (TLC has 32-bit numbers); *)
(* a negative v has the magnitude -(v+1).                                          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Functions, Json, TLC

CONSTANTS MaxLen,   \* longest sequence
          PoolName, \* "small", "all", "big"
          Emit      \* "every": print every sequence; "last": only those of length MaxLen; "none"

Rep(n, x) == [i \in 1..n |-> x]
Text(n) == [i \in 1..n |-> 97 + (i % 26)]
Blob(n, k) == [i \in 1..n |-> (i * k + n) % 256]

---------------------------------------------------------------------------
\* variable-length integers
VarInt(neg, m) ==
  LET b == IF m = <<>> THEN <<0>> ELSE m
      c == IF b[Len(b)] >= 128 THEN Append(b, 0) ELSE b
  IN IF neg THEN [c EXCEPT ![Len(c)] = @ + 128] ELSE c

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m
UnVar(c) == LET last == c[Len(c)]
            IN [neg |-> last >= 128, m |-> Strip([c EXCEPT ![Len(c)] = @ % 128])]

RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatMag(n \div 256)
RECURSIVE MagNat(_)
MagNat(m) == IF m = <<>> THEN 0 ELSE m[1] + 256 * MagNat(Tail(m))
VarNat(n) == VarInt(FALSE, NatMag(n))
Field(n) == <<Len(VarNat(n))>> \o VarNat(n)

\* bits, most significant first
RECURSIVE Bits(_, _)
Bits(v, n) == IF n = 0 THEN <<>> ELSE Append(Bits(v \div 2, n - 1), v % 2)
RECURSIVE UnBits(_)
UnBits(b) == IF b = <<>> THEN 0 ELSE 2 * UnBits(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Pack(bits) == [i \in 1..((Len(bits) + 7) \div 8) |->
                 UnBits([j \in 1..8 |-> LET p == (i - 1) * 8 + j IN IF p <= Len(bits) THEN bits[p] ELSE 0])]
Unpack(bytes) == FoldLeft(LAMBDA acc, x : acc \o Bits(x, 8), <<>>, bytes)

---------------------------------------------------------------------------
B2N(b) == IF b THEN 1 ELSE 0
Words(v) == v.k \in {"Binary8", "Binary4", "Binary2"}
Width(k) == CASE k = "Binary8" -> 8 [] k = "Binary4" -> 4 [] k = "Binary2" -> 2 [] OTHER -> 1
\* b is the flat data of a blob
LenBytes(v) == VarNat(Len(v.b) \div Width(v.k))

Tag(v) ==
  CASE v.k = "Null"      -> <<0,1,0,0,1>>
    [] v.k = "Bit"       -> <<1, B2N(v.v)>>
    [] v.k = "Bool"      -> <<0,1,0,0,0,1, B2N(v.v)>>
    [] v.k = "Byte"      -> <<0,1,1>>
    [] v.k = "Str16"     -> <<0,1,0,1>> \o Bits(Len(v.b), 4)
    [] v.k = "Decimal"   -> <<0,1,0,0,0,0,1>> \o Bits(Len(VarInt(v.neg, v.m)) - 1, 4)
    [] v.k = "Int"       -> <<0,0,1,1>> \o Bits(Len(VarInt(v.neg, v.m)) - 1, 3)
    [] v.k = "Str256"    -> <<0,0,1,0,1>>
    [] v.k = "Double"    -> <<0,0,1,0,0,1>>
    [] v.k = "BigStr"    -> <<0,0,1,0,0,0,1>> \o Bits(Len(LenBytes(v)) - 1, 3)
    [] v.k = "Float"     -> <<0,0,1,0,0,0,0,1>>
    [] v.k = "Binary"    -> <<0,0,0,1,1>> \o Bits(Len(LenBytes(v)) - 1, 3)
    [] v.k = "Binary8"   -> <<0,0,0,1,0,1>> \o Bits(Len(LenBytes(v)) - 1, 3)
    [] v.k = "Binary4"   -> <<0,0,0,1,0,0,1>> \o Bits(Len(LenBytes(v)) - 1, 3)
    [] v.k = "Binary2"   -> <<0,0,0,1,0,0,0,1>> \o Bits(Len(LenBytes(v)) - 1, 3)
    [] v.k = "Undefined" -> <<0,0,0,0,1>> \o Rep(v.v, 0) \o <<1>>

Data(v) ==
  CASE v.k \in {"Null", "Bit", "Bool", "Undefined"} -> <<>>
    [] v.k = "Byte" -> <<v.v>>
    [] v.k \in {"Str16", "Double", "Float"} -> v.b
    [] v.k = "Decimal" -> Append(VarInt(v.neg, v.m), v.dot)
    [] v.k = "Int" -> VarInt(v.neg, v.m)
    [] v.k = "Str256" -> <<Len(v.b)>> \o v.b
    [] OTHER -> LenBytes(v) \o v.b

Encode(s) ==
  LET tags == Pack(FoldLeft(LAMBDA acc, v : acc \o Tag(v), <<>>, s))
  IN Field(Len(s)) \o Field(Len(tags)) \o tags \o FoldLeft(LAMBDA acc, v : acc \o Data(v), <<>>, s)

---------------------------------------------------------------------------
\* reading; every reader returns [ok, v, p] where p is the next position
Fail == [ok |-> FALSE]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Take(b, p, n) == IF p + n - 1 <= Len(b) THEN Ok(SubSeq(b, p, p + n - 1), p + n) ELSE Fail

\* zeros before the next one
RECURSIVE Zeros(_, _)
Zeros(t, p) == IF p > Len(t) THEN Fail ELSE IF t[p] = 1 THEN Ok(0, p + 1)
               ELSE LET r == Zeros(t, p + 1) IN IF r.ok THEN Ok(r.v + 1, r.p) ELSE Fail
WithBits(t, p, n, k) == LET r == Take(t, p, n) IN IF r.ok THEN Ok([k |-> k, n |-> UnBits(r.v)], r.p) ELSE Fail

Kinds1 == <<"Byte", "Str16", "Null", "Bool", "Decimal">>
Kinds2 == <<"Int", "Str256", "Double", "BigStr", "Float">>
Kinds3 == <<"Binary", "Binary8", "Binary4", "Binary2">>
Extra(k) == CASE k = "Str16" -> 4 [] k = "Bool" -> 1 [] k = "Decimal" -> 4
              [] k \in {"Int", "BigStr", "Binary", "Binary8", "Binary4", "Binary2"} -> 3 [] OTHER -> 0

ReadTag(t, p) ==
  LET a == Zeros(t, p) IN
  IF ~a.ok THEN Fail
  ELSE IF a.v = 0 THEN WithBits(t, a.p, 1, "Bit")
  ELSE IF a.v > 4 THEN Fail
  ELSE LET c == Zeros(t, a.p) IN
       IF ~c.ok THEN Fail
       ELSE IF a.v = 4 THEN Ok([k |-> "Undefined", n |-> c.v], c.p)
       ELSE LET ks == CASE a.v = 1 -> Kinds1 [] a.v = 2 -> Kinds2 [] a.v = 3 -> Kinds3
            IN IF c.v + 1 > Len(ks) THEN Fail ELSE WithBits(t, c.p, Extra(ks[c.v + 1]), ks[c.v + 1])

RECURSIVE ReadTags(_, _, _, _)
ReadTags(t, p, n, acc) == IF n = 0 THEN Ok(acc, p)
                          ELSE LET r == ReadTag(t, p) IN IF r.ok THEN ReadTags(t, r.p, n - 1, Append(acc, r.v)) ELSE Fail

ReadLen(b, p, size, width) == LET r == Take(b, p, size) IN
  IF r.ok THEN Take(b, r.p, MagNat(UnVar(r.v).m) * width) ELSE Fail
Wrap(r, k) == IF r.ok THEN Ok([k |-> k, b |-> r.v], r.p) ELSE Fail

ReadVal(b, p, t) ==
  CASE t.k = "Null" -> Ok([k |-> "Null"], p)
    [] t.k \in {"Bit", "Bool"} -> Ok([k |-> t.k, v |-> t.n = 1], p)
    [] t.k = "Undefined" -> Ok([k |-> t.k, v |-> t.n], p)
    [] t.k = "Byte" -> LET r == Take(b, p, 1) IN IF r.ok THEN Ok([k |-> t.k, v |-> r.v[1]], r.p) ELSE Fail
    [] t.k = "Str16" -> Wrap(Take(b, p, t.n), t.k)
    [] t.k = "Double" -> Wrap(Take(b, p, 8), t.k)
    [] t.k = "Float" -> Wrap(Take(b, p, 4), t.k)
    [] t.k = "Int" -> LET r == Take(b, p, t.n + 1)
                      IN IF r.ok THEN LET u == UnVar(r.v) IN Ok([k |-> t.k, neg |-> u.neg, m |-> u.m], r.p) ELSE Fail
    [] t.k = "Decimal" -> LET r == Take(b, p, t.n + 2)
                          IN IF r.ok THEN LET u == UnVar(SubSeq(r.v, 1, t.n + 1))
                                          IN Ok([k |-> t.k, neg |-> u.neg, m |-> u.m, dot |-> r.v[t.n + 2]], r.p)
                             ELSE Fail
    [] t.k = "Str256" -> LET r == Take(b, p, 1) IN IF r.ok THEN Wrap(Take(b, r.p, r.v[1]), t.k) ELSE Fail
    [] OTHER -> Wrap(ReadLen(b, p, t.n + 1, Width(t.k)), t.k)

RECURSIVE ReadVals(_, _, _, _)
ReadVals(b, p, tags, acc) == IF tags = <<>> THEN Ok(acc, p)
                             ELSE LET r == ReadVal(b, p, Head(tags))
                                  IN IF r.ok THEN ReadVals(b, r.p, Tail(tags), Append(acc, r.v)) ELSE Fail

ReadField(b, p) == LET n == Take(b, p, 1)
                   IN IF ~n.ok THEN Fail
                      ELSE LET r == Take(b, n.p, n.v[1])
                           IN IF ~r.ok THEN Fail ELSE IF r.v = <<>> THEN Ok(0, r.p) ELSE Ok(MagNat(UnVar(r.v).m), r.p)

Decode(b) ==
  LET count == ReadField(b, 1) IN
  IF ~count.ok THEN Fail
  ELSE LET tl == ReadField(b, count.p) IN
       IF ~tl.ok THEN Fail
       ELSE LET tb == Take(b, tl.p, tl.v) IN
            IF ~tb.ok THEN Fail
            ELSE LET tags == ReadTags(Unpack(tb.v), 1, count.v, <<>>)
                 IN IF ~tags.ok THEN Fail ELSE ReadVals(b, tb.p, tags.v, <<>>)

---------------------------------------------------------------------------
\* compact forms of single values
IntVal(neg, m) == IF ~neg /\ m = <<>> THEN [k |-> "Bit", v |-> FALSE]
                  ELSE IF ~neg /\ m = <<1>> THEN [k |-> "Bit", v |-> TRUE]
                  ELSE IF m = <<>> \/ (Len(m) = 1 /\ m[1] < 128)
                       THEN [k |-> "Byte", v |-> LET x == IF m = <<>> THEN 0 ELSE m[1] IN IF neg THEN 255 - x ELSE x]
                  ELSE [k |-> "Int", neg |-> neg, m |-> m]
ValInt(v) == CASE v.k = "Bit" -> [neg |-> FALSE, m |-> IF v.v THEN <<1>> ELSE <<>>]
               [] v.k = "Byte" -> [neg |-> v.v >= 128, m |-> Strip(<<IF v.v >= 128 THEN 255 - v.v ELSE v.v>>)]
               [] v.k = "Int" -> [neg |-> v.neg, m |-> v.m]

---------------------------------------------------------------------------
\* values at the boundaries of every form
Low(k) == Rep(k - 1, 255) \o <<127>>     \* 2^(8k-1) - 1
High(k) == Rep(k - 1, 0) \o <<128>>      \* 2^(8k-1)
Mags(n) == {<<>>, <<1>>, <<255>>, <<0, 1>>, <<7, 91, 205, 21>>} \cup {Low(k) : k \in 1..n} \cup {High(k) : k \in 1..(n - 1)}
Ints == {[k |-> "Int", neg |-> g, m |-> m] : g \in BOOLEAN, m \in Mags(8)}
Decs == {[k |-> "Decimal", neg |-> g, m |-> m, dot |-> d] : g \in BOOLEAN, m \in Mags(16), d \in {0, 1, 255}}
Strs(k, L) == {[k |-> k, b |-> Text(n)] : n \in L}
Uni(k, n) == [k |-> k, b |-> [i \in 1..(3 * n) |-> <<227, 129, 130>>[((i - 1) % 3) + 1]]]
Bins(k, L) == {[k |-> k, b |-> Blob(n * Width(k), 37)] : n \in L}
Dbl == {<<0,0,0,0,0,0,0,0>>, <<128,0,0,0,0,0,0,0>>, <<63,248,0,0,0,0,0,0>>, <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>,
        <<127,248,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>>, <<127,239,255,255,255,255,255,255>>}
Flt == {<<0,0,0,0>>, <<128,0,0,0>>, <<63,192,0,0>>, <<127,128,0,0>>, <<127,192,0,0>>, <<0,0,0,1>>}

Small == {[k |-> "Null"], [k |-> "Bit", v |-> TRUE], [k |-> "Bit", v |-> FALSE], [k |-> "Bool", v |-> TRUE],
          [k |-> "Byte", v |-> 128], [k |-> "Str16", b |-> Text(3)], [k |-> "Int", neg |-> TRUE, m |-> High(1)],
          [k |-> "Str256", b |-> Text(2)], [k |-> "Double", b |-> <<63,248,0,0,0,0,0,0>>], [k |-> "BigStr", b |-> Text(2)],
          [k |-> "Float", b |-> <<63,192,0,0>>], [k |-> "Decimal", neg |-> FALSE, m |-> Low(2), dot |-> 3],
          [k |-> "Binary", b |-> <<0, 255>>], [k |-> "Binary8", b |-> Blob(8, 3)], [k |-> "Binary4", b |-> Blob(4, 3)],
          [k |-> "Binary2", b |-> Blob(4, 3)], [k |-> "Undefined", v |-> 0], [k |-> "Undefined", v |-> 7]}
Wide == {[k |-> "Null"]} \cup {[k |-> k, v |-> b] : k \in {"Bit", "Bool"}, b \in BOOLEAN}
        \cup {[k |-> "Byte", v |-> n] : n \in {0, 1, 127, 128, 255}} \cup Strs("Str16", {0, 1, 14, 15}) \cup {Uni("Str16", 5)}
        \cup Ints \cup Strs("Str256", {0, 1, 15, 16, 127, 128, 254, 255}) \cup {Uni("Str256", 85)}
        \cup Strs("BigStr", {0, 1, 127, 128, 255, 256}) \cup {Uni("BigStr", 86)}
        \cup {[k |-> "Double", b |-> x] : x \in Dbl} \cup {[k |-> "Float", b |-> x] : x \in Flt} \cup Decs
        \cup Bins("Binary", {0, 1, 127, 128}) \cup Bins("Binary8", {0, 1, 3, 127, 128}) \cup Bins("Binary4", {0, 1, 127, 128}) \cup Bins("Binary2", {0, 1, 127, 128})
        \cup {[k |-> "Undefined", v |-> n] : n \in 0..7}
Big == Strs("BigStr", {32767, 32768}) \cup {Uni("BigStr", 22000)} \cup Bins("Binary", {32767, 32768, 65536})
       \cup Bins("Binary2", {32767, 32768}) \cup Bins("Binary4", {32768}) \cup Bins("Binary8", {32768})
Pool == CASE PoolName = "small" -> Small [] PoolName = "all" -> Wide [] PoolName = "big" -> Big

---------------------------------------------------------------------------
VARIABLE s
Out(t) == PrintT("TRACE " \o ToJson([v |-> t, b |-> Encode(t)]))
Add(v) == LET t == Append(s, v)
          IN /\ Len(s) < MaxLen
             /\ s' = t
             /\ Emit = "every" \/ (Emit = "last" /\ Len(t) = MaxLen) => Out(t)
Init == s = <<>>
Next == \E v \in Pool : Add(v)
RNext == \E v \in {RandomElement(IF Len(s) >= 0 THEN Pool ELSE {})} : Add(v)
Spec == Init /\ [][Next]_s
RSpec == Init /\ [][RNext]_s

Junk == <<<<>>, <<0>>, <<255, 1>>>>
RoundTrip == LET e == Encode(s) IN \A j \in 1..Len(Junk) : Decode(e \o Junk[j]) = Ok(s, Len(e) + 1)
PrefixFails == LET e == Encode(s) IN Len(e) < 80 => \A n \in 0..(Len(e) - 1) : ~Decode(SubSeq(e, 1, n)).ok
Compact == \A i \in 1..Len(s) : s[i].k = "Int" => ValInt(IntVal(s[i].neg, s[i].m)) = [neg |-> s[i].neg, m |-> s[i].m]
=============================================================================
