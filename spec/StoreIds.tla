------------------------------ MODULE StoreIds ------------------------------
(* How the numbers of the changed members are stored in a difference: as one word *)
(* of bits, as several words, or as a list of numbers, whichever is smaller.      *)
(* Encode/Decode are the stored form and its reading; Cases enumerates changed    *)
(* sets on both sides of every boundary between the forms.                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Functions, Json, TLC

CONSTANTS W,       \* bits of a word (64 in the implementation)
          T1, T2,  \* a number list is smaller when there are at most max \div T members
          N,       \* members are numbered 0..N-1
          Mode     \* "all": every subset (specification check); "cases": boundary cases (replay)

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Form(S) == IF S = {} THEN "zero"
           ELSE LET m == MaxOf(S) n == Cardinality(S)
                IN IF m < W THEN (IF n > m \div T1 THEN "word" ELSE "numbers")
                   ELSE IF n > m \div T2 THEN "bits" ELSE "numbers"

Word(S, k) == {x % W : x \in {y \in S : y \div W = k}}
\* parameters are written before lists in every form
Encode(P, L) ==
  LET S == P \cup L
      f == Form(S)
  IN CASE f = "zero"    -> [f |-> f]
       [] f = "word"    -> [f |-> f, b |-> Word(S, 0)]
       [] f = "bits"    -> [f |-> f, b |-> [k \in 1..(MaxOf(S) \div W + 1) |-> Word(S, k - 1)]]
       [] f = "numbers" -> [f |-> f, n |-> SetToSortSeq(P, LAMBDA x, y : x < y) \o SetToSortSeq(L, LAMBDA x, y : x < y)]

\* reading knows which members are lists
Decode(e, IsList(_)) ==
  LET S == CASE e.f = "zero"    -> {}
             [] e.f = "word"    -> e.b
             [] e.f = "bits"    -> UNION {{(k - 1) * W + x : x \in e.b[k]} : k \in 1..Len(e.b)}
             [] e.f = "numbers" -> ToSet(e.n)
  IN <<{x \in S : ~IsList(x)}, {x \in S : IsList(x)}>>

---------------------------------------------------------------------------
VARIABLE c
\* sets with a given largest member and size: low, high or spread over the range
Low(m, n)  == {m} \cup 0..(n - 2)
High(m, n) == (m - n + 1)..m
Spread(m, n) == LET s == {m} \cup {(k * m) \div n : k \in 0..(n - 1)} IN s
Sizes(m) == {n \in {1, 2, 3, m \div T1, (m \div T1) + 1, m \div T2, (m \div T2) + 1, m, m + 1} : n \in 1..(m + 1)}
Cases == UNION {UNION {{Low(m, IF n = 1 THEN 1 ELSE n), High(m, n), Spread(m, n)} : n \in Sizes(m)} : m \in 0..(N - 1)}

Init == IF Mode = "all" THEN c \in SUBSET (0..(N - 1))
        ELSE /\ c \in Cases
             /\ PrintT("TRACE " \o ToJson([s |-> SetToSortSeq(c, LAMBDA x, y : x < y), f |-> Form(c)]))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

RoundTrip == \A r \in 0..2 : LET IsL(x) == x % 3 = r
                             IN Decode(Encode({x \in c : ~IsL(x)}, {x \in c : IsL(x)}), IsL) = <<{x \in c : ~IsL(x)}, {x \in c : IsL(x)}>>
=============================================================================
