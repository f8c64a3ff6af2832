------------------------------- MODULE Stored -------------------------------
(* How stored data is laid out and read, and what happens when its end is missing. *)
(*                                                                                 *)
(* A difference is a number of values: how many, how long their tags are, the tags, *)
(* the values (each tag tells the length of its value, or that the value starts     *)
(* with its length). A history file is a list of sizes, laid out like a difference, *)
(* and the difference. An archive is a list of lengths, laid out like a difference,  *)
(* and that many files. Bytes are small numbers here.                              *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Byte,     \* bytes: 0..n
          MaxLen    \* longest data looked at
VARIABLE data

Err == [ok |-> FALSE, pos |-> 0, vals |-> <<>>]
Ok(p, v) == [ok |-> TRUE, pos |-> p, vals |-> v]
Has(b, p, n) == p + n <= Len(b)

\* a tag of t < 2: a value of t bytes; otherwise its length is the next byte
RECURSIVE ReadVals(_, _, _, _)
ReadVals(b, tags, p, acc) ==
  IF tags = <<>> THEN Ok(p, acc)
  ELSE LET t == Head(tags)
       IN IF t < 2 THEN IF Has(b, p, t) THEN ReadVals(b, Tail(tags), p + t, Append(acc, IF t = 0 THEN 0 ELSE b[p + 1])) ELSE Err
          ELSE IF ~Has(b, p, 1) THEN Err
          ELSE IF ~Has(b, p + 1, b[p + 1]) THEN Err
          ELSE ReadVals(b, Tail(tags), p + 1 + b[p + 1], Append(acc, b[p + 1]))

\* values from position p on
Values(b, p) ==
  IF ~Has(b, p, 2) THEN Err
  ELSE LET n == b[p + 1]
           tl == b[p + 2]
       IN IF tl # n \/ ~Has(b, p + 2, tl) THEN Err
          ELSE ReadVals(b, SubSeq(b, p + 3, p + 2 + tl), p + 2 + tl, <<>>)

Diff(b) == Values(b, 0)
HistFile(b) == LET h == Values(b, 0) IN IF ~h.ok \/ h.vals = <<>> THEN Err ELSE Values(b, h.pos)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Archive(b) == LET h == Values(b, 0)
              IN IF ~h.ok \/ h.vals = <<>> THEN Err
                 ELSE IF Has(b, h.pos, Sum(h.vals)) THEN Ok(h.pos + Sum(h.vals), h.vals) ELSE Err

Whole(r, b) == r.ok /\ r.pos = Len(b)
Readers(b) == <<Diff(b), HistFile(b), Archive(b)>>

Init == data = <<>>
Next == Len(data) < MaxLen /\ \E x \in Byte : data' = Append(data, x)
Spec == Init /\ [][Next]_data

\* S05: nothing that is missing its end can be read
Prefix(n) == SubSeq(data, 1, n)
SelfDelimiting ==
  \A k \in 1..3 : Whole(Readers(data)[k], data) => \A n \in 0..(Len(data) - 1) : ~Readers(Prefix(n))[k].ok
\* what was read does not depend on what follows
Stable == \A k \in 1..3 : \A n \in 0..Len(data) : Readers(Prefix(n))[k].ok => Readers(data)[k] = Readers(Prefix(n))[k]
=============================================================================
