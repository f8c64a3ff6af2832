------------------------------- MODULE Json5MC -------------------------------
(* Every text over a small alphabet between a fixed beginning and end, for each of     *)
(* several such frames.                                                               *)
EXTENDS Json5, Json, TLC

CONSTANT Frames     \* [b: beginning, al: alphabet, a: end, n: greatest length in between]
VARIABLES f, s
Text == Frames[f].b \o s \o Frames[f].a
\* what is not a value is printed without its value
Out(t) == Sure(t) => LET v == Parse(t) IN PrintT("TRACE " \o ToJson(IF v = Bad THEN [t |-> t] ELSE [t |-> t, v |-> v]))
Init == /\ f \in 1..Len(Frames)
        /\ s = <<>>
        /\ Out(Text)
Next == /\ Len(s) < Frames[f].n
        /\ \E c \in Frames[f].al : s' = Append(s, c)
        /\ UNCHANGED f
        /\ Out(Frames[f].b \o s' \o Frames[f].a)
Spec == Init /\ [][Next]_<<f, s>>

\* space and comments around a text change nothing; a text cannot go on after its value; a value is an item
Framed == Parse(Text) # Bad => Parse(<<32>> \o Text \o <<10, 47, 42, 47, 42, 47>>) = Parse(Text)
Closed == Parse(Text) # Bad => Parse(Text \o <<10, 49>>) = Bad
Wrapped == Parse(Text) # Bad => Parse(<<91>> \o Text \o <<10, 44, 93>>) = [k |-> "arr", v |-> <<Parse(Text)>>]
=============================================================================
