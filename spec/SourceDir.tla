------------------------------ MODULE SourceDir -------------------------------
(* A source directory: which member is in which file, and how the files are written.   *)
(* The source files are root.json5 and one file per member that was moved out of it.   *)
(* Reading the directory, a copy of it elsewhere, its archive, or an archive of what   *)
(* an archive holds gives the document of the source and the hash of its files.        *)
EXTENDS SourceParts, Json

CONSTANTS Steps,         \* how many changes a behaviour makes
          Walk           \* start from one directory, or from every one
VARIABLES place,         \* member -> "no", "root" or "file"
          val,           \* member -> which of its values
          dress,         \* file -> how it is written: comments, spaces, order of members
          other,         \* files that are no source files
          hollow,        \* what no directory with a meaning has: a source file without any text (z), files with names that
                         \* no member has (Old, Root), no root file (-root), one with another name (^root)
          step

Names_ == {"a", "b", "t", "m"}
Val(n, k) == CASE n = "a" -> M("a", IF k = 1 THEN "" ELSE "?", P("int", IF k = 1 THEN "v" ELSE "n", 1))
               [] n = "b" -> M("b", "", P("str", "v", k))
               [] n = "t" -> M("t", "", IF k = 1 THEN Table1 ELSE [Table1 EXCEPT !.it[2].m = <<M("s", "", P("str", "v", 2))>>])
               [] n = "m" -> M("m", IF k = 1 THEN "" ELSE "!", L("MList", <<DefA([O(<<M("x", "", P("float", "v", k))>>) EXCEPT !.rf = <<Ref(<<E("t", "?", "n", "")>>)>>])>>,
                                       <<[NoObj EXCEPT !.rf = <<Ref(<<E("t", "", "v", "r1")>>)>>], [O(<<M("x", "", P("float", "v", 3))>>) EXCEPT !.id = Id(4)]>>))
Others == {"notes.txt", "a.json", "root.json5.bak", "sub/root.json5", "sub/a.json5"}
Hollows == {"z", "Old", "Root", "-root", "^root"}
vars == <<place, val, dress, other, hollow, step>>

In(w) == {n \in Names_ : place[n] = w}
FileNames == {"root"} \cup In("file")
\* the members in the order of their names
Sorted(S) == SelectSeq(<<"a", "b", "m", "t">>, LAMBDA n : n \in S)
Src == [root |-> O([i \in 1..Cardinality(In("root")) |-> Val(Sorted(In("root"))[i], val[Sorted(In("root"))[i]])]),
        files |-> [i \in 1..Cardinality(In("file")) |-> Val(Sorted(In("file"))[i], val[Sorted(In("file"))[i]])]]
\* what a file holds, as far as its bytes go
Content(f) == <<dress[f], IF f = "root" THEN [n \in In("root") |-> val[n]] ELSE [n \in {f} |-> val[n]]>>
\* the hash is a function of the names and contents of the source files, and of nothing else; two are equal only when the files are
FileName(f) == IF f = "root" THEN "root" ELSE f \o Val(f, val[f]).s
Hash == {<<IF f = "root" /\ "^root" \in hollow THEN "Root" ELSE FileName(f), Content(f)>> : f \in FileNames \ (IF "-root" \in hollow THEN {"root"} ELSE {})}
        \cup {<<f, <<0, <<>>>>>> : f \in hollow \cap {"z", "Old", "Root"}}
Verdict_ == IF hollow = {} THEN Verdict(Src) ELSE "bad"

Emit == PrintT("TRACE " \o ToJson([src |-> Src, verdict |-> Verdict_, hollow |-> hollow, doc |-> IF Verdict_ = "ok" THEN Doc(Src) ELSE <<>>,
                                   dress |-> [f \in FileNames |-> dress[f]], other |-> other, hash |-> Hash]))
InitOne == place = [n \in Names_ |-> "root"] /\ val = [n \in Names_ |-> 1] /\ dress = [f \in Names_ \cup {"root"} |-> 0] /\ other = {} /\ hollow = {} /\ step = 0
InitAll ==
        /\ place \in [Names_ -> {"no", "root", "file"}] /\ val \in [Names_ -> {1, 2}] /\ \A n \in Names_ : place[n] = "no" => val[n] = 1
        /\ dress \in [Names_ \cup {"root"} -> {0, 1}] /\ \A n \in Names_ : place[n] # "file" => dress[n] = 0
        /\ hollow \in {{}} \cup {{h} : h \in Hollows} /\ (hollow # {} => \A n \in Names_ : val[n] = 1 /\ dress[n] = 0)
        /\ other = {} /\ step = 0
Init == IF Walk THEN InitOne ELSE InitAll
\* behaviours of one directory: one change at a time
Put(n, w) == place' = [place EXCEPT ![n] = w] /\ val' = [val EXCEPT ![n] = IF w = "no" THEN 1 ELSE @]
             /\ dress' = [dress EXCEPT ![n] = IF w = "file" THEN @ ELSE 0] /\ UNCHANGED <<other, hollow>>
Change(n) == place[n] # "no" /\ val' = [val EXCEPT ![n] = 3 - @] /\ UNCHANGED <<place, dress, other, hollow>>
Dress(f) == f \in FileNames /\ dress' = [dress EXCEPT ![f] = 1 - @] /\ UNCHANGED <<place, val, other, hollow>>
Unrelated(o) == other' = (IF o \in other THEN other \ {o} ELSE other \cup {o}) /\ UNCHANGED <<place, val, dress, hollow>>
Hollow(h) == hollow' = (IF hollow = {} THEN {h} ELSE {}) /\ UNCHANGED <<place, val, dress, other>>
Next == /\ step < Steps /\ step' = step + 1
        /\ \/ \E n \in Names_, w \in {"no", "root", "file"} : Put(n, w)
           \/ \E n \in Names_ : Change(n)
           \/ \E f \in Names_ \cup {"root"} : Dress(f)
           \/ \E o \in Others : Unrelated(o)
           \/ \E h \in Hollows : Hollow(h)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
\* where a member is written does not change the document, an unrelated file changes nothing
Same(s) == Verdict(s) = Verdict(Src) /\ (Verdict(Src) = "ok" => Doc(s) = Doc(Src))
SplitSame == Same([root |-> O(Members(Src)), files |-> <<>>]) /\ Same([root |-> O(<<>>), files |-> Members(Src)])
HashSteps == []["-root" \in hollow \/ "-root" \in hollow' \/ (Hash' = Hash <=> (place' = place /\ val' = val /\ dress' = dress /\ hollow' = hollow))]_vars
=============================================================================
