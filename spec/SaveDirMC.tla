----------------------------- MODULE SaveDirMC -----------------------------
(* One user of a save directory: saves with and without overwriting, removals,      *)
(* loads, attempts on bookkeeping names, restarts under other sources, and crashes   *)
(* and failures of a save, which take effect completely or not at all.              *)
EXTENDS SaveDir, Json

CONSTANTS Names, Vers, Depth, Feat, Pick(_)
Reserved == "R"   \* stands for every spelling of a bookkeeping file

VARIABLES fs, cv, n, log, done
vars == <<fs, cv, n, log, done>>
Init == fs = <<>> /\ cv = 1 /\ n = 0 /\ log = <<>> /\ done = FALSE
F(x) == x \in Feat
St(S) == {x \in S : n >= 0}
Log(x) == log' = Append(log, x)
AllNames == Names \cup (IF F("res") THEN {Reserved} ELSE {})

Save(name, ow) ==
  /\ fs' = IF SaveAllowed(fs, cv, name, ow, name = Reserved) THEN Saved(fs, cv, name, n + 1) ELSE fs
  /\ n' = n + 1 /\ Log([op |-> "save", name |-> name, ow |-> ow]) /\ UNCHANGED <<cv, done>>
RemoveFile(v, name) ==
  /\ fs' = IF RemoveAllowed(fs, v, name, name = Reserved) THEN Drop(fs, v, name) ELSE fs
  /\ Log([op |-> "remove", v |-> v, name |-> name]) /\ UNCHANGED <<cv, n, done>>
Load(v, name) == Log([op |-> "load", v |-> v, name |-> name]) /\ UNCHANGED <<fs, cv, n, done>>
List == Log([op |-> "list"]) /\ UNCHANGED <<fs, cv, n, done>>
Restart(v) == cv' = v /\ Log([op |-> "restart", v |-> v]) /\ UNCHANGED <<fs, n, done>>
Finish == ~done /\ Len(log) >= Depth /\ done' = TRUE /\ PrintT("TRACE " \o ToJson(log)) /\ UNCHANGED <<fs, cv, n, log>>

Step == \/ \E name \in Pick(St(AllNames)), ow \in Pick(St(BOOLEAN)) : Save(name, ow)
        \/ F("remove") /\ \E v \in Pick(St(Vers)), name \in Pick(St(AllNames)) : RemoveFile(v, name)
        \/ F("load") /\ \E v \in Pick(St(Vers)), name \in Pick(St(Names)) : Load(v, name)
        \/ F("list") /\ List
        \/ F("restart") /\ \E v \in Pick(St(Vers)) : Restart(v)
Next == (~done /\ Len(log) < Depth /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars
Ident(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

\* each name once per version; bookkeeping names never appear
Once == \A i, j \in DOMAIN fs : (fs[i].v = fs[j].v /\ fs[i].name = fs[j].name) => i = j
NoReserved == \A i \in DOMAIN fs : fs[i].name # Reserved
\* the listing order is the order of the documents' saves
Ordered == \A i, j \in DOMAIN fs : i < j => fs[i].doc < fs[j].doc
\* a step changes at most one (version, name), and other documents stay as they are
Local == [][ \E v \in Vers, nm \in AllNames : \A f \in ToSet(fs) : ~(f.v = v /\ f.name = nm) => f \in ToSet(fs') ]_vars
\* without the flag nothing is ever replaced
NoSilent == [][ (log' # log /\ log'[Len(log')].op = "save" /\ ~log'[Len(log')].ow) => ToSet(fs) \subseteq ToSet(fs') ]_vars
=============================================================================
