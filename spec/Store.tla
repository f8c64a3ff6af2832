------------------------------- MODULE Store -------------------------------
(* How saves reach the disk: the steps of one save (directory, creation time,        *)
(* source archive, document) as single file-system calls, any of which may fail or   *)
(* be the last one before the process dies. Shows that writing beside and renaming    *)
(* makes every save all-or-nothing, and (Mode = "inplace") that writing in place does *)
(* not. Used for history files and save files alike: a history save never overwrites. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Vers, Names, MaxOps, MaxCrash, MaxFail, Mode   \* Mode: "rename" or "inplace"

No == 0
Part == 99          \* a file that is not completely written
VARIABLES dir,      \* versions whose directory exists
          arc,      \* version -> No | Part | 1 (complete)
          file,     \* <<version, name>> -> No | Part | document
          tmps,     \* files left beside by dead processes
          pc, op,   \* the save that is running
          abs,      \* what the user knows: <<version, name>> -> No | document
          last,     \* result of the last call: "none" | "ok" | "err" | "crash"
          ops, crashes, fails
vars == <<dir, arc, file, tmps, pc, op, abs, last, ops, crashes, fails>>
Keys == Vers \X Names
NoOp == [k |-> <<0, "">>, doc |-> 0, ow |-> FALSE]

Init == /\ dir = {} /\ arc = [v \in Vers |-> No] /\ file = [k \in Keys |-> No] /\ tmps = 0
        /\ pc = "idle" /\ op = NoOp /\ abs = [k \in Keys |-> No] /\ last = "none"
        /\ ops = 0 /\ crashes = 0 /\ fails = 0

V == op.k[1]
Goto(p) == pc' = p /\ UNCHANGED <<op, abs, last, ops, crashes, fails>>
End(r) == pc' = "idle" /\ op' = NoOp /\ last' = r

Begin(k, ow) == /\ pc = "idle" /\ ops < MaxOps
                /\ ops' = ops + 1 /\ op' = [k |-> k, doc |-> ops + 1, ow |-> ow] /\ pc' = "dir"
                /\ UNCHANGED <<dir, arc, file, tmps, abs, last, crashes, fails>>
MkDir == pc = "dir" /\ dir' = dir \cup {V} /\ Goto("arc1") /\ UNCHANGED <<arc, file, tmps>>
\* archive: only when it is not there; two writes stand for any number
Arc1 == /\ pc = "arc1"
        /\ IF arc[V] # No THEN arc' = arc /\ Goto("chk")
           ELSE /\ arc' = IF Mode = "inplace" THEN [arc EXCEPT ![V] = Part] ELSE arc
                /\ Goto("arc2")
        /\ UNCHANGED <<dir, file, tmps>>
Arc2 == pc = "arc2" /\ arc' = [arc EXCEPT ![V] = 1] /\ Goto("chk") /\ UNCHANGED <<dir, file, tmps>>
Chk == /\ pc = "chk"
       /\ IF file[op.k] # No /\ ~op.ow
          THEN End("err") /\ UNCHANGED <<abs, ops, crashes, fails>>
          ELSE Goto("doc1")
       /\ UNCHANGED <<dir, arc, file, tmps>>
Doc1 == /\ pc = "doc1"
        /\ file' = IF Mode = "inplace" THEN [file EXCEPT ![op.k] = Part] ELSE file
        /\ Goto("doc2") /\ UNCHANGED <<dir, arc, tmps>>
Doc2 == pc = "doc2" /\ file' = [file EXCEPT ![op.k] = op.doc] /\ Goto("ack") /\ UNCHANGED <<dir, arc, tmps>>
Ack == /\ pc = "ack" /\ abs' = [abs EXCEPT ![op.k] = op.doc] /\ End("ok")
       /\ UNCHANGED <<dir, arc, file, tmps, ops, crashes, fails>>
\* the process dies; whatever it wrote beside stays behind. The user learns from the disk what happened.
Crash == /\ pc # "idle" /\ crashes < MaxCrash
         /\ crashes' = crashes + 1
         /\ tmps' = IF Mode = "rename" /\ pc \in {"arc2", "doc2"} /\ tmps < 2 THEN tmps + 1 ELSE tmps
         /\ abs' = file /\ End("crash") /\ UNCHANGED <<dir, arc, file, ops, fails>>
\* the call of the current step fails; temporary files are removed, or that fails too
Fail == /\ pc \in {"dir", "arc1", "arc2", "chk", "doc1", "doc2"} /\ fails < MaxFail
        /\ fails' = fails + 1
        /\ \E t \in {tmps, IF pc \in {"arc2", "doc2"} /\ tmps < 2 THEN tmps + 1 ELSE tmps} : tmps' = t
        /\ End("err") /\ UNCHANGED <<dir, arc, file, abs, ops, crashes>>

Next == (\E k \in Keys, ow \in BOOLEAN : Begin(k, ow)) \/ MkDir \/ Arc1 \/ Arc2 \/ Chk \/ Doc1 \/ Doc2 \/ Ack \/ Crash \/ Fail
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Pending == [abs EXCEPT ![op.k] = op.doc]
\* the disk shows the state before the running save or the state after it, never another
OldOrNew == IF pc = "idle" THEN file = abs ELSE file = abs \/ file = Pending
NoPartial == \A k \in Keys : file[k] # Part
\* every document can be read under later sources
Convertible == \A k \in Keys : file[k] # No => arc[k[1]] = 1
ArcWhole == \A v \in Vers : arc[v] # Part
NeverSilent == (pc = "ack" /\ ~op.ow) => abs[op.k] = No
Safe == OldOrNew /\ NoPartial /\ Convertible /\ ArcWhole /\ NeverSilent
\* errors change nothing, also not for later calls
ErrKeeps == [][(pc # "idle" /\ pc' = "idle" /\ last' = "err") => abs' = abs /\ (file # Pending \/ abs = Pending => file' = abs')]_vars
=============================================================================
