----------------------------- MODULE HistoryLock -----------------------------
(* Concurrent saves and loads in one history directory at the level of their steps:    *)
(* look at the files and at the current document, write the new file, remember the      *)
(* current document. With the lock held over all steps every file gets a name of its     *)
(* own and every derived file starts from the document it names; without it (Locked =    *)
(* FALSE) both fail.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxOps, Locked

VARIABLES files,  \* sequence of [name, owner, base]: base = 0 for a new start
          cur,    \* [owner, name]: whose document the next derived save continues
          lock, pc, tmp, ops, loads
vars == <<files, cur, lock, pc, tmp, ops, loads>>
None == [owner |-> 0, name |-> 0]
Init == /\ files = <<>> /\ cur = None /\ lock = 0 /\ ops = 0 /\ loads = {}
        /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> [name |-> 0, base |-> 0, kind |-> ""]]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t, k) == /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ Go(t, "lock")
              /\ tmp' = [tmp EXCEPT ![t] = [name |-> 0, base |-> 0, kind |-> k]] /\ UNCHANGED <<files, cur, lock, loads>>
Acquire(t) == /\ pc[t] = "lock" /\ (Locked => lock = 0) /\ lock' = t /\ Go(t, "look") /\ UNCHANGED <<files, cur, tmp, ops, loads>>
Look(t) == /\ pc[t] = "look"
           /\ tmp' = [tmp EXCEPT ![t].name = Len(files) + 1, ![t].base = IF cur.owner = t THEN cur.name ELSE 0]
           /\ Go(t, IF tmp[t].kind = "save" THEN "write" ELSE "read") /\ UNCHANGED <<files, cur, lock, ops, loads>>
Write(t) == /\ pc[t] = "write" /\ files' = Append(files, [name |-> tmp[t].name, owner |-> t, base |-> tmp[t].base])
            /\ Go(t, "remember") /\ UNCHANGED <<cur, lock, tmp, ops, loads>>
Read(t) == /\ pc[t] = "read"
           /\ IF files = <<>> THEN tmp' = tmp /\ loads' = loads /\ Go(t, "unlock")
              ELSE /\ tmp' = [tmp EXCEPT ![t].name = files[Len(files)].name] /\ loads' = loads \cup {<<t, Len(files)>>} /\ Go(t, "remember")
           /\ UNCHANGED <<files, cur, lock, ops>>
Remember(t) == /\ pc[t] = "remember" /\ cur' = [owner |-> t, name |-> tmp[t].name] /\ Go(t, "unlock") /\ UNCHANGED <<files, lock, tmp, ops, loads>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ Go(t, "idle") /\ UNCHANGED <<files, cur, tmp, ops, loads>>
Next == \E t \in Threads : (\E k \in {"save", "load"} : Call(t, k)) \/ Acquire(t) \/ Look(t) \/ Write(t) \/ Read(t) \/ Remember(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in DOMAIN files : files[i].name = files[j].name => i = j
\* a derived file continues the latest file that its owner saved or loaded, and nothing happened in between
DerivedOk == \A i \in DOMAIN files : files[i].base # 0 => files[i].base < files[i].name
Mutual == Locked => Cardinality({t \in Threads : pc[t] \in {"look", "write", "read", "remember", "unlock"}}) <= 1
Ok == Distinct /\ DerivedOk /\ Mutual
=============================================================================
