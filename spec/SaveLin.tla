------------------------------ MODULE SaveLin ------------------------------
(* Looks for a sequential order of concurrent operations on a save directory that      *)
(* explains all their results and respects real time (see HistoryLin).                  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, done, map
vars == <<run, done, map>>
Init == run \in DOMAIN Runs /\ done = {} /\ map = <<>>
Ops == Runs[run].ops
Before(i, j) == Ops[i].t1 < Ops[j].t0
Ready(j) == j \notin done /\ \A i \in DOMAIN Ops : (i # j /\ Before(i, j)) => i \in done

Save(o) == IF o.ok THEN /\ (o.ow \/ o.name \notin DOMAIN map) /\ map' = (o.name :> o.doc) @@ map
           ELSE /\ ~o.ow /\ o.name \in DOMAIN map /\ UNCHANGED map
Load(o) == /\ IF o.ok THEN o.name \in DOMAIN map /\ map[o.name] = o.doc ELSE o.name \notin DOMAIN map
           /\ UNCHANGED map
List(o) == DOMAIN map = ToSet(o.names) /\ Len(o.names) = Cardinality(ToSet(o.names)) /\ UNCHANGED map
Lin(j) == LET o == Ops[j] IN
  /\ Ready(j)
  /\ \/ o.e = "save" /\ Save(o)
     \/ o.e = "load" /\ Load(o)
     \/ o.e = "list" /\ List(o)
  /\ done' = done \cup {j}
  /\ (done' = DOMAIN Ops) => PrintT("DONE " \o ToString(run))
  /\ UNCHANGED run
Next == \E j \in DOMAIN Ops : Lin(j)
Spec == Init /\ [][Next]_vars
=============================================================================
