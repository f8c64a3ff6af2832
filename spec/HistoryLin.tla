----------------------------- MODULE HistoryLin -----------------------------
(* Looks for a sequential order of concurrent history operations that explains all    *)
(* their results and respects real time. An operation holds [t0, t1] (ticks around it;  *)
(* for background saves t1 is the tick of the callback and c1 that of the return).      *)
(* Every line of the input is one run; a run that is explained prints DONE.             *)
EXTENDS History, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, done, files, cur
vars == <<run, done, files, cur>>
NoCur == [root |-> "", base |-> <<>>, at |-> 0]

Init == run \in DOMAIN Runs /\ done = {} /\ files = <<>> /\ cur = NoCur
R == Runs[run]
Ops == R.ops
Before(i, j) == Ops[i].t1 < Ops[j].t0 \/ (Ops[i].nb /\ Ops[j].nb /\ Ops[i].c1 < Ops[j].t0)
Ready(j) == j \notin done /\ \A i \in DOMAIN Ops : (i # j /\ Before(i, j)) => i \in done

\* a save that was overtaken by a later save of the same object does not derive from it
Save(o) == LET b == IF cur.root = o.root /\ cur.at < o.t0 THEN cur.base ELSE <<>>
               w == SavedFile(files, b, R.opt, o.tag, o.doc, o.size)
           IN /\ w.order = o.order /\ w.prev = o.prev /\ w.ctl = o.ctl /\ NameOf(w) = o.name
              /\ ~HasKey(files, w.ctl, w.order)
              /\ files' = Append(files, w) /\ cur' = [root |-> o.root, base |-> <<w>>, at |-> o.t0]
Load(o) == \E f \in ToSet(files) : /\ NameOf(f) = o.name /\ f.doc = o.doc
                                   /\ cur' = [root |-> o.root, base |-> <<f>>, at |-> o.t0] /\ UNCHANGED files
List(o) == /\ [i \in DOMAIN files |-> NameOf(files[i])] = o.names /\ UNCHANGED <<files, cur>>
Lin(j) == LET o == Ops[j] IN
  /\ Ready(j)
  /\ \/ o.e = "save" /\ Save(o)
     \/ o.e = "load" /\ Load(o)
     \/ o.e = "list" /\ List(o)
  /\ done' = done \cup {j}
  /\ (done' = DOMAIN Ops) => PrintT("DONE " \o ToString(run))
  /\ UNCHANGED run
Next == \E j \in DOMAIN Ops : Lin(j)
Spec == Init /\ [][Next]_vars
=============================================================================
