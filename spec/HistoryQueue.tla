---------------------------- MODULE HistoryQueue ----------------------------
(* Background saves: calls append snapshots to a queue, one worker writes them one    *)
(* after another and runs the callback of each. The save-if-vacant form looks at a     *)
(* counter of unfinished saves. The caller can stop the worker within a save ("save")  *)
(* or within a callback ("cb") to steer real runs into every order of events.          *)
(* CountAt = "call": a save counts from the call on; "start": from when it starts,      *)
(* which lets the vacant form accept behind a waiting save.                            *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Roots, Depth, MaxCalls, CountAt, Pick(_)

VARIABLES doc, queue, run, files, cbs, calls, stop, counter, okv, log
vars == <<doc, queue, run, files, cbs, calls, stop, counter, okv, log>>
View == <<doc, queue, run, files, cbs, calls, stop, counter, okv>>
Ident(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement({x \in S : Len(log) >= 0})}

Idle == queue = <<>> /\ run = <<>>
Init == /\ doc = [r \in Roots |-> 0] /\ queue = <<>> /\ run = <<>> /\ files = <<>> /\ cbs = <<>>
        /\ calls = <<>> /\ stop = "no" /\ counter = 0 /\ okv = TRUE /\ log = <<>>
Log(x) == log' = Append(log, x)
More == Len(log) < Depth

Edit(r) == /\ More /\ doc[r] < 3 * MaxCalls /\ doc' = [doc EXCEPT ![r] = @ + 1] /\ Log([op |-> "edit", root |-> r])
           /\ UNCHANGED <<queue, run, files, cbs, calls, stop, counter, okv>>
Enq(r) == LET c == [id |-> Len(calls) + 1, root |-> r, doc |-> doc[r]] IN
          /\ calls' = Append(calls, c) /\ queue' = Append(queue, c)
          /\ counter' = IF CountAt = "call" THEN counter + 1 ELSE counter
Nb(r) == /\ More /\ Len(calls) < MaxCalls /\ Enq(r) /\ Log([op |-> "nb", root |-> r])
         /\ UNCHANGED <<doc, run, files, cbs, stop, okv>>
Vacant(r) == /\ More /\ Len(calls) < MaxCalls
             /\ IF counter = 0 THEN Enq(r) /\ okv' = (okv /\ Len(files) = Len(calls)) ELSE UNCHANGED <<calls, queue, counter, okv>>
             /\ Log([op |-> "vacant", root |-> r])
             /\ UNCHANGED <<doc, run, files, cbs, stop>>
Stop(s) == /\ More /\ Idle /\ stop = "no" /\ stop' = s /\ Log([op |-> "stop", at |-> s])
           /\ UNCHANGED <<doc, queue, run, files, cbs, calls, counter, okv>>
Release == /\ More /\ stop # "no" /\ ~Idle /\ stop' = "no" /\ Log([op |-> "release"])
           /\ UNCHANGED <<doc, queue, run, files, cbs, calls, counter, okv>>
Drain == /\ More /\ Idle /\ Len(calls) > 0 /\ stop = "no" /\ log[Len(log)].op # "drain" /\ Log([op |-> "drain"])
         /\ UNCHANGED <<doc, queue, run, files, cbs, calls, stop, counter, okv>>
\* a load when nothing is running (kind of file picked by the harness)
Load(r) == /\ More /\ Idle /\ Len(files) > 0 /\ stop = "no" /\ log[Len(log)].op # "load" /\ Log([op |-> "load", root |-> r])
           /\ UNCHANGED <<doc, queue, run, files, cbs, calls, stop, counter, okv>>

Start == /\ run = <<>> /\ queue # <<>>
         /\ run' = <<[c |-> Head(queue), st |-> "save"]>> /\ queue' = Tail(queue)
         /\ counter' = IF CountAt = "start" THEN counter + 1 ELSE counter
         /\ UNCHANGED <<doc, files, cbs, calls, stop, okv, log>>
Finish == /\ run # <<>> /\ run[1].st = "save" /\ stop # "save"
          /\ files' = Append(files, [id |-> run[1].c.id, doc |-> run[1].c.doc])
          /\ run' = <<[run[1] EXCEPT !.st = "cb"]>> /\ counter' = counter - 1
          /\ UNCHANGED <<doc, queue, cbs, calls, stop, okv, log>>
Callback == /\ run # <<>> /\ run[1].st = "cb" /\ stop # "cb"
            /\ cbs' = Append(cbs, run[1].c.id) /\ run' = <<>>
            /\ UNCHANGED <<doc, queue, files, calls, stop, counter, okv, log>>

Worker == Start \/ Finish \/ Callback
Caller == \/ \E r \in Pick(Roots) : Edit(r) \/ Nb(r) \/ Vacant(r) \/ Load(r)
          \/ \E s \in Pick({"save", "cb"}) : Stop(s)
          \/ Release \/ Drain
Next == Worker \/ Caller
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(Release)

---------------------------------------------------------------------------
Fifo == /\ [i \in DOMAIN files |-> files[i].id] = [i \in DOMAIN files |-> i]
        /\ \A i \in DOMAIN files : files[i].doc = calls[i].doc        \* the snapshot of its call
OneCb == \A i, j \in DOMAIN cbs : cbs[i] = cbs[j] => i = j
CbAfter == \A i \in DOMAIN cbs : cbs[i] <= Len(files)
VacantSafe == okv
CounterOk == CountAt = "call" => counter = Len(calls) - Len(files)
All == Fifo /\ OneCb /\ CbAfter /\ VacantSafe /\ CounterOk
AllServed == (stop = "no" /\ Len(log) = Depth) ~> (stop = "no" => Len(cbs) = Len(calls))

Emit == Len(log) = Depth => PrintT("TRACE " \o ToJson(log))
EmitInv == Emit
=============================================================================
