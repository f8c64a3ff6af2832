-------------------------------- MODULE Load --------------------------------
(* Loading a document from a chain of stored differences, in one thread or with the *)
(* differences prepared by several threads. Any of the files may be missing its end *)
(* (whole[i] = FALSE), which is found when the file is read.                        *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N,        \* longest chain
          Modes,    \* subset of {"st", "mt"}
          Waits     \* whether a call returns only after the other threads are done
VARIABLES mode, n, whole,
          next,     \* the file that is read next
          stopped,  \* the reading thread ended
          tasks,    \* files read, difference being prepared
          chan,     \* results sent and not received
          recvd,    \* how many results were received
          ready,    \* prepared differences waiting for earlier ones
          applied,  \* differences applied to the document, in order
          res,      \* "none", then the result that will be returned
          out       \* "run", then "ok" or "err": the call returned
vars == <<mode, n, whole, next, stopped, tasks, chan, recvd, ready, applied, res, out>>

Init == /\ mode \in Modes /\ n \in 0..N /\ whole \in [1..n -> BOOLEAN]
        /\ next = 1 /\ stopped = FALSE /\ tasks = {} /\ chan = {} /\ recvd = 0
        /\ ready = {} /\ applied = <<>> /\ res = "none" /\ out = "run"

Static == UNCHANGED <<mode, n, whole>>

\* one thread: read, apply, read, ...
OneByOne == /\ mode = "st" /\ out = "run"
            /\ IF next > n THEN out' = "ok" /\ UNCHANGED <<next, applied>>
               ELSE IF whole[next] THEN applied' = Append(applied, next) /\ next' = next + 1 /\ UNCHANGED out
               ELSE out' = "err" /\ UNCHANGED <<next, applied>>
            /\ Static /\ UNCHANGED <<stopped, tasks, chan, recvd, ready, res>>

\* the reading thread stops at the first file it cannot read
ReadNext == /\ mode = "mt" /\ ~stopped
            /\ IF next > n THEN stopped' = TRUE /\ UNCHANGED <<next, tasks, chan>>
               ELSE IF whole[next] THEN tasks' = tasks \cup {next} /\ next' = next + 1 /\ UNCHANGED <<stopped, chan>>
               ELSE stopped' = TRUE /\ chan' = chan \cup {<<next, "err">>} /\ UNCHANGED <<next, tasks>>
            /\ Static /\ UNCHANGED <<recvd, ready, applied, res, out>>
Prepare == /\ \E i \in tasks : tasks' = tasks \ {i} /\ chan' = chan \cup {<<i, "ok">>}
           /\ Static /\ UNCHANGED <<next, stopped, recvd, ready, applied, res, out>>

\* differences are applied in order, as far as they have arrived
RECURSIVE Take(_, _)
Take(a, r) == IF Len(a) + 1 \in r THEN Take(Append(a, Len(a) + 1), r \ {Len(a) + 1}) ELSE <<a, r>>
Receive == /\ mode = "mt" /\ res = "none" /\ recvd < n
           /\ \E m \in chan :
                /\ chan' = chan \ {m}
                /\ IF m[2] = "err" THEN res' = "err" /\ UNCHANGED <<ready, applied, recvd>>
                   ELSE LET t == Take(applied, ready \cup {m[1]})
                        IN applied' = t[1] /\ ready' = t[2] /\ recvd' = recvd + 1 /\ UNCHANGED res
           /\ Static /\ UNCHANGED <<next, stopped, tasks, out>>
\* nobody is left who could send
Closed == /\ mode = "mt" /\ res = "none" /\ recvd < n /\ chan = {} /\ tasks = {} /\ stopped
          /\ res' = "err" /\ Static /\ UNCHANGED <<next, stopped, tasks, chan, recvd, ready, applied, out>>
Finish == /\ mode = "mt" /\ res = "none" /\ recvd = n
          /\ res' = "ok" /\ Static /\ UNCHANGED <<next, stopped, tasks, chan, recvd, ready, applied, out>>
Return == /\ mode = "mt" /\ out = "run" /\ res # "none"
          /\ Waits => tasks = {} /\ stopped
          /\ out' = res /\ Static /\ UNCHANGED <<next, stopped, tasks, chan, recvd, ready, applied, res>>

Next == OneByOne \/ ReadNext \/ Prepare \/ Receive \/ Closed \/ Finish \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == applied = [i \in 1..Len(applied) |-> i]
\* S05: a document exactly when every file of the chain is whole
Right == /\ out = "ok" => Len(applied) = n /\ \A i \in 1..n : whole[i]
         /\ out = "err" => \E i \in 1..n : ~whole[i]
\* the document a difference is prepared for lives until the call returns
Alive == out # "run" => tasks = {} /\ (next > n \/ stopped \/ mode = "st")
Ends == <>(out # "run")
=============================================================================
