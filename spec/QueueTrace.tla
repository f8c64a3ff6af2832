----------------------------- MODULE QueueTrace -----------------------------
(* Judges recorded calls of background saves: results of the vacant form, callbacks,  *)
(* and what was on the disk right after an accepted vacant call.                       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* begin; call{id, vacant, res, settled, name}; obs{names} (right after an accepted vacant call); cb{id, ok, what}; end
VARIABLES l, calls, got, seen
vars == <<l, calls, got, seen>>
Init == l = 1 /\ calls = <<>> /\ got = <<>> /\ seen = {}
Ev == Trace[l]
Err(kind, what) == PrintT("ERR " \o ToJson([at |-> l, kind |-> kind, what |-> what]))
Want(ok, kind, what) == IF ok THEN TRUE ELSE Err(kind, what)

Begin == calls' = <<>> /\ got' = <<>> /\ seen' = {}
Call == /\ Want(Ev.vacant \/ Ev.res, "vacant", "a plain background save was refused")
        \* nothing else was going on: it must be accepted
        /\ Want(Ev.res \/ ~Ev.settled, "vacant", "a save was refused although none was queued or running")
        /\ calls' = IF Ev.res THEN Append(calls, [id |-> Ev.id, name |-> Ev.name]) ELSE calls
        /\ UNCHANGED <<got, seen>>
\* every save called before the accepted one must have been written
Obs == /\ LET missing == {i \in 1..(Len(calls) - 1) : calls[i].name \notin ToSet(Ev.names)}
          IN Want(missing = {}, "vacant", "a save was accepted while earlier ones were not written: " \o ToString(missing))
       /\ seen' = seen \cup ToSet(Ev.names) /\ UNCHANGED <<calls, got>>
Cb == /\ Want(Ev.id \in {calls[i].id : i \in DOMAIN calls}, "callback", "a callback for a save that was refused or never made")
      /\ Want(Ev.id \notin ToSet(got), "callback", "a second callback of one save")
      /\ Want(Ev.ok, "callback", "a background save failed: " \o Ev.what)
      /\ got' = Append(got, Ev.id) /\ UNCHANGED <<calls, seen>>
End == /\ Want({calls[i].id : i \in DOMAIN calls} = ToSet(got), "callback",
               "saves without callback: " \o ToString({calls[i].id : i \in DOMAIN calls} \ ToSet(got)))
       /\ UNCHANGED <<calls, got, seen>>
Step == \/ Ev.e = "begin" /\ Begin
        \/ Ev.e = "call" /\ Call
        \/ Ev.e = "obs" /\ Obs
        \/ Ev.e = "cb" /\ Cb
        \/ Ev.e = "end" /\ End
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
