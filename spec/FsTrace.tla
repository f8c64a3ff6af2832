------------------------------ MODULE FsTrace ------------------------------
(* Replays the file-system calls that a real save was seen to make, and judges every *)
(* point at which the process could die: each document and archive must be, under its *)
(* name, as it was before the save or as it is after it (OldOrNew, ArcWhole and        *)
(* Convertible of module Store).                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* events: begin{files: seq of [p, kind, dir], final: seq of [p, kind, dir, len]}, create{p}, write{p, n}, rename{p, q},
\* unlink{p}, truncate{p}, end. kind: "doc" | "arc"; dir: its directory.

VARIABLES l, names, len, next, init, fin, like
\* names: path -> inode; len: inode -> bytes written since the save began (-1: untouched)
\* like: paths that a listing would show as documents
vars == <<l, names, len, next, init, fin, like>>
Init == l = 1 /\ names = <<>> /\ len = <<>> /\ next = 1 /\ init = <<>> /\ fin = <<>> /\ like = {}
Ev == Trace[l]
Err(kind, what) == PrintT("ERR " \o ToJson([at |-> l, kind |-> kind, what |-> what]))
Want(ok, kind, what) == IF ok THEN TRUE ELSE Err(kind, what)
Has(p) == p \in DOMAIN names
Without(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]

Begin == LET n == Len(Ev.files) IN
  /\ names' = [p \in {Ev.files[i].p : i \in 1..n} |-> CHOOSE i \in 1..n : Ev.files[i].p = p]
  /\ len' = [i \in 1..n |-> -1]
  /\ next' = n + 1
  /\ init' = [p \in {Ev.files[i].p : i \in 1..n} |-> CHOOSE i \in 1..n : Ev.files[i].p = p]
  /\ fin' = [p \in {Ev.final[i].p : i \in DOMAIN Ev.final} |-> Ev.final[CHOOSE i \in DOMAIN Ev.final : Ev.final[i].p = p]]
  /\ like' = ToSet(Ev.like)
Create == /\ IF Has(Ev.p) THEN /\ len' = [len EXCEPT ![names[Ev.p]] = 0] /\ UNCHANGED <<names, next>>
             ELSE /\ names' = (Ev.p :> next) @@ names /\ len' = Append(len, 0) /\ next' = next + 1
          /\ UNCHANGED <<init, fin, like>>
Write == /\ IF Has(Ev.p) THEN len' = [len EXCEPT ![names[Ev.p]] = (IF @ < 0 THEN 0 ELSE @) + Ev.n] ELSE UNCHANGED len
         /\ UNCHANGED <<names, next, init, fin, like>>
Rename == /\ IF Has(Ev.p) THEN names' = (Ev.q :> names[Ev.p]) @@ Without(names, Ev.p) ELSE UNCHANGED names
          /\ UNCHANGED <<len, next, init, fin, like>>
Unlink == names' = Without(names, Ev.p) /\ UNCHANGED <<len, next, init, fin, like>>
Other == UNCHANGED <<names, len, next, init, fin, like>>

\* state of a path in the present and at the end; "old": as before the save
Now(p) == IF ~Has(p) THEN "absent" ELSE IF p \in DOMAIN init /\ names[p] = init[p] /\ len[names[p]] = -1 THEN "old" ELSE ToString(len[names[p]])
Before(p) == IF p \in DOMAIN init THEN "old" ELSE "absent"
After(p) == IF p \notin DOMAIN fin THEN "absent" ELSE IF fin[p].same THEN "old" ELSE ToString(fin[p].len)
Docs == {p \in DOMAIN fin : fin[p].kind = "doc"}
Arcs == {p \in DOMAIN fin : fin[p].kind = "arc"}
Judge == \* of the state reached so far
  /\ \A p \in Docs : Want(Now(p) \in {Before(p), After(p)}, "crash", "a crash here leaves " \o p \o " incomplete (" \o Now(p) \o " of " \o After(p) \o " bytes)")
  /\ \A p \in Docs : Want((Now(p) # "absent") => \A a \in Arcs : fin[a].dir = fin[p].dir => Now(a) = After(a), "crash",
                          p \o " exists before the archive beside it is complete")
  \* names that are gone at the end must not look like documents meanwhile
  /\ \A p \in DOMAIN names \cap like : Want(p \in DOMAIN fin \/ p \in DOMAIN init, "crash", "a crash here leaves " \o p \o " among the documents")
\* the recorded calls must explain the files that are there at the end; otherwise the record is incomplete
End == /\ \A p \in DOMAIN fin : Want(Now(p) = After(p), "record", p \o ": " \o Now(p) \o " instead of " \o After(p))
       /\ Other

Step == \/ Ev.e = "begin" /\ Begin
        \/ Ev.e = "create" /\ Create
        \/ Ev.e = "write" /\ Write
        \/ Ev.e = "truncate" /\ Create
        \/ Ev.e = "rename" /\ Rename
        \/ Ev.e = "unlink" /\ Unlink
        \/ Ev.e = "other" /\ Other
        \/ Ev.e = "end" /\ End
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ (l = 1 \/ Ev.e = "begin" \/ Judge)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
