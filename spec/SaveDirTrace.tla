---------------------------- MODULE SaveDirTrace ----------------------------
(* Checks recorded runs on real save directories against SaveDir. A save or removal *)
(* that was interrupted (res = "crash") may have taken effect or not; which of both  *)
(* is decided by what the next events show.                                          *)
EXTENDS SaveDir, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, fs, cv, alt, ed, arch
\* alt: the other possible contents after an interrupted call, <<>> when there is none
\* ed: the files of the source were edited since the directory was opened; arch: the versions
\* that documents were saved in
vars == <<l, fs, cv, alt, ed, arch>>
Init == l = 1 /\ fs = <<>> /\ cv = 1 /\ alt = <<>> /\ ed = FALSE /\ arch = {}
Ev == Trace[l]
Err(kind, what) == PrintT("ERR " \o ToJson([at |-> l, kind |-> kind, what |-> what]))
Want(ok, kind, what) == IF ok THEN TRUE ELSE Err(kind, what)

Begin == fs' = <<>> /\ cv' = Ev.v /\ alt' = <<>>
Restart == cv' = Ev.v /\ UNCHANGED <<fs, alt>>
\* the directory opened with another source by the same process: refused (0), or that source
Reopen == /\ Want(Ev.got \in {0, Ev.v}, "open", "opened with source " \o ToString(Ev.v) \o " the directory answers with source " \o ToString(Ev.got))
          /\ UNCHANGED <<fs, alt, cv>>

\* the source cannot be stored with the first document of a version after it was edited:
\* such a save may be refused; it must not store the edited source as this version's
Refused == /\ Want(ed /\ cv \notin arch, "save", "a save failed: " \o Ev.err)
           /\ UNCHANGED <<fs, alt, cv>>
SourceFiles == UNCHANGED <<fs, alt, cv>>

Save ==
  LET a == SaveAllowed(fs, cv, Ev.name, Ev.ow, Ev.reserved)
      s == Saved(fs, cv, Ev.name, Ev.doc)
  IN /\ CASE Ev.res = "ok" ->
               /\ Want(a, IF Ev.reserved THEN "reserved" ELSE "save", "saving " \o Ev.name \o " should have been refused")
               /\ fs' = IF Ev.reserved THEN fs ELSE s
               /\ alt' = <<>>
          [] Ev.res = "err" ->
               /\ Want(~a, "save", "saving " \o Ev.name \o " failed: " \o Ev.err)
               /\ fs' = fs /\ alt' = <<>>
          [] Ev.res = "fault" -> fs' = fs /\ alt' = <<>>   \* an error because of a failing file system
          [] Ev.res = "crash" -> fs' = fs /\ alt' = IF a THEN <<s>> ELSE <<>>
     /\ UNCHANGED cv

RemoveFile ==
  LET a == RemoveAllowed(fs, Ev.v, Ev.name, Ev.reserved)
  IN /\ CASE Ev.res = "ok" -> Want(a, IF Ev.reserved THEN "reserved" ELSE "remove", "removing " \o Ev.name \o " should have been refused")
          [] OTHER -> Want(~a, "remove", "removing " \o Ev.name \o " failed: " \o Ev.err)
     /\ fs' = IF Ev.res = "ok" /\ ~Ev.reserved THEN Drop(fs, Ev.v, Ev.name) ELSE fs
     /\ UNCHANGED <<cv, alt>>

\* after an interrupted call: which of the two contents do the listed keys and the loaded document fit
Fits(c, keys) == Keys(c) = keys
List ==
  LET keys == {<<Ev.files[i][1], Ev.files[i][2]>> : i \in DOMAIN Ev.files}
      two == alt # <<>> /\ Fits(alt[1], keys) /\ ~Fits(fs, keys)
      f == IF two THEN alt[1] ELSE fs
  IN /\ Want(Fits(f, keys), "list", "expected files " \o ToString(Keys(f)) \o " but got " \o ToString(keys))
     /\ Want(Len(Ev.files) = Cardinality(keys), "list", "a file is listed twice")
     \* sorted by modification time; equal times (coarse clocks) may come in any order
     /\ Want(\A i \in 1..(Len(Ev.mtimes) - 1) : Ev.mtimes[i] <= Ev.mtimes[i + 1], "list", "the listing is not sorted by modification time")
     /\ Want((Fits(f, keys) /\ \A i, j \in DOMAIN Ev.mtimes : Ev.mtimes[i] = Ev.mtimes[j] => i = j)
               => Ev.files = [i \in DOMAIN f |-> <<f[i].v, f[i].name>>], "list", "the listing is not in the order of the saves: " \o ToString(Ev.files))
     \* the keys decide, unless the interrupted save would overwrite: then only a load can tell
     /\ fs' = f
     /\ alt' = IF alt = <<>> \/ two \/ Keys(alt[1]) # Keys(fs) THEN <<>> ELSE alt
     /\ UNCHANGED cv

\* a file was cut short and files loaded: it does not load, the others do
Cut ==
  LET uses(x) == x.v = Ev.v /\ (IF Ev.src THEN x.v # cv ELSE x.name = Ev.name)
      want(x) == IF x.v = cv THEN Get(fs, x.v, x.name).doc ELSE x.conv[ToString(Get(fs, x.v, x.name).doc)]
  IN /\ \A i \in DOMAIN Ev.loads :
          LET x == Ev.loads[i]
          IN IF uses(x) THEN Want(x.res = "err", "cut", Ev.name \o " cut to " \o ToString(Ev.at) \o " bytes: loading " \o x.name \o " gave a document")
             ELSE IF ~Has(fs, x.v, x.name) THEN Want(FALSE, "cut", x.name \o " should not exist")
             ELSE Want(IF x.res = "ok" THEN x.doc = want(x) ELSE Ev.src /\ x.v = Ev.v, "cut",
                       "with " \o Ev.name \o " cut to " \o ToString(Ev.at) \o " bytes, loading " \o x.name \o " gave " \o x.res)
     /\ UNCHANGED <<fs, cv, alt>>

Load ==
  LET h == Has(fs, Ev.v, Ev.name)
      want(c) == IF Ev.v = cv THEN Get(c, Ev.v, Ev.name).doc ELSE Ev.conv[ToString(Get(c, Ev.v, Ev.name).doc)]
      two == alt # <<>> /\ Has(alt[1], Ev.v, Ev.name) /\ Ev.res = "ok" /\ want(alt[1]) = Ev.doc /\ (h => want(fs) # Ev.doc)
      c == IF two THEN alt[1] ELSE fs
      hc == Has(c, Ev.v, Ev.name)
      \* the conversion of the document refers to a row that the present source does not have
      dang == Ev.v # cv /\ want(c) \in ToSet(Ev.dangling)
  IN /\ IF Ev.res = "ok"
        THEN /\ Want(hc, "load", Ev.name \o " does not exist but was loaded")
             /\ hc => Want(Ev.val => ~dang, "conv", Ev.name \o " refers to rows that there are not, but was loaded with validation")
             /\ hc => Want(want(c) = Ev.doc, IF Ev.v = cv THEN "load" ELSE "conv", Ev.name \o " did not give the saved document")
        ELSE hc => Want(Ev.val /\ (dang \/ (Ev.v # cv /\ Ev.invalid)), IF Ev.v = cv THEN "load" ELSE "conv", "loading " \o Ev.name \o " failed: " \o Ev.err)
     /\ fs' = c
     \* a load of the file in question settles what the interrupted call did
     /\ alt' = IF alt = <<>> \/ two THEN <<>>
               ELSE LET k == CHOOSE k \in DOMAIN alt[1] : alt[1][k] \notin ToSet(fs)
                    IN IF alt[1][k].v = Ev.v /\ alt[1][k].name = Ev.name THEN <<>> ELSE alt
     /\ UNCHANGED cv

Step == \/ Ev.e = "begin" /\ Begin
        \/ Ev.e = "restart" /\ Restart
        \/ Ev.e = "reopen" /\ Reopen
        \/ Ev.e \in {"edited", "restored"} /\ SourceFiles
        \/ Ev.e = "refused" /\ Refused
        \/ Ev.e = "save" /\ Save
        \/ Ev.e = "remove" /\ RemoveFile
        \/ Ev.e = "list" /\ List
        \/ Ev.e = "load" /\ Load
        \/ Ev.e = "cut" /\ Cut
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step
        /\ ed' = (Ev.e = "edited" \/ (ed /\ Ev.e \notin {"begin", "restart", "restored"}))
        /\ arch' = IF Ev.e = "begin" THEN {} ELSE IF Ev.e = "save" /\ Ev.res = "ok" THEN arch \cup {cv} ELSE arch
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
