---------------------------- MODULE HistoryTrace ----------------------------
(* Checks recorded runs of the implementation against History. Every event is one  *)
(* step; a disagreement is reported with its kind, and the recorded outcome is      *)
(* adopted so that later events are still judged.                                  *)
EXTENDS History, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, opt, vers, cv, cur, pend, ed
\* pend: the save during which the process died, until it is known whether it took effect
\* ed: the files of the source were edited since the history was opened
vars == <<l, opt, vers, cv, cur, pend, ed>>
NoCur == [root |-> 0, base |-> <<>>]

Init == l = 1 /\ opt = <<>> /\ vers = <<>> /\ cv = 1 /\ cur = NoCur /\ pend = <<>> /\ ed = FALSE

Ev == Trace[l]
Known(v) == \E i \in DOMAIN vers : vers[i].v = v
VI(v) == CHOOSE i \in DOMAIN vers : vers[i].v = v
FilesOf(v) == IF Known(v) THEN vers[VI(v)].files ELSE <<>>
Put(v, fs) == IF Known(v) THEN [vers EXCEPT ![VI(v)].files = fs] ELSE Append(vers, [v |-> v, files |-> fs, opt |-> opt])
Err(kind, what) == PrintT("ERR " \o ToJson([at |-> l, kind |-> kind, what |-> what]))
Want(ok, kind, what) == IF ok THEN TRUE ELSE Err(kind, what)

Begin == /\ opt' = Ev.opt /\ vers' = <<>> /\ cv' = Ev.v /\ cur' = NoCur
Restart == /\ cv' = Ev.v /\ cur' = NoCur /\ opt' = Ev.opt /\ UNCHANGED vers
\* the directory opened with another source by the same process: refused (0), or that source
Reopen == /\ Want(Ev.got \in {0, Ev.v}, "open", "opened with source " \o ToString(Ev.v) \o " the history answers with source " \o ToString(Ev.got))
          /\ UNCHANGED <<opt, vers, cv, cur>>
New == /\ cur' = IF cur.root = Ev.root THEN NoCur ELSE cur
       /\ UNCHANGED <<opt, vers, cv>>

\* the source cannot be stored with the first file of a version after it was edited:
\* such a save may be refused; it must not store the edited source as this version's
Refused == /\ Want(ed /\ ~Known(cv), "save", "a save failed: " \o Ev.err)
           /\ UNCHANGED <<opt, vers, cv, cur>>
SourceFiles == UNCHANGED <<opt, vers, cv, cur>>

Save ==
  LET fs == FilesOf(cv)
      b == IF cur.root = Ev.root THEN cur.base ELSE <<>>
      w == SavedFile(fs, b, opt, Ev.tag, Ev.doc, Ev.size)
      d == DeriveFrom(fs, b, opt)
      f == [w EXCEPT !.ctl = Ev.ctl, !.prev = Ev.prev, !.order = Ev.order]
      \* sizes along the chain as they follow from the phase really taken
      g == IF f.order = w.order THEN f
           ELSE [f EXCEPT !.hdr = IF d = <<>> \/ Len(Ev.order) - 1 > Len(d[1].hdr) THEN w.hdr ELSE PopPush(d[1].hdr, Len(Ev.order) - 1, Ev.size)]
  IN /\ Want(w.order = Ev.order /\ w.prev = Ev.prev, "phase",
             "expected " \o NameOf(w) \o " but got " \o Ev.name)
     /\ Want(w.ctl = Ev.ctl /\ NameOf(f) = Ev.name /\ Ev.rtag = Ev.tag, "name",
             "expected " \o NameOf(w) \o " but got " \o Ev.name \o " with tag " \o ToString(Ev.rtag))
     /\ Want(~HasKey(fs, Ev.ctl, Ev.order), "reuse", "the name of an existing file was used again: " \o Ev.name)
     /\ vers' = Put(cv, Append(SelectSeq(fs, LAMBDA x : Key(x) # Key(g)), g))
     /\ cur' = [root |-> Ev.root, base |-> <<g>>]
     /\ UNCHANGED <<opt, cv>>

\* a save that failed because of the file system leaves everything as it was
FailSave == UNCHANGED <<opt, vers, cv, cur>>
\* the process died during a save; the next process shows whether the save took effect
CrashSave == /\ pend' = <<[b |-> IF cur.root = Ev.root THEN cur.base ELSE <<>>, tag |-> Ev.tag, doc |-> Ev.doc]>>
             /\ UNCHANGED <<opt, vers, cv, cur>>
Recover ==
  /\ IF Ev.extra = <<>> THEN UNCHANGED vers
     ELSE LET x == Ev.extra[1]
              fs == FilesOf(cv)
              w == SavedFile(fs, pend[1].b, opt, pend[1].tag, pend[1].doc, x.size)
              f == [w EXCEPT !.ctl = x.ctl, !.prev = x.prev, !.order = x.order]
          IN /\ Want(Len(Ev.extra) = 1, "crash", "an interrupted save left several files")
             /\ Want(f = w /\ NameOf(f) = x.name /\ x.rtag = pend[1].tag, "crash", "the interrupted save should have given " \o NameOf(w) \o " but left " \o x.name)
             /\ vers' = Put(cv, Append(fs, f))
  /\ pend' = <<>>
  /\ UNCHANGED <<opt, cv, cur>>

Find(v, n) == LET F == {f \in ToSet(FilesOf(v)) : NameOf(f) = n} IN IF F = {} THEN <<>> ELSE <<CHOOSE f \in F : TRUE>>

Load ==
  LET f == Find(Ev.v, Ev.name)
  IN /\ Want(f # <<>>, "list", "a file that should not exist was loaded: " \o Ev.name)
     /\ IF f = <<>> THEN TRUE
        ELSE IF Ev.res # "ok"
        THEN Want(Ev.v # cv /\ Ev.val /\ (Ev.dangling \/ Ev.invalid), IF Ev.v = cv THEN "load" ELSE "conv", "loading " \o Ev.name \o " failed: " \o Ev.err)
        ELSE IF Ev.v # cv /\ Ev.val /\ Ev.dangling
        THEN Err("conv", Ev.name \o " refers to rows that there are not, but was loaded with validation")
        ELSE IF Ev.v = cv THEN Want(f[1].doc = Ev.doc, "load", Ev.name \o " did not give the saved document")
        ELSE Want(Ev.want = Ev.doc, "conv", Ev.name \o " of an older source did not give the converted document")
     /\ cur' = IF Ev.res # "ok" THEN cur
               ELSE IF Ev.v = cv /\ f # <<>> THEN [root |-> Ev.root, base |-> f]
               ELSE IF cur.root = Ev.root THEN NoCur ELSE cur
     /\ UNCHANGED <<opt, vers, cv>>

NonEmpty(vs) == SelectSeq(vs, LAMBDA v : v.files # <<>>)
Names(fs) == [i \in DOMAIN fs |-> NameOf(fs[i])]
TagsOf(fs) == [i \in DOMAIN fs |-> fs[i].tag]
List ==
  LET ne == NonEmpty(vers)
      w == [i \in DOMAIN ne |-> [v |-> ne[i].v, names |-> Names(ne[i].files), tags |-> TagsOf(ne[i].files)]]
      nw == IF ne = <<>> THEN <<>> ELSE LET z == ne[Len(ne)] IN <<z.v, NameOf(z.files[Len(z.files)])>>
  IN /\ Want(w = Ev.vers, "list", "expected listing " \o ToString(w) \o " but got " \o ToString(Ev.vers))
     /\ Want(nw = Ev.newest, "newest", "expected newest " \o ToString(nw) \o " but got " \o ToString(Ev.newest))
     /\ UNCHANGED <<opt, vers, cv, cur>>

\* what is left after removing files, as recorded
Left(v) == LET H == {i \in DOMAIN Ev.after : Ev.after[i].v = v} IN IF H = {} THEN {} ELSE ToSet(Ev.after[CHOOSE i \in H : TRUE].names)
Adopt == [i \in DOMAIN vers |-> [vers[i] EXCEPT !.files = SelectSeq(@, LAMBDA f : NameOf(f) \in Left(vers[i].v))]]
NamesOfKeys(fs, K) == {NameOf(f) : f \in {x \in ToSet(fs) : Key(x) \in K}}

PruneAll ==
  LET ne == NonEmpty(vers)
      n == Len(ne)
      lastFs == ne[n].files
      \* number of files of version i that are among the latest `keep`
      below(i) == FoldLeft(LAMBDA a, j : a + Len(ne[j].files), 0, [x \in 1..(n - i) |-> i + x])
      kept(i) == LET r == Ev.keep - below(i) IN IF r <= 0 THEN 0 ELSE IF r > Len(ne[i].files) THEN Len(ne[i].files) ELSE r
      need(i) == NamesOfKeys(ne[i].files, NeededKeys(ne[i].files, LatestN(ne[i].files, kept(i)), ne[i].opt))
      all(i) == ToSet(Names(ne[i].files))
  IN /\ IF n = 0 THEN Want(Ev.after = <<>>, "prune", "files appeared")
        ELSE \A i \in 1..n :
          LET lf == Left(ne[i].v)
          IN /\ Want(kept(i) > 0 => need(i) \subseteq lf, "prune", "pruning removed files that are needed: " \o ToString(need(i) \ lf))
             /\ Want(lf \subseteq all(i), "prune", "files appeared: " \o ToString(lf))
             /\ Want((Ev.keep = 0 \/ (Ev.keep < Len(lastFs) /\ vers[Len(vers)].files # <<>>)) => lf = (IF i = n /\ kept(i) > 0 THEN need(i) ELSE {}), "prune",
                     "pruning left files that no kept file needs: " \o ToString(lf))
             /\ Want((i < n) => (lf = {} \/ lf = all(i)), "prune", "an older version was removed in part")
     \* a version stays known as long as its directory exists
     /\ vers' = SelectSeq(Adopt, LAMBDA x : x.v \in ToSet(Ev.dirs))
     /\ UNCHANGED <<opt, cv, cur>>

\* removal within the current version: exactly the kept files and what they need is left
Exactly(K, what) ==
  LET fs == FilesOf(cv)
      need == NamesOfKeys(fs, NeededKeys(fs, K, opt))
  IN /\ Want(need \subseteq Left(cv), "prune", what \o " removed files that are needed: " \o ToString(need \ Left(cv)))
     /\ Want(Left(cv) \subseteq need, "prune", what \o " left files that no kept file needs: " \o ToString(Left(cv) \ need))
     /\ Want(\A i \in DOMAIN vers : vers[i].v # cv => Left(vers[i].v) = ToSet(Names(vers[i].files)), "prune", what \o " changed another version")
     /\ vers' = Adopt
     /\ UNCHANGED <<opt, cv, cur>>
PruneDirE == Exactly(LatestN(FilesOf(cv), Ev.keep), "pruning")
KeepE == Exactly({f \in ToSet(FilesOf(cv)) : NameOf(f) \in ToSet(Ev.names)}, "keeping files")

\* a file was cut short and every file loaded; the recorded outcome of each load is
\* "doc" (the saved document), "other" (another document) or "err"
OptOf(v) == vers[VI(v)].opt
Cut ==
  LET uses(x) == IF Ev.file = "src" THEN x.v = Ev.v /\ x.v # cv
                 ELSE /\ x.v = Ev.v /\ Find(x.v, x.name) # <<>>
                      /\ Ev.file \in ToSet(Names(Chain(FilesOf(x.v), Find(x.v, x.name)[1], OptOf(x.v))))
      ok(x) == IF uses(x) THEN {"err"}
               \* files about the version
               ELSE IF Ev.file = "info" \/ (Ev.file = "src" /\ x.v = Ev.v) THEN {"err", "doc"}
               ELSE {"doc"}
  IN /\ \A i \in DOMAIN Ev.loads :
          Want(Ev.loads[i].res \in ok(Ev.loads[i]), "cut",
               "with " \o Ev.file \o " cut to " \o ToString(Ev.at) \o " bytes, loading " \o Ev.loads[i].name \o " gave " \o Ev.loads[i].res)
     /\ UNCHANGED <<opt, vers, cv, cur>>

Step == \/ /\ \/ Ev.e = "begin" /\ Begin
              \/ Ev.e = "restart" /\ Restart
              \/ Ev.e = "reopen" /\ Reopen
              \/ Ev.e \in {"edited", "restored"} /\ SourceFiles
              \/ Ev.e = "refused" /\ Refused
              \/ Ev.e = "new" /\ New
              \/ Ev.e = "save" /\ Save
              \/ Ev.e = "load" /\ Load
              \/ Ev.e = "list" /\ List
              \/ Ev.e = "prune" /\ PruneAll
              \/ Ev.e = "prunedir" /\ PruneDirE
              \/ Ev.e = "keep" /\ KeepE
              \/ Ev.e = "cut" /\ Cut
              \/ Ev.e = "failsave" /\ FailSave
           /\ pend' = IF Ev.e = "begin" THEN <<>> ELSE pend
        \/ Ev.e = "crashsave" /\ CrashSave
        \/ Ev.e = "recover" /\ Recover
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step
        /\ ed' = (Ev.e = "edited" \/ (ed /\ Ev.e \notin {"begin", "restart", "restored"}))
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
