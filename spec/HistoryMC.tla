----------------------------- MODULE HistoryMC -----------------------------
(* One user of a history directory: saves of two document objects with any sizes,  *)
(* loads of any file, new objects, process restarts, changes of the source,        *)
(* pruning and explicit removal. The cache of composed documents is modelled like   *)
(* the implementation's, to show that it never changes an outcome.                  *)
EXTENDS History, Json, IOUtils

CONSTANTS Opts,      \* set of options
          Sizes, Roots, MaxSaves, Depth, Vers, Feat,
          Pick(_)    \* identity for exhaustive runs, one random element in simulation

VARIABLES opt, vers, cv, cur, cache, saves, log, done
vars == <<opt, vers, cv, cur, cache, saves, log, done>>

\* vers : sequence of [v, files, opt] (the options its files were saved with); cv : current version; cur : [root, base]; cache : sequence of
\* [ph, key, doc] ordered by phase
NoCur == [root |-> 0, base |-> <<>>]
CI == CHOOSE i \in DOMAIN vers : vers[i].v = cv
Known(v) == \E i \in DOMAIN vers : vers[i].v = v
Files == IF Known(cv) THEN vers[CI].files ELSE <<>>
PutFiles(fs) == IF Known(cv) THEN [vers EXCEPT ![CI].files = fs] ELSE Append(vers, [v |-> cv, files |-> fs, opt |-> opt])
All == {<<i, j>> : i \in DOMAIN vers, j \in 1..MaxSaves}
Refs == {x \in All : x[2] <= Len(vers[x[1]].files)}
Has(f) == f \in Feat
More == ~done /\ Len(log) < Depth
Log(x) == log' = Append(log, x)

Init == /\ opt \in Opts
        /\ vers = <<>> /\ cv = 1 /\ cur = NoCur /\ cache = <<>> /\ saves = 0
        /\ log = <<>> /\ done = FALSE

---------------------------------------------------------------------------
\* the cache: documents of files by phase, newest phase last
CacheUpTo(c, ph) == SelectSeq(c, LAMBDA e : e.ph < ph)
CacheHit(c, keys) == \* position in `keys` up to which the cache gives the document, 0: none
  IF keys = <<>> \/ c = <<>> THEN [n |-> 0, doc |-> SrcDoc]
  ELSE IF LastOf(c).key = LastOf(keys) THEN [n |-> Len(keys), doc |-> LastOf(c).doc]
  ELSE LET H == {e \in ToSet(c) : e.ph < opt.maxp /\ e.ph + 1 <= Len(keys) /\ keys[e.ph + 1] = e.key}
       IN IF H = {} THEN [n |-> 0, doc |-> SrcDoc]
          ELSE LET e == CHOOSE x \in H : \A y \in H : y.ph <= x.ph IN [n |-> e.ph + 1, doc |-> e.doc]
RECURSIVE Fill(_, _, _, _)
Fill(c, ch, i, d) == \* applies the files from position i on, caching phases below the maximum
  IF i > Len(ch) THEN [cache |-> c, doc |-> d]
  ELSE LET nd == IF d = ch[i].from THEN ch[i].doc ELSE Broken
       IN Fill(IF i - 1 < opt.maxp THEN Append(c, [ph |-> i - 1, key |-> Key(ch[i]), doc |-> nd]) ELSE c, ch, i + 1, nd)
ComposeForSave(c, ch) ==
  LET h == CacheHit(c, [i \in DOMAIN ch |-> Key(ch[i])])
  IN Fill(CacheUpTo(c, IF h.n = 0 THEN 0 ELSE h.n), ch, h.n + 1, h.doc)
LoadWithCache(c, ch) ==
  LET h == CacheHit(c, [i \in DOMAIN ch |-> Key(ch[i])])
  IN FoldLeft(LAMBDA d, f : IF d = f.from THEN f.doc ELSE Broken, h.doc, SubSeq(ch, h.n + 1, Len(ch)))

BaseOf(r) == IF cur.root = r THEN cur.base ELSE <<>>
DepsOf(f) == \* the files a saved file's difference starts from
  LET c == Chain(Files, f, opt) IN IF Len(c) <= 1 THEN <<>> ELSE SubSeq(c, 1, Len(c) - 1)

Save(r, size) ==
  LET f0 == SavedFile(Files, BaseOf(r), opt, <<>>, saves + 1, size)
      d == DeriveFrom(Files, BaseOf(r), opt)
      ch == IF d = <<>> THEN <<>>
            ELSE LET c == Chain(Files, d[1], opt)
                     ph == Phase(f0)
                 IN IF ph = opt.maxp /\ opt.cum THEN c ELSE SubSeq(c, 1, ph)
      cs == ComposeForSave(cache, ch)
      \* the implementation takes the difference to what the cache gives
      f == [f0 EXCEPT !.from = cs.doc]
  IN /\ saves < MaxSaves
     /\ vers' = PutFiles(Append(Files, f))
     /\ cur' = [root |-> r, base |-> <<f>>]
     /\ cache' = Append(CacheUpTo(cs.cache, Phase(f)), [ph |-> Phase(f), key |-> Key(f), doc |-> f.doc])
     /\ saves' = saves + 1
     /\ Log([op |-> "save", root |-> r, size |-> size])
     /\ UNCHANGED <<opt, cv, done>>

NewRoot(r) ==
  /\ cur' = IF cur.root = r THEN NoCur ELSE cur
  /\ Log([op |-> "new", root |-> r])
  /\ UNCHANGED <<opt, vers, cv, cache, saves, done>>

Load(r, x) ==
  /\ cur' = IF vers[x[1]].v = cv THEN [root |-> r, base |-> <<vers[x[1]].files[x[2]]>>]
            ELSE IF cur.root = r THEN NoCur ELSE cur
  /\ Log([op |-> "load", root |-> r, ver |-> x[1], file |-> x[2]])
  /\ UNCHANGED <<opt, vers, cv, cache, saves, done>>

\* options may change together with the source, not for a version that has files
Restart(v, o) ==
  /\ Known(v) => o = vers[CHOOSE i \in DOMAIN vers : vers[i].v = v].opt
  /\ cv' = v /\ cur' = NoCur /\ cache' = <<>> /\ opt' = o
  /\ Log([op |-> "restart", v |-> v, opt |-> o])
  /\ UNCHANGED <<vers, saves, done>>

\* all versions: older ones go as a whole and only when none of their files is among the latest n
PruneAll(n) ==
  LET k == Len(vers)
      tot(i) == FoldLeft(LAMBDA a, j : a + Len(vers[j].files), 0, [x \in 1..(k - i + 1) |-> i + x - 1])
  IN /\ vers # <<>>
     /\ vers' = IF n = 0 THEN <<>>
                ELSE IF n < Len(vers[k].files)
                THEN <<[vers[k] EXCEPT !.files = PruneDir(@, n, vers[k].opt)]>>
                ELSE LET G == {i \in 2..k : tot(i) > n}
                     IN IF G = {} THEN vers ELSE SubSeq(vers, CHOOSE i \in G : \A j \in G : j <= i, k)
     /\ Log([op |-> "prune", keep |-> n])
     /\ UNCHANGED <<opt, cv, cur, cache, saves, done>>

KeepOnly(S) ==
  /\ Known(cv) /\ Files # <<>>
  /\ vers' = PutFiles(KeepKeys(Files, NeededKeys(Files, {Files[i] : i \in S}, opt), opt))
  /\ Log([op |-> "keep", files |-> SetToSortSeq(S, <)])
  /\ UNCHANGED <<opt, cv, cur, cache, saves, done>>

Finish == ~done /\ Len(log) >= Depth /\ done' = TRUE
          /\ PrintT("TRACE " \o ToJson([opt |-> opt, log |-> log]))
          /\ UNCHANGED <<opt, vers, cv, cur, cache, saves, log>>

\* makes a set depend on the state, so that random choices are made anew in every step
St(S) == {x \in S : saves >= 0}
NextOpts(v) == IF Known(v) THEN {vers[CHOOSE i \in DOMAIN vers : vers[i].v = v].opt} ELSE IF Has("opts") THEN St(Opts) ELSE {opt}
Step == \/ \E r \in Pick(St(Roots)), s \in Pick(St(Sizes)) : Save(r, s)
        \/ Has("more") /\ \E r \in Pick(St({1})), s \in Pick(St(Sizes)) : Save(r, s)
        \/ Has("more") /\ cur.root # 0 /\ \E s \in Pick(St(Sizes)) : Save(cur.root, s)
        \/ Has("more") /\ cur.root # 0 /\ \E s \in Pick(St(Sizes)) : Save(cur.root, s)
        \/ Has("new") /\ \E r \in Pick(St(Roots)) : NewRoot(r)
        \/ Has("load") /\ \E r \in Pick(St(Roots)), x \in Pick(Refs) : Load(r, x)
        \/ Has("restart") /\ \E v \in Pick(St(Vers)) : \E o \in Pick(NextOpts(v)) : Restart(v, o)
        \/ Has("prune") /\ \E n \in Pick(St(0..3)) : PruneAll(n)
        \/ Has("keep") /\ \E S \in Pick({{i} : i \in DOMAIN Files} \cup {{i, j} : i \in DOMAIN Files, j \in DOMAIN Files}) : KeepOnly(S)
Next == (More /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

McOpts == ToSet(JsonDeserialize(IOEnv.OPTS))
Ident(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
View == <<opt, vers, cv, cur, cache>>

---------------------------------------------------------------------------
\* H01: every file gives the saved document (its difference starts where its chain ends)
LoadExact == \A x \in Refs : LET v == vers[x[1]] IN LoadDoc(v.files, v.files[x[2]], v.opt) = v.files[x[2]].doc
\* ... also through the cache
CacheExact == Known(cv) => \A i \in DOMAIN Files : LoadWithCache(cache, Chain(Files, Files[i], opt)) = Files[i].doc
\* H02: files are listed in save order, each name once
SaveOrder == \A i \in DOMAIN vers : Listing(vers[i].files) = vers[i].files
NoDup == \A i \in DOMAIN vers : LET fs == vers[i].files IN \A a, b \in DOMAIN fs : Key(fs[a]) = Key(fs[b]) => a = b
\* H08
PhaseOk(f, o) == /\ Phase(f) <= o.maxp
                 /\ Len(f.hdr) = Phase(f) + 1
                 /\ ~o.upd0 => f.order[1] = 0
                 /\ \* with one phase below a fixed phase 0 there is nowhere else to go
                    (o.cum /\ o.cnt > 0 /\ Phase(f) = o.maxp /\ (o.maxp > 1 \/ o.upd0)) => LastOf(f.order) < o.cnt
PhaseBound == \A i \in DOMAIN vers : \A f \in ToSet(vers[i].files) : PhaseOk(f, vers[i].opt)
ChainBound == \A x \in Refs : LET v == vers[x[1]]
                                  c == Chain(v.files, v.files[x[2]], v.opt)
                              IN ~v.opt.cum => Len(c) = Phase(v.files[x[2]]) + 1
AllOk == LoadExact /\ CacheExact /\ SaveOrder /\ NoDup /\ PhaseBound /\ ChainBound
AllOkSome == Len(log) % 9 = 0 => AllOk  \* for long random behaviours
\* H03: pruning leaves the latest n; nothing but saves adds files
LastLog == log'[Len(log')]
PruneKeeps == [][(log' # log /\ LastLog.op = "prune") =>
     LET fl == FlattenSeq([i \in DOMAIN vers |-> [j \in DOMAIN vers[i].files |-> <<vers[i].v, vers[i].files[j]>>]])
         k == IF Len(fl) > LastLog.keep THEN Len(fl) - LastLog.keep + 1 ELSE 1
     IN \A m \in k..Len(fl) : \E i \in DOMAIN vers' : vers'[i].v = fl[m][1] /\ \E j \in DOMAIN vers'[i].files : vers'[i].files[j] = fl[m][2]]_vars
=============================================================================
