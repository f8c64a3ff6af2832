------------------------------ MODULE History ------------------------------
(* History directories. A directory keeps, for every source version that was used *)
(* (in the order of first use), the files saved under it. A file is named by a     *)
(* control number, the control number of the file it follows, an order (its        *)
(* length - 1 is the phase) and a tag. It stores the sizes along its chain and a    *)
(* difference to the document its dependencies give.                                *)
(*                                                                                 *)
(* Documents are opaque tokens here (module Diff specifies differences): a file    *)
(* remembers the token its difference starts from and the token that was saved.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* options: [maxp, upd0, cum, nth, cnt]; nth/cnt = 0: no limit
OptOk(o) == /\ o.maxp = 0 => o.upd0 /\ (o.cum => o.nth = 0 /\ o.cnt = 0)
            /\ o.nth >= 0 /\ o.cnt >= 0

---------------------------------------------------------------------------
\* Sizes along the chain of a file: sequence of [my, ds, dl] from phase 0 to its own
\* phase; ds and dl are total size and number of the files below.

AvgGrows(par, cur) == \* would one more of `cur` and its descendants raise the average below `par`?
  LET P == par.my + par.ds
      C == cur.my + cur.ds
  IN (P + C) * (1 + par.dl) > P * (1 + par.dl + 1 + cur.dl)

NthLargest(h, n) == LET s == SortSeq([i \in DOMAIN h |-> h[i].my], LAMBDA a, b : a > b) IN s[n]

RunIsFull(h, o) == \* the limits of a cumulative run, judged at the parent of the run
  LET par == h[Len(h) - 1]
  IN o.cum /\ (\/ o.cnt > 0 /\ o.cnt <= par.dl
               \/ o.nth > 0 /\ o.nth <= Len(h) /\ NthLargest(h, o.nth) <= par.ds)

RECURSIVE Climb(_, _, _)
Climb(h, o, i) ==
  LET n == Len(h)
  IN IF i > n - 2 THEN IF o.upd0 THEN 0 ELSE 1
     ELSE IF AvgGrows(h[n - i - 1], h[n - i]) THEN Climb(h, o, i + 1)
     ELSE IF i = 0 /\ RunIsFull(h, o) THEN Climb(h, o, 1)
     ELSE n - 1 - i

NextPhase(h, o) == IF Len(h) <= o.maxp THEN Len(h) ELSE Climb(h, o, 0)

PopPush(h, ph, size) ==
  [i \in 1..ph |-> [h[i] EXCEPT !.ds = @ + size, !.dl = @ + 1]] \o <<[my |-> size, ds |-> 0, dl |-> 0]>>

---------------------------------------------------------------------------
\* Files and names

Phase(f) == Len(f.order) - 1
Key(f) == <<f.ctl, f.order>>
Front1(s) == SubSeq(s, 1, Len(s) - 1)
LastOf(s) == s[Len(s)]

RECURSIVE JoinOrder(_)
JoinOrder(o) == IF o = <<>> THEN "" ELSE "_" \o ToString(o[1]) \o JoinOrder(Tail(o))
NameOf(f) == (IF f.tag = <<>> THEN "" ELSE "#" \o f.tag[1] \o "#")
          \o (IF f.prev = f.ctl THEN "" ELSE "(" \o ToString(f.prev) \o ")")
          \o "_" \o ToString(f.ctl) \o JoinOrder(f.order) \o ".his"

\* order of listing: control number, then lexicographic with prefixes first
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLess(Tail(a), Tail(b))
FileLess(f, g) == f.ctl < g.ctl \/ (f.ctl = g.ctl /\ SeqLess(f.order, g.order))
Listing(fs) == SortSeq(fs, FileLess)
NewestOf(fs) == LastOf(Listing(fs))

HasKey(fs, c, o) == \E i \in DOMAIN fs : fs[i].ctl = c /\ fs[i].order = o
ByKey(fs, c, o) == fs[CHOOSE i \in DOMAIN fs : fs[i].ctl = c /\ fs[i].order = o]
InDir(fs, f) == \E i \in DOMAIN fs : Key(fs[i]) = Key(f)

---------------------------------------------------------------------------
\* The files a file depends on, oldest first, itself last; <<>> when one is missing.
\* In a cumulative run the predecessor is the previous file of the run.

PredKey(f, o) == IF o.cum /\ Phase(f) = o.maxp /\ LastOf(f.order) > 0
                 THEN <<f.prev, Append(Front1(f.order), LastOf(f.order) - 1)>>
                 ELSE <<f.prev, Front1(f.order)>>
HasPred(f, o) == Phase(f) > 0 \/ (o.cum /\ o.maxp = 0 /\ LastOf(f.order) > 0)

RECURSIVE Chain(_, _, _)
Chain(fs, f, o) ==
  IF ~HasPred(f, o) THEN <<f>>
  ELSE LET k == PredKey(f, o)
       IN IF ~HasKey(fs, k[1], k[2]) THEN <<>>
          ELSE LET c == Chain(fs, ByKey(fs, k[1], k[2]), o)
               IN IF c = <<>> THEN <<>> ELSE Append(c, f)

SrcDoc == 0
Broken == -1
Compose(c) == FoldLeft(LAMBDA d, f : IF d = f.from THEN f.doc ELSE Broken, SrcDoc, c)
LoadDoc(fs, f, o) == LET c == Chain(fs, f, o) IN IF c = <<>> THEN Broken ELSE Compose(c)

\* keys of a set of files and of everything they need
NeededKeys(fs, S, o) == UNION {{Key(g) : g \in ToSet(Chain(fs, f, o))} : f \in S}

---------------------------------------------------------------------------
\* Saving. `base` = <<>> or <<the file the saved object was last saved to or loaded from>>.

NewStart(fs, tag) ==
  [ctl |-> IF fs = <<>> THEN 0 ELSE NewestOf(fs).ctl + 1, order |-> <<0>>, tag |-> tag]

\* the file a save derives from; <<>>: start a new series
DeriveFrom(fs, base, o) ==
  IF fs = <<>> \/ base = <<>> \/ ~InDir(fs, base[1]) THEN <<>>
  ELSE LET b == base[1]
       IN IF Phase(b) = o.maxp /\ Key(b) # Key(NewestOf(fs))
          THEN IF o.maxp > 0 /\ HasKey(fs, b.prev, Front1(b.order)) THEN <<ByKey(fs, b.prev, Front1(b.order))>> ELSE <<>>
          ELSE <<ByKey(fs, b.ctl, b.order)>>

SavedFile(fs, base, o, tag, doc, size) ==
  LET d == DeriveFrom(fs, base, o)
  IN IF d = <<>>
     THEN LET n == NewStart(fs, tag)
          IN [ctl |-> n.ctl, prev |-> n.ctl, order |-> <<0>>, tag |-> tag, from |-> SrcDoc, doc |-> doc,
              hdr |-> <<[my |-> size, ds |-> 0, dl |-> 0]>>]
     ELSE LET f == d[1]
              ch == Chain(fs, f, o)
              ph == NextPhase(f.hdr, o)
              ctl == IF Key(f) = Key(NewestOf(fs)) THEN f.ctl ELSE NewestOf(fs).ctl + 1
              \* (ch = <<>>: a file it needs was lost, which is reported elsewhere)
              deps == IF (ph = o.maxp /\ o.cum) \/ Len(ch) < ph THEN ch ELSE SubSeq(ch, 1, ph)
              ord == IF Phase(f) < o.maxp THEN Append(f.order, 0)
                     ELSE Append(SubSeq(f.order, 1, ph), f.order[ph + 1] + 1)
              prev == IF Phase(f) < o.maxp THEN f.ctl
                      ELSE IF ph = o.maxp THEN IF o.cum THEN f.ctl ELSE f.prev
                      ELSE IF Len(ch) > ph THEN ch[ph + 1].prev ELSE f.prev
          IN [ctl |-> ctl, prev |-> prev, order |-> ord, tag |-> tag, from |-> Compose(deps), doc |-> doc,
              hdr |-> PopPush(f.hdr, ph, size)]

---------------------------------------------------------------------------
\* Pruning: `after` is what may be left of `fs` when the latest n (or the files with
\* keys in K) are to be kept.

LatestN(fs, n) == LET l == Listing(fs) IN ToSet(SubSeq(l, IF Len(l) > n THEN Len(l) - n + 1 ELSE 1, Len(l)))
KeepKeys(fs, K, o) == SelectSeq(fs, LAMBDA f : Key(f) \in K)
PruneDir(fs, n, o) == KeepKeys(fs, NeededKeys(fs, LatestN(fs, n), o), o)
=============================================================================
