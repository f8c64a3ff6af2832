------------------------------ MODULE DocSave ------------------------------
(* Editing programs that store differences. For every slot `base` is the document *)
(* as it was last stored; Commit stores the difference from there to the present  *)
(* document, Reload goes on with the document a reader of the stored differences  *)
(* gets.                                                                          *)
EXTENDS DocEdit, Diff

VARIABLES base,   \* slot -> document at the last commit
          chain   \* slot -> differences stored so far, oldest first
svars == <<docs, log, done, base, chain>>

SInit == /\ Init
         /\ base = [c \in Slots |-> Src]
         /\ chain = [c \in Slots |-> <<>>]

\* a copy is derived from the same stored document as its original
EditKeeps == /\ EditNext
             /\ LET l == LastOp
                    cl == l.op = "clone"
                IN /\ base' = IF cl THEN [base EXCEPT ![l.to] = base[l.slot]] ELSE base
                   /\ chain' = IF cl THEN [chain EXCEPT ![l.to] = chain[l.slot]] ELSE chain

Commit == /\ More
  /\ \E c \in Pick(Live) :
       /\ base' = [base EXCEPT ![c] = D(c)]
       /\ chain' = [chain EXCEPT ![c] = Append(@, DocDiff(base[c], D(c)))]
       /\ log' = Append(log, [op |-> "commit", slot |-> c, doc |-> DocOut(D(c)), empty |-> IsEmpty(DocDiff(base[c], D(c)))])
       /\ UNCHANGED <<docs, done>>

Reload == /\ More
  /\ \E c \in Pick({x \in Live : D(x) = base[x] /\ chain[x] # <<>>}) :
       /\ log' = Append(log, [op |-> "reload", slot |-> c, doc |-> DocOut(D(c))])
       /\ UNCHANGED <<docs, done, base, chain>>

SFinish == Finish /\ UNCHANGED <<base, chain>>
SNext == EditKeeps \/ Commit \/ Reload \/ SFinish
SSpec == SInit /\ [][SNext]_svars

---------------------------------------------------------------------------
\* S01: the difference to the present document, applied to the stored one, gives it exactly
DiffExact == \A c \in Live : Exact(base[c], D(c))
\* the difference of a document to itself changes nothing
DiffSame == \A c \in Live : IsEmpty(DocDiff(base[c], base[c]))
\* S02: all stored differences applied in order give the stored document
ChainExact == \A c \in Live : FoldLeft(LAMBDA d, x : ApplyDoc(d, x), Src, chain[c]) = base[c]
SView == <<docs, base>>
=============================================================================
