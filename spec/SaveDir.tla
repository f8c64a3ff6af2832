------------------------------ MODULE SaveDir ------------------------------
(* A save directory as a map from (source version, file name) to a document. The    *)
(* files are kept in the order in which they were last written, which is the order   *)
(* of a listing. Bookkeeping names are never documents.                              *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

File(v, n, d) == [v |-> v, name |-> n, doc |-> d]
Has(fs, v, n) == \E i \in DOMAIN fs : fs[i].v = v /\ fs[i].name = n
Get(fs, v, n) == fs[CHOOSE i \in DOMAIN fs : fs[i].v = v /\ fs[i].name = n]
Drop(fs, v, n) == SelectSeq(fs, LAMBDA f : ~(f.v = v /\ f.name = n))

SaveAllowed(fs, v, n, ow, reserved) == ~reserved /\ (ow \/ ~Has(fs, v, n))
Saved(fs, v, n, d) == Append(Drop(fs, v, n), File(v, n, d))
RemoveAllowed(fs, v, n, reserved) == ~reserved /\ Has(fs, v, n)
Keys(fs) == {<<f.v, f.name>> : f \in ToSet(fs)}
=============================================================================
