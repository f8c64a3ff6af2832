------------------------------- MODULE DocCfg -------------------------------
(* Constants of the document specifications, read from a schema file              *)
(* (environment: DOC_CFG).                                                        *)
EXTENDS Naturals, Sequences, SequencesExt, Json, IOUtils, Randomization, TLC

Cfg == JsonDeserialize(IOEnv.DOC_CFG)
McRootP == ToSet(Cfg.rootp)
McPDef == Cfg.pdef
McListDef == [l \in DOMAIN Cfg.lists |->
                [P |-> ToSet(Cfg.lists[l].P), subs |-> ToSet(Cfg.lists[l].subs),
                 refs |-> ToSet(Cfg.lists[l].refs), enum |-> Cfg.lists[l].enum]]
McRows == [t \in DOMAIN Cfg.rows |-> ToSet(Cfg.rows[t])]
McRefVt == [k \in {<<Cfg.refvt[i][1], Cfg.refvt[i][2]>> : i \in 1..Len(Cfg.refvt)} |->
              LET i == CHOOSE j \in 1..Len(Cfg.refvt) : <<Cfg.refvt[j][1], Cfg.refvt[j][2]>> = k IN Cfg.refvt[i][3]]
PairsFn(s, F(_)) == [k \in {s[i][1] : i \in 1..Len(s)} |-> F(s[CHOOSE j \in 1..Len(s) : s[j][1] = k])]
McSrc == [p |-> Cfg.src.p,
          L |-> PairsFn(Cfg.src.L, LAMBDA e : [def |-> e[2], next |-> e[3], ids |-> e[4]]),
          I |-> PairsFn(Cfg.src.I, LAMBDA e : [p |-> e[2],
                  r |-> [t \in ToSet(Cfg.lists[e[1][Len(e[1]) - 1]].refs) |-> e[3][t]]])]
McSlots == ToSet(Cfg.slots)
McToks == ToSet(Cfg.toks)
McMaxItems == Cfg.maxitems
McMaxId == Cfg.maxid
McDepth == Cfg.depth
McFeat == ToSet(Cfg.feat)
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
=============================================================================
