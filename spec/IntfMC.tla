------------------------------- MODULE IntfMC -------------------------------
(* Sources grown member by member, each with the interface generated for it.      *)
(* The constants are read from a file (environment: INTF_CFG).                    *)
EXTENDS Interface, Json, IOUtils, Randomization

CONSTANT Pick(_)     \* S itself (exhaustive) or one random element of S (simulation)
VARIABLES s, k, done
vars == <<s, k, done>>

Cfg == JsonDeserialize(IOEnv.INTF_CFG)
Names == {Name(cs) : cs \in ToSet(Cfg.names)}
RowNames == {Name(cs) : cs \in ToSet(Cfg.rows)}
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
One(S) == IF S = {} THEN {} ELSE {RandomElement({x \in S : k >= 0})}

Node(nm, kd, up, t, vt, dv, old) == [name |-> nm, k |-> kd, up |-> up, t |-> t, vt |-> vt, dv |-> dv, old |-> old]
Owners(kds) == {i \in 1..Len(s.nodes) : s.nodes[i].k \in kds}
Free == Names \ {s.nodes[i].name : i \in 1..Len(s.nodes)}
DvOf(vt) == {"v"} \cup (IF vt \in {"q", "qu"} THEN {"n"} ELSE {}) \cup (IF vt \in {"u", "qu"} THEN {"u"} ELSE {})
Types == {"bool", "int", "float", "str", "ia", "fa", "bin"}
Vts == {"n", "q", "u", "qu"}

Grow(s2) == /\ s' = s2
            /\ k' = k + 1
            /\ UNCHANGED done
More == ~done /\ k < Cfg.steps
Add(n) == [s EXCEPT !.nodes = Append(@, n)]

AddParam == /\ More
  /\ \E o \in Pick({0} \cup Owners(Lists)) : \E t \in Pick(Types) : \E vt \in Pick(Vts) : \E dv \in Pick(DvOf(vt)) :
     \E old \in Pick(BOOLEAN) : \E nm \in One(Free) :
       Grow(Add(Node(nm, "p", o, t, vt, dv, old)))

AddList == /\ More
  /\ \E kd \in Pick({"ml", "mil", "cl", "cil"}) :
     \E o \in Pick(IF kd \in {"ml", "cl"} THEN {0} ELSE IF kd = "mil" THEN Owners(Mutable) ELSE Owners({"t", "cl", "cil"})) :
     \E vt \in Pick(IF kd \in Mutable THEN {"n", "u"} ELSE {"n"}) : \E old \in Pick(BOOLEAN) : \E nm \in One(Free) :
       Grow(Add(Node(nm, kd, o, "", vt, "", old)))

AddTable == /\ More
  /\ \E old \in Pick(BOOLEAN) : \E nm \in One(Free) : \E r \in One(RowNames) : \E empty \in Pick({FALSE, FALSE, TRUE}) :
       LET s2 == Add(Node(nm, "t", 0, "", "n", "", old))
       IN Grow(IF empty THEN s2 ELSE [s2 EXCEPT !.rows = Append(@, [tab |-> Len(s2.nodes), name |-> r, old |-> FALSE])])

AddRow == /\ More
  /\ \E o \in Pick(Owners({"t"})) : \E old \in Pick(BOOLEAN) :
     \E r \in One(RowNames \ {RowsOf(s, o)[x].name : x \in 1..Len(RowsOf(s, o))}) :
       Grow([s EXCEPT !.rows = Append(@, [tab |-> o, name |-> r, old |-> old /\ ~r.up])])

\* a row of a table refers only to rows of tables that were there before; a default names a row that is not old
Targets(o) == {t \in Owners({"t"}) : /\ \E x \in 1..Len(s.rows) : s.rows[x].tab = t /\ ~s.rows[x].old /\ ~s.rows[x].name.up
                                     /\ \A x \in 1..Len(s.refs) : ~(s.refs[x].own = o /\ s.refs[x].tab = t)
                                     /\ s.nodes[o].k = "t" => t < o}
AddRef == /\ More
  /\ \E o \in Pick(Owners(Lists) \ s.enums) : \E t \in Pick(Targets(o)) : \E vt \in Pick(Vts) :
     \E dv \in Pick(DvOf(vt)) : \E old \in Pick(BOOLEAN) :
       Grow([s EXCEPT !.refs = Append(@, [own |-> o, tab |-> t, vt |-> vt, dv |-> dv, old |-> old])])

Kid(o, t) == [own |-> o, tab |-> t, vt |-> "q", dv |-> "n", old |-> FALSE]
AddEnum == /\ More
  /\ \E o \in Pick({x \in Owners(Lists) \ s.enums : RefsOf(s, x) = <<>> /\ Cardinality(Targets(x)) >= 2}) :
     \E t1 \in Pick(Targets(o)) : \E t2 \in Pick(Targets(o) \ {t1}) :
       Grow([s EXCEPT !.refs = @ \o <<Kid(o, t1), Kid(o, t2)>>, !.enums = @ \cup {o}])

\* only sources whose names give distinct Rust names
Finish == /\ ~done /\ k = Cfg.steps
          /\ \E fs \in {Fns(s)} : /\ Well(s, fs)
                                 /\ PrintT("TRACE " \o ToJson(Out(s, fs)))
          /\ done' = TRUE
          /\ UNCHANGED <<s, k>>

\* one list, table and constant list of each kind, so that every place exists
Start == [nodes |-> [i \in 1..Len(Cfg.base) |-> Node(Name(Cfg.base[i].name), Cfg.base[i].k, Cfg.base[i].up, Cfg.base[i].t, Cfg.base[i].vt, Cfg.base[i].dv, Cfg.base[i].old)],
          rows |-> [i \in 1..Len(Cfg.baserows) |-> [tab |-> Cfg.baserows[i].tab, name |-> Name(Cfg.baserows[i].name), old |-> FALSE]],
          refs |-> <<>>, enums |-> {}]
Init == s = Start /\ k = 0 /\ done = FALSE
Next == AddParam \/ AddList \/ AddTable \/ AddRow \/ AddRef \/ AddEnum \/ Finish
Spec == Init /\ [][Next]_vars

Inv == done => MemberFns(s)
=============================================================================
