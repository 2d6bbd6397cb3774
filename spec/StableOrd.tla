------------------------------- MODULE StableOrd -------------------------------
(* Iterators and addresses held on elements of an AVL tree or map (C09, C27),       *)
(* exhaustively in bounds: laws of OrdADT's handles and the graph of histories.      *)
EXTENDS OrdADT, Json
CONSTANTS Slots, K, Vals, Ops, Kind, Hn, HOps
VARIABLES objs, its, ev
Init == objs = [o \in Slots |-> Dead] /\ its = [h \in Hn |-> <<>>] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
ItMenu == {[op |-> "hold", o |-> o, a |-> <<h, x>>] : o \in Slots, h \in Hn, x \in K} \cup
          {[op |-> op, o |-> o, a |-> <<h>>] : op \in HOps \ {"wrr"}, o \in Slots, h \in Hn} \cup
          {[op |-> op, o |-> o, a |-> <<h, v>>] : op \in HOps \cap {"wrr"}, o \in Slots, h \in Hn, v \in Vals}
Did == \E e \in Menu(Kind, objs, Ops, Slots, K, Vals) :
         ev' = e /\ objs' = Eff(Kind, e, objs) /\ its' = ItDrop(Kind, e, objs, its)
Next == \/ Did
        \/ \E e \in ItMenu : /\ ItPre(Kind, e, objs, its) /\ ev' = e
                             /\ objs' = ItObjs(Kind, e, objs, its) /\ its' = ItEff(Kind, e, objs, its)
Spec == Init /\ [][Next]_<<objs, its, ev>>
\* a handle designates an element that exists
Exists == \A h \in Hn : its[h] # <<>> => objs[its[h][1]].live /\ its[h][2] \in DOMAIN objs[its[h][1]].m
\* and keeps designating it while it exists
Keeps == [][\A h \in Hn : /\ its[h] # <<>> /\ ev'.op \notin {"hold", "step", "erah", "cc", "ca", "mc", "ma"}
                          /\ objs'[its[h][1]].live /\ its[h][2] \in DOMAIN objs'[its[h][1]].m
                          => its'[h] = its[h]]_<<objs, its, ev>>
View == <<objs, its>>
Edges == PrintT(ToJson([e |-> ev', s |-> <<objs, its>>, t |-> <<objs', its'>>]))
===============================================================================
