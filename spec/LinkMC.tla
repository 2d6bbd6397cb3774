--------------------------------- MODULE LinkMC ---------------------------------
EXTENDS LinkADT, Json, TLC
CONSTANTS Nodes, Ops
VARIABLES lists, ev
Init == lists = {} /\ ev = [op |-> "none", o |-> 0, a |-> <<>>]
Ev(op, a) == [op |-> op, o |-> 0, a |-> a]
Menu == {Ev(op, <<x>>) : op \in Ops \cap {"init", "zero", "empty"}, x \in Nodes}
        \cup {Ev(op, <<x, y>>) : op \in Ops \cap {"add", "del"}, x \in Nodes, y \in Nodes}
Next == \E e \in Menu : Can(lists, e) /\ ev' = e /\ lists' = Eff(lists, e)
Spec == Init /\ [][Next]_<<lists, ev>>
Disjoint == \A t, u \in lists : t # u => Elems(t.s) \cap Elems(u.s) = {}
NoDup == \A t \in lists : Cardinality(Elems(t.s)) = Len(t.s) /\ Canon(t) = t
Mirror == \A x \in Members(lists) : LET y == NextOf(lists, x) IN y # 0 => PrevOf(lists, y) = x
\* unlinking what was just inserted gives back the old order
Inverse == \A x \in Members(lists), y \in Nodes \ Members(lists) :
   Eff(Eff(lists, Ev("add", <<x, y>>)), Ev("del", <<x, y>>)) = lists
View == lists
Edges == PrintT(ToJson([e |-> ev', s |-> lists, t |-> lists']))
===============================================================================
