---------------------------------- MODULE RotMC ----------------------------------
EXTENDS RotADT, Json, TLC
CONSTANTS N
VARIABLES t, ev
Init == t = Nil /\ ev = [op |-> "none", o |-> 0, a |-> <<>>]
Ev(op, a) == [op |-> op, o |-> 0, a |-> a]
Fresh == Cardinality(Nodes(t)) + 1
Menu == {Ev("root", <<1>>)}
        \cup {Ev(op, <<x, Fresh>>) : op \in {"al", "ar"}, x \in Nodes(t)}
        \cup {Ev(op, <<x>>) : op \in {"lrot", "rrot"}, x \in Nodes(t)}
        \cup {Ev("cut", <<Fresh - 1>>)}
Next == \E e \in Menu : Can(t, e) /\ ev' = e /\ t' = Eff(t, e) /\ Cardinality(Nodes(t')) <= N
Spec == Init /\ [][Next]_<<t, ev>>
\* C24: rotations keep the in-order sequence and undo each other
KeepsOrder == [][ev'.op \in {"lrot", "rrot"} => In(t') = In(t)]_<<t, ev>>
Mirror == \A x \in Nodes(t) :
   /\ Can(t, Ev("lrot", <<x>>)) => LET u == Eff(t, Ev("lrot", <<x>>)) IN Eff(u, Ev("rrot", <<Ret(t, Ev("lrot", <<x>>))[1]>>)) = t
   /\ Can(t, Ev("rrot", <<x>>)) => LET u == Eff(t, Ev("rrot", <<x>>)) IN Eff(u, Ev("lrot", <<Ret(t, Ev("rrot", <<x>>))[1]>>)) = t
HeightStep == [][ev'.op \in {"lrot", "rrot"} => Height(t') - Height(t) \in -1..1]_<<t, ev>>
View == t
Edges == PrintT(ToJson([e |-> ev', s |-> t, t |-> t']))
===============================================================================
