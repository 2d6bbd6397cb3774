-------------------------------- MODULE LinkImpl --------------------------------
(* core/ds/linked-list/EmbeddedList.hpp: the pointer updates of SinglyLink_ and    *)
(* DoublyLink_.  Unlinked nodes hold garbage (-1) or null (0) links.               *)
EXTENDS LinkADT, TLC
CONSTANTS Nodes, Ops, Doubly
VARIABLES nx, pv, in, ch, ev      \* in: linked nodes; ch: those linked into a chain
vars == <<nx, pv, in, ch, ev>>
RECURSIVE Walk(_, _, _)
Walk(x, stop, acc) == IF x = stop \/ x = 0 THEN acc ELSE Walk(nx[x], stop, Append(acc, x))
Heads == {x \in ch : \A y \in ch : nx[y] # x}
Ring(x) == Walk(nx[x], x, <<x>>)
Abs == {[ring |-> FALSE, s |-> Walk(x, -9, <<>>)] : x \in Heads}
       \cup {Canon([ring |-> TRUE, s |-> Ring(x)]) : x \in in \ ch}
Init == nx = [x \in Nodes |-> -1] /\ pv = [x \in Nodes |-> -1] /\ in = {} /\ ch = {} /\ ev = [op |-> "none", o |-> 0, a |-> <<>>]
Step(e) ==
  LET a == e.a  x == a[1] IN
  CASE e.op = "init" -> nx' = [nx EXCEPT ![x] = x] /\ pv' = (IF Doubly THEN [pv EXCEPT ![x] = x] ELSE pv) /\ in' = in \cup {x} /\ UNCHANGED ch
    [] e.op = "zero" -> nx' = [nx EXCEPT ![x] = 0] /\ pv' = (IF Doubly THEN [pv EXCEPT ![x] = 0] ELSE pv) /\ in' = in \cup {x} /\ ch' = ch \cup {x}
    [] e.op = "add" -> LET c == a[2]  n == nx[x] IN
         /\ nx' = [nx EXCEPT ![c] = n, ![x] = c]
         /\ pv' = (IF ~Doubly THEN pv ELSE IF n # 0 THEN [[pv EXCEPT ![c] = x] EXCEPT ![n] = c] ELSE [pv EXCEPT ![c] = x])
         /\ in' = in \cup {c} /\ ch' = (IF x \in ch THEN ch \cup {c} ELSE ch)
    [] e.op = "del" -> LET c == a[2]  n == nx[c] IN
         /\ nx' = [[nx EXCEPT ![x] = n] EXCEPT ![c] = 0]
         /\ pv' = (IF ~Doubly THEN pv ELSE [(IF n # 0 THEN [pv EXCEPT ![n] = x] ELSE pv) EXCEPT ![c] = 0])
         /\ in' = in \ {c} /\ ch' = ch \ {c}
    [] e.op = "empty" -> UNCHANGED <<nx, pv, in, ch>>
M == INSTANCE LinkMC WITH lists <- Abs
Next == \E e \in M!Menu : Can(Abs, e) /\ ev' = e /\ Step(e)
Spec == Init /\ [][Next]_vars
Refines == M!Spec
BackLinks == Doubly => \A x \in in : pv[x] = PrevOf(Abs, x)
EmptyOK == \A x \in in \ ch : (nx[x] = x) <=> Len(Of(Abs, x).s) = 1
View == <<nx, pv, in, ch>>
===============================================================================
