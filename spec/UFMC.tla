---------------------------------- MODULE UFMC ----------------------------------
(* The abstract disjoint-set machine with its history of links: the partition is   *)
(* exactly the reflexive, symmetric, transitive closure of the links, and the      *)
(* number of classes is n minus the links that joined two different classes.       *)
EXTENDS UFADT, Json
CONSTANTS Slots, N, Ops
VARIABLES objs, ev, hist     \* hist[o] = [links, joins]
H0 == [links |-> {}, joins |-> 0]
Init == objs = [o \in Slots |-> Dead] /\ hist = [o \in Slots |-> H0] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
NextHist(e) ==
  LET o == e.o  a == e.a IN
  CASE e.op \in {"new", "del"} -> [hist EXCEPT ![o] = H0]
    [] e.op \in {"cc", "ca"} -> [hist EXCEPT ![o] = hist[a[1]]]
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN hist ELSE [hist EXCEPT ![o] = hist[a[1]], ![a[1]] = H0]
    [] e.op \in {"con", "uni", "conrep", "unirep"} -> [hist EXCEPT ![o].links = @ \cup {<<a[1], a[2]>>},
          ![o].joins = @ + (IF Cls(objs[o].p, a[1]) = Cls(objs[o].p, a[2]) THEN 0 ELSE 1)]
    [] OTHER -> hist
Next == \E e \in Menu(objs, Ops, Slots, N) : ev' = e /\ objs' = Eff(e, objs) /\ hist' = NextHist(e)
Spec == Init /\ [][Next]_<<objs, ev, hist>>
RECURSIVE Reach(_, _)
Reach(L, X) == LET Y == X \cup {l[2] : l \in {m \in L : m[1] \in X}} \cup {l[1] : l \in {m \in L : m[2] \in X}}
               IN IF Y = X THEN X ELSE Reach(L, Y)
Closure == \A o \in Slots : LET p == objs[o].p IN
   \A x \in 0..(Len(p) - 1) : {y \in 0..(Len(p) - 1) : Cls(p, y) = Cls(p, x)} = Reach(hist[o].links, {x})
CountLaw == \A o \in Slots : Classes(objs[o].p) = Len(objs[o].p) - hist[o].joins
Idle == [][(ev'.op \in {"con", "uni", "conrep", "unirep"} /\ Cls(objs[ev'.o].p, ev'.a[1]) = Cls(objs[ev'.o].p, ev'.a[2])) => objs' = objs]_<<objs, ev, hist>>
View == <<objs, hist>>
Edges == PrintT(ToJson([e |-> ev', s |-> objs, t |-> objs']))
===============================================================================
