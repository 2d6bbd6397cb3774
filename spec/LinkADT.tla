-------------------------------- MODULE LinkADT --------------------------------
(* Intrusive links as a user sees them: a set of rings (circular orders) and      *)
(* null-terminated chains of nodes the user owns.  lists is a set of              *)
(* [ring, s]; a ring is written from its smallest node.                           *)
EXTENDS Integers, Sequences, FiniteSets
Elems(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Rot(s, i) == SubSeq(s, i, Len(s)) \o SubSeq(s, 1, i - 1)
Canon(t) == IF t.ring THEN [t EXCEPT !.s = Rot(t.s, IndexOf(t.s, Least(Elems(t.s))))] ELSE t
Members(ls) == UNION {Elems(t.s) : t \in ls}
Of(ls, x) == CHOOSE t \in ls : x \in Elems(t.s)
\* the node after / before x: 0 at the end of a chain
NextOf(ls, x) == LET t == Of(ls, x)  i == IndexOf(t.s, x)  n == Len(t.s) IN
                 IF i < n THEN t.s[i + 1] ELSE IF t.ring THEN t.s[1] ELSE 0
PrevOf(ls, x) == LET t == Of(ls, x)  i == IndexOf(t.s, x)  n == Len(t.s) IN
                 IF i > 1 THEN t.s[i - 1] ELSE IF t.ring THEN t.s[n] ELSE 0
InsertAfter(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Can(ls, e) ==
  LET a == e.a IN
  CASE e.op = "init" -> a[1] \notin Members(ls) \/ [ring |-> TRUE, s |-> <<a[1]>>] \in ls
    [] e.op = "zero" -> a[1] \notin Members(ls)
    [] e.op = "add" -> a[1] \in Members(ls) /\ a[2] \notin Members(ls)
    [] e.op = "del" -> a[1] \in Members(ls) /\ a[2] \in Members(ls) /\ a[1] # a[2] /\ NextOf(ls, a[1]) = a[2]
    [] e.op = "empty" -> a[1] \in Members(ls) /\ Of(ls, a[1]).ring
Eff(ls, e) ==
  LET a == e.a IN
  CASE e.op = "init" -> ls \cup {[ring |-> TRUE, s |-> <<a[1]>>]}
    [] e.op = "zero" -> ls \cup {[ring |-> FALSE, s |-> <<a[1]>>]}
    [] e.op = "add" -> LET t == Of(ls, a[1]) IN
         (ls \ {t}) \cup {Canon([t EXCEPT !.s = InsertAfter(t.s, IndexOf(t.s, a[1]), a[2])])}
    [] e.op = "del" -> LET t == Of(ls, a[1]) IN
         (ls \ {t}) \cup {Canon([t EXCEPT !.s = SelectSeq(t.s, LAMBDA x : x # a[2])])}
    [] e.op = "empty" -> ls
Ret(ls, e) == IF e.op = "empty" THEN <<IF Len(Of(ls, e.a[1]).s) = 1 THEN 1 ELSE 0>> ELSE <<>>
===============================================================================
