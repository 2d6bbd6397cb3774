--------------------------------- MODULE RotADT ---------------------------------
(* Intrusive binary trees as terms: <<>> or <<node, left, right>>.                 *)
EXTENDS Integers, Sequences, FiniteSets
Nil == <<>>
Leaf(x) == <<x, Nil, Nil>>
RECURSIVE In(_), Pre(_), Post(_), Height(_), Sub(_, _), Put(_, _, _), ParentIn(_, _, _)
In(t) == IF t = Nil THEN <<>> ELSE In(t[2]) \o <<t[1]>> \o In(t[3])
Pre(t) == IF t = Nil THEN <<>> ELSE <<t[1]>> \o Pre(t[2]) \o Pre(t[3])
Post(t) == IF t = Nil THEN <<>> ELSE Post(t[2]) \o Post(t[3]) \o <<t[1]>>
Height(t) == IF t = Nil THEN 0 ELSE 1 + LET a == Height(t[2])  b == Height(t[3]) IN IF a > b THEN a ELSE b
Nodes(t) == {In(t)[i] : i \in 1..Len(In(t))}
Sub(t, x) == IF t = Nil THEN Nil ELSE IF t[1] = x THEN t ELSE LET u == Sub(t[2], x) IN IF u # Nil THEN u ELSE Sub(t[3], x)
\* t with the subtree at x replaced by u
Put(t, x, u) == IF t = Nil THEN Nil ELSE IF t[1] = x THEN u ELSE <<t[1], Put(t[2], x, u), Put(t[3], x, u)>>
ParentIn(t, x, p) == IF t = Nil THEN 0 ELSE IF t[1] = x THEN p
                     ELSE LET a == ParentIn(t[2], x, t[1]) IN IF a # 0 THEN a ELSE ParentIn(t[3], x, t[1])
Root(t) == IF t = Nil THEN 0 ELSE t[1]
\* the two rotations of a subtree
LRot(s) == LET r == s[3] IN <<r[1], <<s[1], s[2], r[2]>>, r[3]>>
RRot(s) == LET l == s[2] IN <<l[1], l[2], <<s[1], l[3], s[3]>>>>
Can(t, e) ==
  LET a == e.a IN
  CASE e.op = "root" -> t = Nil
    [] e.op = "al" -> a[1] \in Nodes(t) /\ a[2] \notin Nodes(t) /\ Sub(t, a[1])[2] = Nil
    [] e.op = "ar" -> a[1] \in Nodes(t) /\ a[2] \notin Nodes(t) /\ Sub(t, a[1])[3] = Nil
    [] e.op = "cut" -> Len(t) = 3 /\ a[1] \in Nodes(t) /\ Sub(t, a[1]) = Leaf(a[1])
    [] e.op = "lrot" -> a[1] \in Nodes(t) /\ Sub(t, a[1])[3] # Nil
    [] e.op = "rrot" -> a[1] \in Nodes(t) /\ Sub(t, a[1])[2] # Nil
Eff(t, e) ==
  LET a == e.a  s == Sub(t, a[1]) IN
  CASE e.op = "root" -> Leaf(a[1])
    [] e.op = "al" -> Put(t, a[1], <<s[1], Leaf(a[2]), s[3]>>)
    [] e.op = "ar" -> Put(t, a[1], <<s[1], s[2], Leaf(a[2])>>)
    [] e.op = "cut" -> Put(t, a[1], Nil)
    [] e.op = "lrot" -> Put(t, a[1], LRot(s))
    [] e.op = "rrot" -> Put(t, a[1], RRot(s))
\* what a rotation returns: the new top of the subtree
Ret(t, e) == CASE e.op = "lrot" -> <<Sub(t, e.a[1])[3][1]>> [] e.op = "rrot" -> <<Sub(t, e.a[1])[2][1]>> [] OTHER -> <<>>
===============================================================================
