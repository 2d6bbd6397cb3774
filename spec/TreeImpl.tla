------------------------------- MODULE TreeImpl -------------------------------
(* Implementation-level models of BinarySearchTree.hpp and AVLTree.hpp.          *)
(* A tree is Nil or a node [k, v, h, l, r]; h is the cached height (AVL only).   *)
(* Avl = FALSE: leaf insertion, removal by successor replacement.                *)
(* Avl = TRUE : recursive insertion with single/double rotations, removal by     *)
(* swapping with the successor and rebalancing every ancestor.                   *)
EXTENDS OrdADT, Json
CONSTANTS Slots, K, Vals, Ops, Kind, Avl
VARIABLES tr, ev
Nil == <<>>
Ht(t) == IF t = Nil THEN 0 ELSE t.h
Max2(a, b) == IF a > b THEN a ELSE b
Upd(t) == [t EXCEPT !.h = IF Avl THEN Max2(Ht(t.l), Ht(t.r)) + 1 ELSE 0]
Leaf(x, v) == [k |-> x, v |-> v, h |-> IF Avl THEN 1 ELSE 0, l |-> Nil, r |-> Nil]
Bf(t) == IF t = Nil THEN 0 ELSE Ht(t.l) - Ht(t.r)
\* the rotations of AVLTree.hpp, with exactly the height updates written there
RotL(t) == LET n == t.r
               lt == [t EXCEPT !.r = n.l]
               lt2 == [lt EXCEPT !.h = Max2(Ht(lt.l), Ht(lt.r)) + 1]
           IN [n EXCEPT !.l = lt2, !.h = Max2(lt2.h, Ht(lt2)) + 1]
RotR(t) == LET n == t.l
               rt == [t EXCEPT !.l = n.r]
               rt2 == [rt EXCEPT !.h = Max2(Ht(rt.l), Ht(rt.r)) + 1]
           IN [n EXCEPT !.r = rt2, !.h = Max2(Ht(n.l), rt2.h) + 1]
Bal(t) ==
  IF ~Avl THEN t
  ELSE IF Bf(t) > 1 THEN RotR(IF Bf(t.l) < 0 THEN [t EXCEPT !.l = RotL(t.l)] ELSE t)
  ELSE IF Bf(t) < -1 THEN RotL(IF Bf(t.r) > 0 THEN [t EXCEPT !.r = RotR(t.r)] ELSE t)
  ELSE t
RECURSIVE Ins(_, _, _)
Ins(t, x, v) ==
  IF t = Nil THEN Leaf(x, v)
  ELSE IF Before(Kind, x, t.k) THEN
    LET t1 == [t EXCEPT !.l = Ins(t.l, x, v)] IN
    Upd(IF Avl /\ Ht(t1.l) - Ht(t1.r) = 2
        THEN RotR(IF Before(Kind, t1.l.k, x) THEN [t1 EXCEPT !.l = RotL(t1.l)] ELSE t1) ELSE t1)
  ELSE IF Before(Kind, t.k, x) THEN
    LET t1 == [t EXCEPT !.r = Ins(t.r, x, v)] IN
    Upd(IF Avl /\ Ht(t1.r) - Ht(t1.l) = 2
        THEN RotL(IF Before(Kind, x, t1.r.k) THEN [t1 EXCEPT !.r = RotR(t1.r)] ELSE t1) ELSE t1)
  ELSE t
RECURSIVE MinNode(_)
MinNode(t) == IF t.l = Nil THEN t ELSE MinNode(t.l)
RECURSIVE Del(_, _)
Del(t, x) ==
  IF t = Nil THEN Nil
  ELSE IF Before(Kind, x, t.k) THEN Bal(Upd([t EXCEPT !.l = Del(t.l, x)]))
  ELSE IF Before(Kind, t.k, x) THEN Bal(Upd([t EXCEPT !.r = Del(t.r, x)]))
  ELSE IF t.l = Nil THEN t.r
  ELSE IF t.r = Nil THEN t.l
  ELSE LET s == MinNode(t.r) IN Bal(Upd([t EXCEPT !.k = s.k, !.v = s.v, !.r = Del(t.r, s.k)]))
RECURSIVE SetV(_, _, _)
SetV(t, x, v) == IF Before(Kind, x, t.k) THEN [t EXCEPT !.l = SetV(t.l, x, v)]
                 ELSE IF Before(Kind, t.k, x) THEN [t EXCEPT !.r = SetV(t.r, x, v)] ELSE [t EXCEPT !.v = v]
RECURSIVE Pairs(_)
Pairs(t) == IF t = Nil THEN <<>> ELSE Pairs(t.l) \o <<<<t.k, t.v>>>> \o Pairs(t.r)
RECURSIVE PreO(_)
PreO(t) == IF t = Nil THEN <<>> ELSE <<t.k>> \o PreO(t.l) \o PreO(t.r)
RECURSIVE InO(_)
InO(t) == IF t = Nil THEN <<>> ELSE InO(t.l) \o <<t.k>> \o InO(t.r)
RECURSIVE PostO(_)
PostO(t) == IF t = Nil THEN <<>> ELSE PostO(t.l) \o PostO(t.r) \o <<t.k>>
RECURSIVE TrueH(_)
TrueH(t) == IF t = Nil THEN 0 ELSE 1 + Max2(TrueH(t.l), TrueH(t.r))
RECURSIVE HeightsOK(_)
HeightsOK(t) == t = Nil \/ (t.h = TrueH(t) /\ HeightsOK(t.l) /\ HeightsOK(t.r))
ToMap(t) == LET p == Pairs(t) IN
            [x \in {p[i][1] : i \in 1..Len(p)} |-> p[CHOOSE i \in 1..Len(p) : p[i][1] = x][2]]
Abs == [o \in Slots |-> IF tr[o].live THEN Live(ToMap(tr[o].t)) ELSE Dead]
LiveT(t) == [live |-> TRUE, t |-> t]
DeadT == [live |-> FALSE, t |-> Nil]
Step(e, T) ==
  LET o == e.o  a == e.a  t == T[o].t  Put(w) == [T EXCEPT ![o] = LiveT(w)] IN
  CASE e.op = "new" -> Put(Nil)
    [] e.op = "del" -> [T EXCEPT ![o] = DeadT]
    [] e.op \in {"cc", "ca"} -> Put(T[a[1]].t)
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN T ELSE [T EXCEPT ![o] = T[a[1]], ![a[1]] = LiveT(Nil)]
    [] e.op \in {"ins", "insdup", "insown"} -> Put(Ins(t, a[1], 0))
    [] e.op \in {"rem", "era", "remown"} -> Put(Del(t, a[1]))
    [] e.op = "putval" -> LET v == ToMap(t)[Entry(Kind, ToMap(t), a[2])] IN
                          Put(IF Has(Kind, ToMap(t), a[1]) THEN SetV(t, a[1], v) ELSE Ins(t, a[1], v))
    [] e.op \in {"put", "putown"} -> Put(IF Has(Kind, ToMap(t), a[1]) THEN SetV(t, a[1], a[2]) ELSE Ins(t, a[1], a[2]))
    [] e.op = "get" -> Put(IF Has(Kind, ToMap(t), a[1]) THEN t ELSE Ins(t, a[1], 0))
    [] e.op = "clr" -> Put(Nil)
    [] OTHER -> T
Init == tr = [o \in Slots |-> DeadT] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Kind, Abs, Ops, Slots, K, Vals) : ev' = e /\ tr' = Step(e, tr)
Spec == Init /\ [][Next]_<<tr, ev>>
\* C10 and C21 on every reachable shape
TreeOK == \A o \in Slots : LET t == tr[o].t  sh == Shape(Kind, PreO(t)) IN
   /\ sh.ok /\ sh.h = TrueH(t) /\ sh.post = PostO(t)
   /\ InO(t) = Sorted(Kind, ToMap(t))
   /\ Avl => sh.bal /\ HeightsOK(t)
\* C29: the fewest nodes an AVL tree of height h has, so that a search takes at most 1.45 log2 n steps
RECURSIVE Fewest(_)
Fewest(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + Fewest(h - 1) + Fewest(h - 2)
Shallow == \A o \in Slots : LET t == tr[o].t IN Avl => Cardinality(Keys(ToMap(t))) >= Fewest(TrueH(t))
A == INSTANCE OrdMC WITH objs <- Abs
Refines == A!Spec
View == tr
Edges == PrintT(ToJson([e |-> ev', s |-> tr, t |-> tr']))
===============================================================================
