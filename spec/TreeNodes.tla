------------------------------- MODULE TreeNodes -------------------------------
(* Node-level models of AVLTree.hpp and BinarySearchTree.hpp: nodes with addresses, *)
(* left / right / parent links and cached heights, changed one assignment at a time *)
(* in the order the code does.  m.bad is set by a write through a null or released  *)
(* link.  TreeImpl has the same algorithms on terms; this one has the links.        *)
EXTENDS OrdADT, Json
CONSTANTS K, Ops, Kind, Avl, Nodes
VARIABLES live, m, ev
vars == <<live, m, ev>>
Z == [x \in Nodes |-> 0]
Empty == [l |-> Z, r |-> Z, p |-> Z, h |-> Z, k |-> Z, root |-> 0, bad |-> FALSE]
W(M, f, x, v) == IF x = 0 THEN [M EXCEPT !.bad = TRUE]
                 ELSE IF M.k[x] = 0 THEN [M EXCEPT !.bad = TRUE] ELSE [M EXCEPT ![f][x] = v]
IfN(M, f, x, v) == IF x = 0 THEN M ELSE W(M, f, x, v)           \* if (x) x->f = v
Max2(a, b) == IF a > b THEN a ELSE b
H(M, x) == IF x = 0 THEN 0 ELSE M.h[x]
UpdH(M, x) == IF ~Avl THEN M ELSE W(M, "h", x, Max2(H(M, M.l[x]), H(M, M.r[x])) + 1)
Root(M, x) == LET M1 == [M EXCEPT !.root = x] IN IfN(M1, "p", x, 0)             \* _update_root
RECURSIVE First(_, _)
First(M, x) == IF x = 0 THEN 0 ELSE IF M.l[x] = 0 THEN x ELSE First(M, M.l[x])
\* tree::left_rotate / right_rotate and the height updates of _left_rotate / _right_rotate; the new top and the memory
Rot(M, x, f, g) ==      \* f = "r", g = "l": left rotation
  LET n == M[f][x]
      M1 == W(M, "p", n, M.p[x])
      M2 == W(M1, f, x, M1[g][n])
      M3 == IfN(M2, "p", M2[g][n], x)
      M4 == W(W(M3, "p", x, n), g, n, x)
  IN [m |-> UpdH(UpdH(M4, x), n), n |-> n]
RotL(M, x) == Rot(M, x, "r", "l")
RotR(M, x) == Rot(M, x, "l", "r")
Bf(M, x) == IF x = 0 THEN 0 ELSE H(M, M.l[x]) - H(M, M.r[x])
Bal(M, x) ==
  IF ~Avl THEN [m |-> M, n |-> x]
  ELSE IF Bf(M, x) > 1
  THEN LET c == IF Bf(M, M.l[x]) < 0 THEN LET q == RotL(M, M.l[x]) IN W(q.m, "l", x, q.n) ELSE M IN RotR(c, x)
  ELSE IF Bf(M, x) < -1
  THEN LET c == IF Bf(M, M.r[x]) > 0 THEN LET q == RotR(M, M.r[x]) IN W(q.m, "r", x, q.n) ELSE M IN RotL(c, x)
  ELSE [m |-> M, n |-> x]
Fresh(M) == CHOOSE x \in Nodes : M.k[x] = 0 /\ \A y \in Nodes : M.k[y] = 0 => x <= y
\* ------------------------------------------------------------------ insertion
RECURSIVE AvlIns(_, _, _, _)
AvlIns(M, x, k, par) ==
  IF x = 0 THEN LET n == Fresh(M)
                    M1 == [M EXCEPT !.k[n] = k, !.l[n] = 0, !.r[n] = 0, !.h[n] = 0, !.p[n] = par]
                IN [m |-> UpdH(M1, n), n |-> n]
  ELSE LET q == IF Before(Kind, k, M.k[x])
                THEN LET s == AvlIns(M, M.l[x], k, x)
                         M1 == W(s.m, "l", x, s.n) IN
                     IF H(M1, M1.l[x]) - H(M1, M1.r[x]) = 2
                     THEN LET d == IF Before(Kind, M1.k[M1.l[x]], k)
                                   THEN LET u == RotL(M1, M1.l[x]) IN W(u.m, "l", x, u.n) ELSE M1
                          IN RotR(d, x)
                     ELSE [m |-> M1, n |-> x]
                ELSE LET s == AvlIns(M, M.r[x], k, x)
                         M1 == W(s.m, "r", x, s.n) IN
                     IF H(M1, M1.r[x]) - H(M1, M1.l[x]) = 2
                     THEN LET d == IF Before(Kind, k, M1.k[M1.r[x]])
                                   THEN LET u == RotR(M1, M1.r[x]) IN W(u.m, "r", x, u.n) ELSE M1
                          IN RotL(d, x)
                     ELSE [m |-> M1, n |-> x]
       IN [m |-> UpdH(q.m, q.n), n |-> q.n]
RECURSIVE BstPlace(_, _, _, _)      \* (found?, parent)
BstPlace(M, x, par, k) ==
  IF x = 0 THEN [dup |-> FALSE, n |-> par]
  ELSE IF Before(Kind, k, M.k[x]) THEN BstPlace(M, M.l[x], x, k)
  ELSE IF Before(Kind, M.k[x], k) THEN BstPlace(M, M.r[x], x, k) ELSE [dup |-> TRUE, n |-> x]
Ins(M, k) ==
  IF Avl THEN LET q == AvlIns(M, M.root, k, 0) IN Root(q.m, q.n)
  ELSE LET w == BstPlace(M, M.root, 0, k) IN
       IF w.dup THEN M
       ELSE LET n == Fresh(M)
                M1 == [M EXCEPT !.k[n] = k, !.l[n] = 0, !.r[n] = 0, !.p[n] = w.n] IN
            IF w.n = 0 THEN Root(M1, n)
            ELSE W(M1, IF Before(Kind, k, M1.k[w.n]) THEN "l" ELSE "r", w.n, n)
\* ------------------------------------------------------------------ removal
Free(M, x) == IF M.k[x] = 0 THEN [M EXCEPT !.bad = TRUE] ELSE [M EXCEPT !.k[x] = 0, !.l[x] = 0, !.r[x] = 0, !.p[x] = 0, !.h[x] = 0]
\* _swap_node(a, b), a an ancestor of b: the nodes trade places; the caller's a and b trade too
Swap(M, a, b) ==
  LET ap == M.p[a]  al == M.l[a]  ar == M.r[a]  bp == M.p[b]  bl == M.l[b]  br == M.r[b]
      Ap(Q) == LET Q1 == IF ap # 0 /\ Q.l[ap] = a THEN W(Q, "l", ap, b) ELSE Q IN
               IF ap # 0 /\ Q1.r[ap] = a THEN W(Q1, "r", ap, b) ELSE Q1
      near == LET M1 == W(M, "p", b, ap)
                  M2 == IF M1.r[a] = b THEN IfN(W(W(M1, "l", b, al), "r", b, a), "p", al, b)
                        ELSE IfN(W(W(M1, "l", b, a), "r", b, ar), "p", ar, b)
                  M3 == Ap(W(W(W(M2, "r", a, br), "l", a, bl), "p", a, b))
              IN IfN(IfN(M3, "p", br, a), "p", bl, a)
      far == LET M1 == W(Ap(M), "p", b, ap)
                 M2 == IF bp # 0 /\ M1.l[bp] = b THEN W(M1, "l", bp, a) ELSE M1
                 M3 == IF bp # 0 /\ M2.r[bp] = b THEN W(M2, "r", bp, a) ELSE M2
                 M4 == IfN(IfN(W(M3, "p", a, bp), "p", al, b), "p", ar, b)
                 M5 == W(W(M4, "l", b, al), "r", b, ar)
                 M6 == IfN(IfN(M5, "p", bl, a), "p", br, a)
             IN W(W(M6, "l", a, bl), "r", a, br)
      S == IF bp = a THEN near ELSE far
      ha == S.h[a]
      S1 == W(W(S, "h", a, S.h[b]), "h", b, ha)
      S2 == IF S1.p[b] = 0 THEN Root(S1, b) ELSE S1
  IN IF S2.p[a] = 0 THEN Root(S2, a) ELSE S2
\* AVLTree::_delete
RECURSIVE AvlDel(_, _, _)
AvlDel(M, x, k) ==
  IF x = 0 THEN [m |-> M, n |-> 0]
  ELSE IF Before(Kind, k, M.k[x])
       THEN LET q == AvlDel(M, M.l[x], k) IN Bal(UpdH(W(q.m, "l", x, q.n), x), x)
  ELSE IF Before(Kind, M.k[x], k)
       THEN LET q == AvlDel(M, M.r[x], k) IN Bal(UpdH(W(q.m, "r", x, q.n), x), x)
  ELSE IF M.l[x] # 0 /\ M.r[x] # 0
       THEN LET t == First(M, M.r[x])
                M1 == Swap(M, x, t)
                q == AvlDel(M1, M1.r[t], k) IN Bal(UpdH(W(q.m, "r", t, q.n), t), t)
  ELSE LET s == IF M.l[x] = 0 THEN M.r[x] ELSE M.l[x]
           M1 == IfN(M, "p", s, M.p[x]) IN [m |-> Free(M1, x), n |-> s]
\* AVLTree::_rebalance_after_delete and _delete_by_target
RECURSIVE Reb(_, _)
Reb(M, x) ==
  IF x = 0 THEN M
  ELSE LET par == M.p[x]
           q == Bal(M, x)
           M1 == IF par # 0 THEN UpdH(IF q.m.l[par] = x THEN W(q.m, "l", par, q.n) ELSE W(q.m, "r", par, q.n), par)
                 ELSE IF q.n # x THEN Root(q.m, q.n) ELSE q.m
       IN Reb(M1, par)
RECURSIVE AvlErase(_, _)
AvlErase(M, t) ==
  LET par == M.p[t] IN
  IF M.l[t] # 0 /\ M.r[t] # 0
  THEN AvlErase(Swap(M, t, First(M, M.r[t])), t)
  ELSE LET c == IF M.l[t] # 0 THEN M.l[t] ELSE M.r[t]
           M1 == IfN(M, "p", c, par)
           M2 == IF par = 0 THEN Root(M1, c)
                 ELSE Reb(UpdH(IF M1.l[par] = t THEN W(M1, "l", par, c) ELSE W(M1, "r", par, c), par), par)
       IN Free(M2, t)
\* BinarySearchTree::_delete, _try_to_delete
RECURSIVE BstDel(_, _, _), Try(_, _)
BstDel(M, x, k) ==
  IF x = 0 THEN [m |-> M, n |-> 0]
  ELSE IF Before(Kind, k, M.k[x]) THEN LET q == BstDel(M, M.l[x], k) IN [m |-> W(q.m, "l", x, q.n), n |-> x]
  ELSE IF Before(Kind, M.k[x], k) THEN LET q == BstDel(M, M.r[x], k) IN [m |-> W(q.m, "r", x, q.n), n |-> x]
  ELSE Try(M, x)
Try(M, x) ==
  IF M.l[x] # 0 /\ M.r[x] # 0
  THEN LET t == First(M, M.r[x])
           M1 == [M EXCEPT !.k[x] = M.k[t]]
           q == BstDel(M1, M1.r[x], M1.k[t]) IN [m |-> W(q.m, "r", x, q.n), n |-> x]
  ELSE LET s == IF M.l[x] = 0 THEN M.r[x] ELSE M.l[x]
           M1 == IfN(M, "p", s, M.p[x]) IN [m |-> Free(M1, x), n |-> s]
Rem(M, k) ==
  IF M.root = 0 THEN M
  ELSE LET q == IF Avl THEN AvlDel(M, M.root, k) ELSE BstDel(M, M.root, k) IN
       IF q.m.root # q.n THEN Root(q.m, q.n) ELSE q.m
\* ------------------------------------------------------------------ iteration and search, link by link
RECURSIVE UpIn(_, _)
UpIn(M, x) == IF M.p[x] # 0 THEN IF M.l[M.p[x]] # x THEN UpIn(M, M.p[x]) ELSE M.p[x] ELSE 0
NextIn(M, x) == IF M.r[x] # 0 THEN First(M, M.r[x]) ELSE UpIn(M, x)
RECURSIVE Find(_, _, _)
Find(M, x, k) == IF x = 0 THEN 0 ELSE IF Before(Kind, k, M.k[x]) THEN Find(M, M.l[x], k)
                 ELSE IF Before(Kind, M.k[x], k) THEN Find(M, M.r[x], k) ELSE x
\* erase(iterator): the memory and the returned iterator
Era(M, t) ==
  LET par == M.p[t]  nx == NextIn(M, t) IN
  IF Avl THEN [m |-> AvlErase(M, t), n |-> nx]
  ELSE LET q == Try(M, t) IN
       IF q.n = t THEN [m |-> q.m, n |-> t]
       ELSE [m |-> IF par = 0 THEN Root(q.m, q.n) ELSE IF q.m.l[par] = t THEN W(q.m, "l", par, q.n) ELSE W(q.m, "r", par, q.n), n |-> nx]
\* ------------------------------------------------------------------ the machine
Used(M) == {x \in Nodes : M.k[x] # 0}
Keyset(M) == {M.k[x] : x \in Used(M)}
Abs == [o \in {1} |-> IF live THEN Live([x \in Keyset(m) |-> 0]) ELSE Dead]
Step(e) ==
  CASE e.op = "new" -> live' = TRUE /\ m' = Empty
    [] e.op = "del" -> live' = FALSE /\ m' = Empty
    [] e.op = "clr" -> live' = live /\ m' = Empty
    [] e.op \in {"ins", "insdup"} -> live' = live /\ m' = Ins(m, e.a[1])
    [] e.op = "rem" -> live' = live /\ m' = Rem(m, e.a[1])
    [] e.op = "era" -> live' = live /\ m' = Era(m, Find(m, m.root, e.a[1])).m
Init == live = FALSE /\ m = Empty /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Kind, Abs, Ops, {1}, K, {0}) : ev' = e /\ Step(e)
Spec == Init /\ [][Next]_vars
Spec0 == INSTANCE OrdMC WITH objs <- Abs, Slots <- {1}, Vals <- {0}
Refines == Spec0!Spec
\* ------------------------------------------------------------------ what holds in every reachable state
RECURSIVE Term(_, _)
Term(M, x) == IF x = 0 THEN <<>> ELSE <<M.k[x], M.h[x], Term(M, M.l[x]), Term(M, M.r[x])>>
RECURSIVE Reach(_, _)
Reach(M, x) == IF x = 0 THEN <<>> ELSE Reach(M, M.l[x]) \o <<x>> \o Reach(M, M.r[x])
RECURSIVE TrueH(_, _)
TrueH(M, x) == IF x = 0 THEN 0 ELSE 1 + Max2(TrueH(M, M.l[x]), TrueH(M, M.r[x]))
NoBad == ~m.bad
Links == /\ (m.root # 0 => m.p[m.root] = 0)
         /\ \A x \in Used(m) : /\ (m.l[x] # 0 => m.p[m.l[x]] = x) /\ (m.r[x] # 0 => m.p[m.r[x]] = x)
                               /\ (m.p[x] # 0 => x \in {m.l[m.p[x]], m.r[m.p[x]]})
NoLeak == LET q == Reach(m, m.root) IN {q[i] : i \in 1..Len(q)} = Used(m) /\ Len(q) = Cardinality(Used(m))
RECURSIVE Walk(_, _, _)
Walk(M, x, n) == IF x = 0 \/ n = 0 THEN <<>> ELSE <<M.k[x]>> \o Walk(M, NextIn(M, x), n - 1)
Ordered == live => Walk(m, First(m, m.root), Cardinality(Nodes) + 1) = Sorted(Kind, Abs[1].m)
Search == \A k \in K : LET x == Find(m, m.root, k) IN
             IF live /\ Has(Kind, Abs[1].m, k) THEN x # 0 /\ m.k[x] = Entry(Kind, Abs[1].m, k) ELSE x = 0
Balanced == Avl => \A x \in Used(m) : Bf(m, x) \in -1..1 /\ m.h[x] = TrueH(m, x)
\* C27: a node keeps its element until that element is removed, and exactly that node is released
KeepNodes == [][Avl /\ live /\ live' /\ ev'.op \notin {"clr", "new", "del"} =>
                \A x \in Used(m) : \/ m'.k[x] = m.k[x]
                                   \/ ev'.op \in {"rem", "era"} /\ m'.k[x] = 0 /\ Eqv(Kind, m.k[x], ev'.a[1])]_vars
\* erase returns the element after the erased one
EraNext == [][ev'.op = "era" => LET x == Find(m, m.root, ev'.a[1])  n == Era(m, x).n  q == Succ(Kind, Abs[1].m, m.k[x]) IN
                IF q = <<>> THEN n = 0 ELSE n # 0 /\ m'.k[n] = q[1]]_vars
View == <<live, Term(m, m.root)>>
Edges == PrintT(ToJson([e |-> ev', s |-> <<live, Term(m, m.root)>>, t |-> <<live', Term(m', m'.root)>>]))
===============================================================================
