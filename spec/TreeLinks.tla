-------------------------------- MODULE TreeLinks --------------------------------
(* core/ds/tree/EmbeddedBinaryTree.hpp: parent/left/right links, the two rotations  *)
(* (whose caller links the new top under the old parent), and the link-by-link      *)
(* successor functions of the three traversal orders.  Refines RotMC.               *)
EXTENDS RotADT, TLC
CONSTANTS N
VARIABLES L, R, P, root, ev
vars == <<L, R, P, root, ev>>
RECURSIVE Term(_)
Term(x) == IF x = 0 THEN Nil ELSE <<x, Term(L[x]), Term(R[x])>>
Abs == Term(root)
Z == [x \in 1..N |-> 0]
Init == L = Z /\ R = Z /\ P = Z /\ root = 0 /\ ev = [op |-> "none", o |-> 0, a |-> <<>>]
\* the caller's part: hang n where x hung
Hook(lf, rg, p, x, n) == IF p = 0 THEN root' = n /\ L' = lf /\ R' = rg
                         ELSE IF lf[p] = x THEN L' = [lf EXCEPT ![p] = n] /\ R' = rg /\ UNCHANGED root
                         ELSE R' = [rg EXCEPT ![p] = n] /\ L' = lf /\ UNCHANGED root
Step(e) ==
  LET a == e.a  x == a[1] IN
  CASE e.op = "root" -> root' = x /\ UNCHANGED <<L, R, P>>
    [] e.op = "al" -> L' = [L EXCEPT ![x] = a[2]] /\ P' = [P EXCEPT ![a[2]] = x] /\ UNCHANGED <<R, root>>
    [] e.op = "ar" -> R' = [R EXCEPT ![x] = a[2]] /\ P' = [P EXCEPT ![a[2]] = x] /\ UNCHANGED <<L, root>>
    [] e.op = "cut" -> /\ L' = [y \in 1..N |-> IF L[y] = x THEN 0 ELSE L[y]] /\ R' = [y \in 1..N |-> IF R[y] = x THEN 0 ELSE R[y]]
                       /\ P' = [P EXCEPT ![x] = 0] /\ root' = (IF root = x THEN 0 ELSE root)
    [] e.op = "lrot" -> LET n == R[x]  c == L[n]
                            p1 == [P EXCEPT ![n] = P[x]]
                            p2 == IF c # 0 THEN [p1 EXCEPT ![c] = x] ELSE p1 IN
         P' = [p2 EXCEPT ![x] = n] /\ Hook([L EXCEPT ![n] = x], [R EXCEPT ![x] = c], P[x], x, n)
    [] e.op = "rrot" -> LET n == L[x]  c == R[n]
                            p1 == [P EXCEPT ![n] = P[x]]
                            p2 == IF c # 0 THEN [p1 EXCEPT ![c] = x] ELSE p1 IN
         P' = [p2 EXCEPT ![x] = n] /\ Hook([L EXCEPT ![x] = c], [R EXCEPT ![n] = x], P[x], x, n)
M == INSTANCE RotMC WITH t <- Abs
Next == \E e \in M!Menu : Can(Abs, e) /\ ev' = e /\ Step(e) /\ Cardinality(Nodes(Abs)) + (IF e.op \in {"al", "ar", "root"} THEN 1 ELSE 0) <= N
Spec == Init /\ [][Next]_vars
Refines == M!Spec
ParentOK == \A x \in Nodes(Abs) : /\ P[x] = ParentIn(Abs, x, 0)
                                  /\ (L[x] # 0 => P[L[x]] = x) /\ (R[x] # 0 => P[R[x]] = x)
\* successors, link by link
RECURSIVE Leftmost(_), UpPre(_), UpIn(_), DownPost(_), Iter(_, _, _)
Leftmost(x) == IF L[x] # 0 THEN Leftmost(L[x]) ELSE x
UpPre(x) == IF P[x] = 0 THEN 0 ELSE IF R[P[x]] # 0 /\ R[P[x]] # x THEN R[P[x]] ELSE UpPre(P[x])
NextPre(x) == IF L[x] # 0 THEN L[x] ELSE IF R[x] # 0 THEN R[x] ELSE UpPre(x)
UpIn(x) == IF P[x] # 0 /\ L[P[x]] # x THEN UpIn(P[x]) ELSE P[x]
NextIn(x) == IF R[x] # 0 THEN Leftmost(R[x]) ELSE UpIn(x)
DownPost(x) == IF L[x] # 0 THEN DownPost(L[x]) ELSE IF R[x] # 0 THEN DownPost(R[x]) ELSE x
NextPost(x) == IF P[x] = 0 THEN 0 ELSE IF R[P[x]] = 0 \/ R[P[x]] = x THEN P[x] ELSE DownPost(R[P[x]])
Iter(k, x, n) == IF x = 0 \/ n = 0 THEN <<>>
                 ELSE <<x>> \o Iter(k, CASE k = 1 -> NextPre(x) [] k = 2 -> NextIn(x) [] k = 3 -> NextPost(x), n - 1)
Successors == root # 0 => /\ Iter(1, root, N + 1) = Pre(Abs)
                          /\ Iter(2, Leftmost(root), N + 1) = In(Abs)
                          /\ Iter(3, DownPost(root), N + 1) = Post(Abs)
View == <<L, R, P, root>>
===============================================================================
