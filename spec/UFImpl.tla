--------------------------------- MODULE UFImpl ---------------------------------
(* set/DisjointSet.hpp: parent array with negative ranks at the roots, path         *)
(* compression in find, union by rank.  Refines UFADT; the parent graph is acyclic  *)
(* (find terminates) and ranks stay below the class size's logarithm bound.         *)
EXTENDS UFADT, Json
CONSTANTS Slots, N, Ops
VARIABLES uf, ev            \* uf[o] = [live, f]: f[i+1] = parent or negative rank
None == [live |-> FALSE, f |-> <<>>]
RECURSIVE Root(_, _)
Root(f, x) == IF f[x + 1] < 0 THEN x ELSE Root(f, f[x + 1])
RECURSIVE Compress(_, _)     \* find(x): every node on the path now points to the root
Compress(f, x) == IF f[x + 1] < 0 THEN f
                  ELSE LET g == Compress(f, f[x + 1]) IN [g EXCEPT ![x + 1] = Root(f, x)]
Union(f, r, s) == IF r = s THEN f
                  ELSE IF f[s + 1] < f[r + 1] THEN [f EXCEPT ![r + 1] = s]
                  ELSE [f EXCEPT ![r + 1] = IF f[r + 1] = f[s + 1] THEN @ - 1 ELSE @, ![s + 1] = r]
Connect(f, x, y) == LET f1 == Compress(f, x)  f2 == Compress(f1, y) IN Union(f2, Root(f, x), Root(f, y))
Step(e, U) ==
  LET o == e.o  a == e.a  f == U[o].f  Put(g) == [U EXCEPT ![o] = [live |-> TRUE, f |-> g]] IN
  CASE e.op = "new" -> Put([i \in 1..a[1] |-> -1])
    [] e.op = "del" -> [U EXCEPT ![o] = None]
    [] e.op \in {"cc", "ca"} -> Put(U[a[1]].f)
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN U ELSE [U EXCEPT ![o] = U[a[1]], ![a[1]] = [live |-> TRUE, f |-> <<>>]]
    [] e.op \in {"con", "uni", "conrep", "unirep"} -> Put(Connect(f, a[1], a[2]))
    [] e.op = "find" -> Put(Compress(f, a[1]))
    [] e.op = "conn" -> Put(Compress(Compress(f, a[1]), a[2]))
Part(f) == LET n == Len(f) IN
  [i \in 1..n |-> CHOOSE m \in 0..(n - 1) : Root(f, m) = Root(f, i - 1) /\ \A k \in 0..(m - 1) : Root(f, k) # Root(f, i - 1)]
Abs == [o \in Slots |-> IF uf[o].live THEN [live |-> TRUE, p |-> Part(uf[o].f)] ELSE Dead]
Init == uf = [o \in Slots |-> None] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Abs, Ops, Slots, N) : ev' = e /\ uf' = Step(e, uf)
Spec == Init /\ [][Next]_<<uf, ev>>
RECURSIVE DepthOK(_, _, _)
DepthOK(f, x, fuel) == f[x + 1] < 0 \/ (fuel > 0 /\ DepthOK(f, f[x + 1], fuel - 1))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Forest == \A o \in Slots : LET f == uf[o].f  n == Len(f) IN
   /\ \A x \in 0..(n - 1) : DepthOK(f, x, n)                                 \* every find terminates
   /\ \A x \in 0..(n - 1) : f[x + 1] < 0 =>                                  \* rank r needs 2^(r-1) members
        Pow2(-f[x + 1] - 1) <= Cardinality({y \in 0..(n - 1) : Root(f, y) = x})
   /\ Cardinality({x \in 0..(n - 1) : f[x + 1] < 0}) = Classes(Part(f))      \* count()
RefAbs == [][LET e == ev' IN Pre(e, Abs) /\ Abs' = Eff(e, Abs)]_<<uf, ev>>
View == uf
Edges == PrintT(ToJson([e |-> ev', s |-> uf, t |-> uf']))
===============================================================================
