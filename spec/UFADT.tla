--------------------------------- MODULE UFADT ---------------------------------
(* Disjoint sets over 0..n-1: the user-visible state of an object is a partition,  *)
(* written p : 0..n-1 -> least member of the class.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dead == [live |-> FALSE, p |-> <<>>]
\* p is stored as a sequence: p[i+1] = least member of i's class
Singletons(n) == [i \in 1..n |-> i - 1]
Cls(p, x) == p[x + 1]
Join(p, x, y) ==
  LET a == Cls(p, x)  b == Cls(p, y)
      m == IF a < b THEN a ELSE b  g == IF a < b THEN b ELSE a
  IN [i \in 1..Len(p) |-> IF p[i] = g THEN m ELSE p[i]]
Classes(p) == Cardinality({p[i] : i \in 1..Len(p)})
InN(p, x) == x \in 0..(Len(p) - 1)
Bit(b) == IF b THEN 1 ELSE 0
(* events: new <<n>>; del; cc/ca/mc/ma <<src>>; con <<x, y>>; conrep <<x, y>> (connect given
   the objects found by find); uni <<x, y>>: union_set on the representatives of x and y;
   run <<mode, x, n>>: x..x+n-1 connected neighbour by neighbour;
   find <<x>> r = rep; conn <<x, y>> r = bit                                              *)
Pre(e, S) ==
  LET o == e.o  a == e.a  L == S[o].live  p == S[o].p IN
  CASE e.op = "new" -> ~L /\ a[1] >= 0
    [] e.op \in {"cc", "mc"} -> ~L /\ S[a[1]].live
    [] e.op \in {"ca", "ma"} -> L /\ S[a[1]].live
    [] e.op = "del" -> L
    [] e.op \in {"con", "uni", "conn", "conrep", "unirep"} -> L /\ InN(p, a[1]) /\ InN(p, a[2])
    [] e.op = "find" -> L /\ InN(p, a[1])
    [] e.op = "run" -> L /\ a[3] >= 1 /\ InN(p, a[2]) /\ InN(p, a[2] + a[3] - 1)
    [] OTHER -> FALSE
Eff(e, S) ==
  LET o == e.o  a == e.a  Put(q) == [S EXCEPT ![o] = [live |-> TRUE, p |-> q]] IN
  CASE e.op = "new" -> Put(Singletons(a[1]))
    [] e.op = "del" -> [S EXCEPT ![o] = Dead]
    [] e.op \in {"cc", "ca"} -> Put(S[a[1]].p)
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN S
                                ELSE [S EXCEPT ![o] = S[a[1]], ![a[1]] = [live |-> TRUE, p |-> <<>>]]
    [] e.op \in {"con", "uni", "conrep", "unirep"} -> Put(Join(S[o].p, a[1], a[2]))
    [] e.op = "run" -> LET p == S[o].p
                           A == {p[i] : i \in (a[2] + 1)..(a[2] + a[3])}
                           m == CHOOSE x \in A : \A y \in A : x <= y
                       IN Put([i \in 1..Len(p) |-> IF p[i] \in A THEN m ELSE p[i]])
    [] OTHER -> S
RetOK(e, S) ==
  LET p == S[e.o].p  a == e.a IN
  CASE e.op = "find" -> InN(p, e.r[1]) /\ Cls(p, e.r[1]) = Cls(p, a[1])
    [] e.op = "conn" -> e.r = <<Bit(Cls(p, a[1]) = Cls(p, a[2]))>>
    [] OTHER -> TRUE
PoolOK(e, S) == /\ e.libc = <<0>> /\ e.used[1] >= 0
                /\ (\A o \in DOMAIN S : ~S[o].live) => e.used = <<0>>
                /\ e.used[1] >= e.esz * (Len(S[1].p) + Len(S[2].p) + Len(S[3].p))
\* v.reps[i+1] = find(i) for every i; v.cnt = count(); v.n = size(); v.con = connected(i, j) row by row
ViewOK(v, S, o) ==
  LET p == S[o].p  n == Len(p)  F == DOMAIN v IN
  /\ S[o].live
  /\ "n" \in F => v.n = <<n>>
  /\ "cap" \in F => v.cap[1] >= n
  /\ "e" \in F => v.e = <<Bit(n = 0)>>
  /\ "cnt" \in F => v.cnt = <<Classes(p)>>
  /\ "reps" \in F => /\ Len(v.reps) = n
                     /\ \A i \in 1..n : InN(p, v.reps[i]) /\ p[v.reps[i] + 1] = p[i]   \* a member of i's class
                     /\ \A i \in 1..n : v.reps[i] = v.reps[p[i] + 1]                  \* one per class
  /\ "con" \in F => \A i \in 1..n, j \in 1..n : v.con[(i - 1) * n + j] = Bit(p[i] = p[j])
Args(op, o, S, Slots, N) ==
  LET D == 0..(Len(S[o].p) - 1) IN
  CASE op = "new" -> {<<n>> : n \in N}
    [] op = "del" -> {<<>>}
    [] op \in {"cc", "mc"} -> {<<q>> : q \in Slots \ {o}}
    [] op \in {"ca", "ma"} -> {<<q>> : q \in Slots}
    [] op \in {"con", "uni", "conn", "conrep", "unirep"} -> {<<x, y>> : x \in D, y \in D}
    [] op = "find" -> {<<x>> : x \in D}
    [] OTHER -> {}
Menu(S, Ops, Slots, N) ==
  {e \in UNION {UNION {{[op |-> op, o |-> o, a |-> a] : a \in Args(op, o, S, Slots, N)} : o \in Slots} : op \in Ops} : Pre(e, S)}
===============================================================================
