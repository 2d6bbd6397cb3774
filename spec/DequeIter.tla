------------------------------- MODULE DequeIter -------------------------------
(* Iterators of core/ds/queue/DoubleEndedQueue.hpp: a block index and an element  *)
(* address.  Blocks lie anywhere in memory, adjacent ones included, so that the   *)
(* end of one block can be the address of the beginning of any other one.  The    *)
(* model carries the ideal positions (IterADT) along and shows that equality,     *)
(* dereference and stepping agree with them.                                      *)
EXTENDS IterADT
CONSTANTS BS, NB, Places        \* block size, table length, possible block places (in units of BS)
VARIABLES addr, lo, n, it, h
vars == <<addr, lo, n, it, h>>
HU == {1, 2}
\* window: n elements from linear position lo
LinAddr(q) == addr[q \div BS] + (q % BS)
Beg(i) == addr[i]
End(i) == addr[i] + BS
\* what the container hands out: begin() and end() (the end of the table stays in the last block)
At(q) == IF q = NB * BS THEN [i |-> NB - 1, p |-> End(NB - 1)] ELSE [i |-> q \div BS, p |-> LinAddr(q)]
Inc(t) == LET p == t.p + 1 IN
  IF p = End(t.i) /\ t.i + 1 < NB THEN [i |-> t.i + 1, p |-> Beg(t.i + 1)] ELSE [i |-> t.i, p |-> p]
Dec(t) == LET u == IF t.p = Beg(t.i) THEN [i |-> t.i - 1, p |-> End(t.i - 1)] ELSE t IN [u EXCEPT !.p = u.p - 1]
RECURSIVE Steps(_, _)
Steps(t, d) == IF d = 0 THEN t ELSE IF d > 0 THEN Steps(Inc(t), d - 1) ELSE Steps(Dec(t), d + 1)
Eq(t, u) == t.i = u.i /\ t.p = u.p
S == [i \in 1..n |-> i]
Nil == [i |-> -1, p |-> -1]
Init == /\ addr \in {f \in [0..(NB - 1) -> {BS * k : k \in Places}] : \A i, j \in 0..(NB - 1) : i # j => f[i] # f[j]}
        /\ lo \in 0..(NB * BS) /\ n \in 0..(NB * BS) /\ lo + n <= NB * BS
        /\ it = [x \in HU |-> Nil] /\ h = NoIts
Do(e, t) == CanMove(S, h, e) /\ h' = Move(S, h, e) /\ it' = [it EXCEPT ![e.a[1]] = t] /\ UNCHANGED <<addr, lo, n>>
Ev(op, a) == [op |-> op, a |-> a]
Next == \E x, y \in HU :
  \/ Do(Ev("b", <<x>>), At(lo))
  \/ Do(Ev("e", <<x>>), At(lo + n))
  \/ h[x] # None /\ Do(Ev("inc", <<x>>), Inc(it[x]))
  \/ h[x] # None /\ Do(Ev("dec", <<x>>), Dec(it[x]))
  \/ h[y] # None /\ \E d \in -(NB * BS)..(NB * BS) :
        LET e == Ev("add", <<x, y, d>>) IN CanMove(S, h, e) /\ Do(e, Steps(it[y], d))
  \/ h[y] # None /\ Do(Ev("cp", <<x, y>>), it[y])
Spec == Init /\ [][Next]_vars
Agree == \A x \in HU : h[x] # None => Eq(it[x], At(lo + h[x]))
EqOK == \A x, y \in HU : (h[x] # None /\ h[y] # None) => (Eq(it[x], it[y]) <=> h[x] = h[y])
===============================================================================
