------------------------------- MODULE HeapImpl -------------------------------
(* Heap.hpp: the 1-based array heap with its sentinel cell (not modelled), sift  *)
(* up on push, last-to-root and sift down on pop, bottom-up construction.        *)
(* Heap order holds in every state; push and pop refine the ordered bag of       *)
(* SeqADT; build and sort satisfy their contracts on every input sequence (the   *)
(* initial states of the Algo behaviour are all sequences up to MaxLen).         *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, Kind
VARIABLES hp, ev
None == [live |-> FALSE, s |-> <<>>]
Empty == [live |-> TRUE, s |-> <<>>]
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _)
Up(s, i) == IF i <= 1 THEN s
            ELSE IF ~Before(Kind, s[i \div 2], s[i]) THEN Up(Swap(s, i, i \div 2), i \div 2) ELSE s
RECURSIVE Down(_, _)
Down(s, p) ==
  LET l == 2 * p  r == l + 1
      t1 == IF l <= Len(s) /\ ~Before(Kind, s[p], s[l]) THEN l ELSE p
      t2 == IF r <= Len(s) /\ ~Before(Kind, s[t1], s[r]) THEN r ELSE t1
  IN IF t2 = p THEN s ELSE Down(Swap(s, p, t2), t2)
Push(s, x) == Up(Append(s, x), Len(s) + 1)
Pop(s) == IF Len(s) = 1 THEN <<>> ELSE Down([ButLast(s) EXCEPT ![1] = s[Len(s)]], 1)
RECURSIVE Heapify(_, _)
Heapify(s, i) == IF i = 0 THEN s ELSE Heapify(Down(s, i), i - 1)
Build(s) == Heapify(s, Len(s) \div 2)
RECURSIVE Drain(_)
Drain(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Drain(Pop(s))
HeapOrder(s) == \A i \in 2..Len(s) : ~Before(Kind, s[i], s[i \div 2])

Abs == [o \in Slots |-> IF hp[o].live THEN Live(hp[o].s) ELSE Dead]
MenuX == Menu(Abs, Ops, Slots, Values, MaxLen) \cup
         {[op |-> "popx", o |-> o, a |-> <<>>, r |-> <<hp[o].s[1]>>] :
            o \in {p \in Slots : "popx" \in Ops /\ hp[p].live /\ hp[p].s # <<>>}}
         \cup UNION {{[op |-> "pbx", o |-> o, a |-> <<i>>, r |-> <<hp[o].s[i + 1]>>] : i \in 0..(Len(hp[o].s) - 1)} :
            o \in {p \in Slots : "pbx" \in Ops /\ hp[p].live /\ Len(hp[p].s) < MaxLen}}
Step(e, H) ==
  LET o == e.o  a == e.a  Put(w) == [H EXCEPT ![o] = [live |-> TRUE, s |-> w]] IN
  CASE e.op = "new" -> Put(<<>>)
    [] e.op = "del" -> [H EXCEPT ![o] = None]
    [] e.op \in {"cc", "ca"} -> Put(H[a[1]].s)
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN H ELSE [H EXCEPT ![o] = H[a[1]], ![a[1]] = Empty]
    [] e.op = "pb" -> Put(Push(H[o].s, a[1]))
    [] e.op = "pbx" -> Put(Push(H[o].s, H[o].s[a[1] + 1]))
    [] e.op = "popx" -> Put(Pop(H[o].s))
Init == hp = [o \in Slots |-> None] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in MenuX : ev' = e /\ hp' = Step(e, hp)
Spec == Init /\ [][Next]_<<hp, ev>>
Ordered == \A o \in Slots : HeapOrder(hp[o].s)
\* the concrete step delivers exactly the multiset the abstract step promises
RefinesBag == [][ LET T == Eff(ev', Abs) IN
                  /\ Pre(ev', Abs) /\ RetOK(ev', Kind, Abs)
                  /\ \A o \in Slots : T[o].live = hp'[o].live /\ Bag(T[o].s) = Bag(hp'[o].s)]_<<hp, ev>>
\* C29: comparisons made by a push and by a pop
RECURSIVE UpCmp(_, _)
UpCmp(s, i) == IF i <= 1 THEN 0
               ELSE 1 + (IF ~Before(Kind, s[i \div 2], s[i]) THEN UpCmp(Swap(s, i, i \div 2), i \div 2) ELSE 0)
RECURSIVE DownCmp(_, _)
DownCmp(s, p) ==
  LET l == 2 * p  r == l + 1
      t1 == IF l <= Len(s) /\ ~Before(Kind, s[p], s[l]) THEN l ELSE p
      t2 == IF r <= Len(s) /\ ~Before(Kind, s[t1], s[r]) THEN r ELSE t1
  IN (IF l <= Len(s) THEN 1 ELSE 0) + (IF r <= Len(s) THEN 1 ELSE 0) + (IF t2 = p THEN 0 ELSE DownCmp(Swap(s, p, t2), t2))
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE BuildCmp(_, _)
BuildCmp(s, i) == IF i = 0 THEN 0 ELSE DownCmp(s, i) + BuildCmp(Down(s, i), i - 1)
Quick == \A o \in Slots : LET s == hp[o].s  n == Len(s) IN
   /\ \A x \in Values : UpCmp(Append(s, x), n + 1) <= Log2(n + 1)
   /\ n > 1 => DownCmp([ButLast(s) EXCEPT ![1] = s[n]], 1) <= 2 * Log2(n - 1)
QuickBuild == \A o \in Slots : BuildCmp(hp[o].s, Len(hp[o].s) \div 2) <= 2 * Len(hp[o].s)
View == hp
Edges == PrintT(ToJson([e |-> ev', s |-> hp, t |-> hp']))

\* ---- algorithms on every input
InitA == /\ \E s \in Texts(Values, MaxLen) : hp = [o \in Slots |-> [live |-> TRUE, s |-> s]]
         /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
SpecA == InitA /\ [][UNCHANGED <<hp, ev>>]_<<hp, ev>>
AlgoOK == \A o \in Slots : LET s == hp[o].s  b == Build(s)  d == Drain(b) IN
   /\ Bag(b) = Bag(s) /\ HeapOrder(b)
   /\ Bag(d) = Bag(s) /\ \A i \in 1..(Len(d) - 1) : ~Before(Kind, d[i + 1], d[i])
===============================================================================
