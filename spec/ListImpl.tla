------------------------------- MODULE ListImpl -------------------------------
(* Implementation-level model of the linked lists (LinkedList.hpp,              *)
(* SinglyLinkedList.hpp, DoublyLinkedList.hpp): nodes in a shared heap, one     *)
(* embedded head node per list closing the ring, a tail pointer (singly) or     *)
(* back links (doubly).  Node ids: -o is the head of list o, 1.. are heap nodes,*)
(* 0 is null.                                                                   *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, Doubly, Nodes
VARIABLES h, ev
\* h = [live, nxt, prv, dat, tail, size]
Heads == {-o : o \in Slots}
All == Nodes \cup Heads
Hd(o) == -o
Used(H) == {x \in Nodes : H.nxt[x] # 0}
Fresh(H) == CHOOSE x \in Nodes : H.nxt[x] = 0 /\ \A y \in Nodes : H.nxt[y] = 0 => x <= y

\* Link::add / Link::del as in EmbeddedList.hpp
Add(H, p, c) ==
  LET nx == H.nxt[p]
      H1 == [H EXCEPT !.nxt[c] = nx]
      H2 == IF Doubly THEN [H1 EXCEPT !.prv[c] = p] ELSE H1
      H3 == IF Doubly /\ nx # 0 THEN [H2 EXCEPT !.prv[nx] = c] ELSE H2
  IN [H3 EXCEPT !.nxt[p] = c]
Del(H, p, c) ==
  LET nx == H.nxt[c]
      H1 == [H EXCEPT !.nxt[p] = nx]
      H2 == IF Doubly /\ nx # 0 THEN [H1 EXCEPT !.prv[nx] = p] ELSE H1
  IN [H2 EXCEPT !.nxt[c] = 0, !.prv[c] = 0]
Free(H, x) == [H EXCEPT !.dat[x] = 0]

MkNode(H, x, v) == [H EXCEPT !.dat[x] = v]
Back(H, o) == IF Doubly THEN H.prv[Hd(o)] ELSE H.tail[o]
PushBack(H, o, v) ==
  LET x == Fresh(H)  p == Back(H, o)
      G == Add(MkNode(H, x, v), p, x)
  IN [G EXCEPT !.size[o] = @ + 1, !.tail[o] = x]
PushFront(H, o, v) ==
  LET x == Fresh(H)
      G == Add(MkNode(H, x, v), Hd(o), x)
      n == H.size[o] + 1
  IN [G EXCEPT !.size[o] = n, !.tail[o] = IF n = 1 THEN x ELSE @]
PopFront(H, o) ==
  LET x == H.nxt[Hd(o)]  n == H.size[o] - 1
      G == Free(Del(H, Hd(o), x), x)
  IN [G EXCEPT !.size[o] = n, !.tail[o] = IF n = 0 THEN Hd(o) ELSE @]
RECURSIVE FindPrev(_, _, _)
FindPrev(H, p, x) == IF H.nxt[p] = x THEN p ELSE FindPrev(H, H.nxt[p], x)
PopBack(H, o) ==
  LET x == Back(H, o)
      p == IF Doubly THEN H.prv[x] ELSE FindPrev(H, Hd(o), x)
      G == Free(Del(H, p, x), x)
  IN [G EXCEPT !.size[o] = @ - 1, !.tail[o] = p]
RECURSIVE Clear(_, _)
Clear(H, o) == IF H.size[o] = 0 THEN [H EXCEPT !.tail[o] = Hd(o)] ELSE Clear(PopFront(H, o), o)
RECURSIVE Walk(_, _, _, _)
Walk(H, o, x, fuel) == IF x = Hd(o) \/ fuel = 0 THEN <<>>
                       ELSE <<x>> \o Walk(H, o, H.nxt[x], fuel - 1)
RECURSIVE WalkB(_, _, _, _)
WalkB(H, o, x, fuel) == IF x = Hd(o) \/ fuel = 0 THEN <<>>
                        ELSE <<x>> \o WalkB(H, o, H.prv[x], fuel - 1)
Chain(H, o) == Walk(H, o, H.nxt[Hd(o)], Cardinality(Nodes) + 1)
Contents(H, o) == LET c == Chain(H, o) IN [i \in 1..Len(c) |-> H.dat[c[i]]]
RECURSIVE PushAll(_, _, _)
PushAll(H, o, s) == IF s = <<>> THEN H ELSE PushAll(PushBack(H, o, Head(s)), o, Tail(s))

Born(H, o) == [H EXCEPT !.live[o] = TRUE, !.nxt[Hd(o)] = Hd(o), !.prv[Hd(o)] = IF Doubly THEN Hd(o) ELSE 0,
                        !.size[o] = 0, !.tail[o] = Hd(o)]
\* move: take over the chain, re-point its ends to the new head, empty the source
Move(H0, o, p) ==
  LET H == Clear(H0, o)
      n == H.size[p]
      f == H.nxt[Hd(p)]  b == Back(H, p)
      G == IF n = 0 THEN H
           ELSE LET G1 == [H EXCEPT !.nxt[Hd(o)] = f, !.nxt[b] = Hd(o), !.tail[o] = b]
                IN IF Doubly THEN [G1 EXCEPT !.prv[Hd(o)] = b, !.prv[f] = Hd(o)] ELSE G1
      E == Born(G, p)
  IN [E EXCEPT !.size[o] = n]

Abs == [o \in Slots |-> IF h.live[o] THEN Live(Contents(h, o)) ELSE Dead]
Step(e, H) ==
  LET o == e.o  a == e.a IN
  CASE e.op = "new" -> Born(H, o)
    [] e.op = "newn" -> PushAll(Born(H, o), o, Fill(a[1], a[2]))
    [] e.op = "del" -> LET G == Clear(H, o) IN
                       [G EXCEPT !.live[o] = FALSE, !.nxt[Hd(o)] = 0, !.prv[Hd(o)] = 0, !.tail[o] = 0]
    [] e.op = "cc" -> PushAll(Born(H, o), o, Contents(H, a[1]))
    [] e.op = "ca" -> IF a[1] = o THEN H ELSE PushAll(Clear(H, o), o, Contents(H, a[1]))
    [] e.op = "mc" -> Move(Born(H, o), o, a[1])
    [] e.op = "ma" -> IF a[1] = o THEN H ELSE Move(H, o, a[1])
    [] e.op = "pb" -> PushBack(H, o, a[1])
    [] e.op \in {"pf", "gpf"} -> PushFront(H, o, a[1])
    [] e.op = "pbi" -> PushBack(H, o, Contents(H, o)[a[1] + 1])
    [] e.op = "pfi" -> PushFront(H, o, Contents(H, o)[a[1] + 1])
    [] e.op = "setit" -> [H EXCEPT !.dat[Chain(H, o)[a[1] + 1]] = a[2]]      \* written through an iterator
    [] e.op = "popb" -> PopBack(H, o)
    [] e.op \in {"popf", "gof"} -> PopFront(H, o)
    [] e.op = "clr" -> Clear(H, o)

Zero == [x \in All |-> 0]
Init == /\ h = [live |-> [o \in Slots |-> FALSE], nxt |-> Zero, prv |-> Zero, dat |-> Zero,
                tail |-> [o \in Slots |-> 0], size |-> [o \in Slots |-> 0]]
        /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Total(S) == LET RECURSIVE Sum(_)
                Sum(P) == IF P = {} THEN 0 ELSE LET x == CHOOSE x \in P : TRUE IN Len(S[x].s) + Sum(P \ {x})
            IN Sum(Slots)
Next == \E e \in Menu(Abs, Ops, Slots, Values, MaxLen) :
           /\ Total(Eff(e, Abs)) <= Cardinality(Nodes)
           /\ ev' = e /\ h' = Step(e, h)
Spec == Init /\ [][Next]_<<h, ev>>

Rings == \A o \in Slots : h.live[o] =>
   LET c == Chain(h, o) IN
   /\ Len(c) = h.size[o]
   /\ IF Doubly THEN WalkB(h, o, h.prv[Hd(o)], Cardinality(Nodes) + 1) = Rev(c)
      ELSE h.tail[o] = IF c = <<>> THEN Hd(o) ELSE c[Len(c)]
\* C19: every linked node belongs to exactly one list, nothing leaks
NoLeak == LET Own(o) == IF h.live[o] THEN {Chain(h, o)[i] : i \in 1..Len(Chain(h, o))} ELSE {} IN
   /\ Used(h) = UNION {Own(o) : o \in Slots}
   /\ \A o, p \in Slots : o # p => Own(o) \cap Own(p) = {}
A == INSTANCE SeqMC WITH objs <- Abs, Kind <- "lt"
Refines == A!Spec
View == h
\* scripts need not distinguish node identities: canonical contents per list
Edges == PrintT(ToJson([e |-> ev', s |-> h, t |-> h']))
==============================================================================
