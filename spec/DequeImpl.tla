------------------------------ MODULE DequeImpl ------------------------------
(* Implementation-level model of core/ds/queue/DoubleEndedQueue.hpp: a table   *)
(* of blocks of BS cells, a window [b, e) of constructed cells, lazy first     *)
(* allocation in the middle of the table, re-centring (in a bigger table if it *)
(* is well used) when the window touches an edge, and halving when little is   *)
(* used.  Positions are linear: block * BS + offset.                           *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, BS
VARIABLES dq, ev
Raw == -1
Nil == [live |-> FALSE, tab |-> <<>>, b |-> 0, e |-> 0, n |-> 0]
Empty == [live |-> TRUE, tab |-> <<>>, b |-> 0, e |-> 0, n |-> 0]
RawBlock == Fill(BS, Raw)
Cap(d) == Len(d.tab) * BS
Cell(d, p) == d.tab[(p \div BS) + 1][(p % BS) + 1]
SetCell(d, p, x) == [d EXCEPT !.tab[(p \div BS) + 1][(p % BS) + 1] = x]
Contents(d) == [i \in 1..d.n |-> Cell(d, d.b + i - 1)]
Abs == [o \in Slots |-> IF dq[o].live THEN Live(Contents(dq[o])) ELSE Dead]
\* map index an iterator at linear position p carries (the end of the last block stays there)
MapIdx(d, p) == IF p = Cap(d) THEN Len(d.tab) - 1 ELSE p \div BS

InitTab(d) == [live |-> TRUE, tab |-> <<RawBlock, RawBlock>>, b |-> BS, e |-> BS, n |-> 0]
\* _resize(n): a table of n cells with the used blocks placed around its middle; a smaller table, or
\* the same, only if the used blocks and one after them fit
Resize(d, n) ==
  LET newLen == n \div BS
      os == MapIdx(d, d.b)  oe == MapIdx(d, d.e)
      ns == ((n - d.n) \div 2) \div BS
      ne == ns + (oe - os)
      tab == [i \in 1..newLen |-> IF i - 1 < ns \/ ne < i - 1 THEN RawBlock ELSE d.tab[os + (i - 1 - ns) + 1]]
      shift == (ns - os) * BS
  IN IF n <= Cap(d) /\ newLen <= ne + 1 THEN d
     ELSE [live |-> TRUE, tab |-> tab, b |-> d.b + shift, e |-> d.e + shift, n |-> d.n]
\* a push that touches an edge: more cells, unless less than a quarter of them is in use
Room(d) == Resize(d, IF Len(d.tab) > 2 /\ d.n < Cap(d) \div 4 THEN Cap(d) ELSE 2 * Cap(d))
\* a pop that leaves at most a third in use gives half of the cells back
Trim(d) == IF Len(d.tab) > 2 /\ d.n <= Cap(d) \div 3 THEN Resize(d, Cap(d) \div 2) ELSE d
PushBack(d0, x) ==
  LET d == IF Len(d0.tab) = 0 THEN InitTab(d0) ELSE IF d0.e = Cap(d0) THEN Room(d0) ELSE d0 IN
  [SetCell(d, d.e, x) EXCEPT !.e = d.e + 1, !.n = d.n + 1]
PushFront(d0, x) ==
  LET d == IF Len(d0.tab) = 0 THEN InitTab(d0) ELSE IF d0.b = 0 THEN Room(d0) ELSE d0 IN
  [SetCell(d, d.b - 1, x) EXCEPT !.b = d.b - 1, !.n = d.n + 1]
PopBack(d)  == Trim([SetCell(d, d.e - 1, Raw) EXCEPT !.e = d.e - 1, !.n = d.n - 1])
PopFront(d) == Trim([SetCell(d, d.b, Raw) EXCEPT !.b = d.b + 1, !.n = d.n - 1])
RECURSIVE PushAll(_, _)
PushAll(d, s) == IF s = <<>> THEN d ELSE PushAll(PushBack(d, Head(s)), Tail(s))
C(d, i) == Cell(d, d.b + i)

Step(e, D) ==
  LET o == e.o  a == e.a  d == D[o]
      Put(w) == [D EXCEPT ![o] = w] IN
  CASE e.op = "new" -> Put(Empty)
    [] e.op = "del" -> Put(Nil)
    [] e.op \in {"cc", "ca"} -> IF a[1] = o THEN D ELSE Put(PushAll(Empty, Contents(D[a[1]])))
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN D ELSE [D EXCEPT ![o] = D[a[1]], ![a[1]] = Empty]
    [] e.op \in {"pb", "gpb"}   -> Put(PushBack(d, a[1]))
    [] e.op = "pf"              -> Put(PushFront(d, a[1]))
    [] e.op = "pbi"             -> Put(PushBack(d, C(d, a[1])))
    [] e.op = "pfi"             -> Put(PushFront(d, C(d, a[1])))
    [] e.op = "popb"            -> Put(PopBack(d))
    [] e.op \in {"popf", "gof"} -> Put(PopFront(d))
    [] e.op = "clr"             -> Put(Empty)

Init == dq = [o \in Slots |-> Nil] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Abs, Ops, Slots, Values, MaxLen) : ev' = e /\ dq' = Step(e, dq)
Spec == Init /\ [][Next]_<<dq, ev>>

Discipline == \A o \in Slots : LET d == dq[o] IN
   /\ d.n = d.e - d.b /\ d.b >= 0 /\ d.e <= Cap(d)
   /\ \A p \in 0..(Cap(d) - 1) : (Cell(d, p) # Raw) <=> (d.b <= p /\ p < d.e)
\* C28: the cells held stay within a multiple of the cells in use
Bounded == \A o \in Slots : LET d == dq[o] IN Cap(d) <= 8 * d.n + 8 * BS
\* C29: entries of the block table written when it is made or its window placed anew, against a potential of
\* off-centre, over-full and under-full use (in cells)
Rebuilt(e, d, w) == \/ Len(w.tab) # Len(d.tab)
                    \/ e.op \in {"pb", "gpb", "pbi", "popb"} /\ w.b # d.b
                    \/ e.op \in {"pf", "pfi", "popf", "gof"} /\ w.e # d.e
Entries(e, d, w) == IF Rebuilt(e, d, w) THEN Len(d.tab) + Len(w.tab) ELSE 0
Potential(d) == LET off == d.b + d.e - Cap(d)  use == 2 * d.n - Cap(d) IN
                18 * (IF off < 0 THEN -off ELSE off) + (IF use >= 0 THEN 3 * use ELSE -(6 * use))
Amortised == [][(ev').op \in {"pb", "gpb", "pbi", "popb", "pf", "pfi", "popf", "gof"} =>
                  LET d == dq[(ev').o]  w == dq'[(ev').o] IN BS * Entries(ev', d, w) + Potential(w) - Potential(d) <= 34 * BS]_<<dq, ev>>
A == INSTANCE SeqMC WITH objs <- Abs, Kind <- "lt"
Refines == A!Spec
View == dq
Edges == PrintT(ToJson([e |-> ev', s |-> dq, t |-> dq']))
==============================================================================
