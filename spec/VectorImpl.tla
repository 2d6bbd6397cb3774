----------------------------- MODULE VectorImpl -----------------------------
(* Implementation-level model of core/ds/array/Vector.hpp: storage cells that *)
(* are raw or hold a live element, the growth/shrink policy and element-wise  *)
(* relocation.  Checked to refine SeqADT and to keep the element discipline   *)
(* of C18 (exactly the first n cells are constructed).                        *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops
VARIABLES vec, ev
Raw == -1
None == [live |-> FALSE, cells |-> <<>>, n |-> 0]
Empty == [live |-> TRUE, cells |-> <<>>, n |-> 0]
Cap(v) == Len(v.cells)
Abs == [o \in Slots |-> IF vec[o].live THEN Live(SubSeq(vec[o].cells, 1, vec[o].n)) ELSE Dead]

\* resize(n): fresh raw storage, relocate the prefix, release the old block
Resize(v, n) ==
  [live |-> TRUE,
   cells |-> [i \in 1..n |-> IF i <= v.n THEN v.cells[i] ELSE Raw],
   n |-> Min2(n, v.n)]
\* resize(n, x): as above, the rest constructed with x
ResizeFill(v, n, x) ==
  IF n = 0 THEN Resize(v, 0)
  ELSE [live |-> TRUE, cells |-> [i \in 1..n |-> IF i <= v.n THEN v.cells[i] ELSE x], n |-> n]
PushBack(v, x) ==
  LET w == IF v.n + 1 > Cap(v) THEN Resize(v, IF v.n > 0 THEN 2 * v.n ELSE 2) ELSE v IN
  [w EXCEPT !.cells[v.n + 1] = x, !.n = v.n + 1]
PopBack(v) ==
  LET w == [v EXCEPT !.n = v.n - 1, !.cells[v.n] = Raw] IN
  IF w.n < Cap(v) \div 3 THEN Resize(w, Cap(v) \div 2) ELSE w
Copy(w) == [live |-> TRUE,
            cells |-> [i \in 1..Cap(w) |-> IF i <= w.n THEN w.cells[i] ELSE Raw], n |-> w.n]
C(v, i) == v.cells[i + 1]
Idx(v, i) == IF i < 0 THEN v.n + i ELSE i

Step(e, V) ==
  LET o == e.o  a == e.a  v == V[o]
      Put(w) == [V EXCEPT ![o] = w] IN
  CASE e.op = "new"  -> Put(Empty)
    [] e.op = "newn" -> Put([live |-> TRUE, cells |-> Fill(a[1], a[2]), n |-> a[1]])
    [] e.op = "del"  -> Put(None)
    [] e.op \in {"cc", "ca"} -> IF a[1] = o THEN V ELSE Put(Copy(V[a[1]]))
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN V ELSE [V EXCEPT ![o] = V[a[1]], ![a[1]] = Empty]
    [] e.op \in {"pb", "gpb"}   -> Put(PushBack(v, a[1]))
    [] e.op = "pbi"  -> Put(PushBack(v, C(v, a[1])))
    [] e.op \in {"popb", "gob"} -> Put(PopBack(v))
    [] e.op \in {"set", "setit"} -> Put([v EXCEPT !.cells[Idx(v, a[1]) + 1] = a[2]])
    [] e.op = "seti" -> Put([v EXCEPT !.cells[Idx(v, a[1]) + 1] = C(v, Idx(v, a[2]))])
    [] e.op = "rs"   -> Put(Resize(v, a[1]))
    [] e.op = "rsf"  -> Put(ResizeFill(v, a[1], a[2]))
    [] e.op = "rsi"  -> Put(ResizeFill(v, a[1], C(v, a[2])))
    [] e.op = "clr"  -> Put(Empty)

Init == vec = [o \in Slots |-> None] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Abs, Ops, Slots, Values, MaxLen) : ev' = e /\ vec' = Step(e, vec)
Spec == Init /\ [][Next]_<<vec, ev>>

Discipline == \A o \in Slots : LET v == vec[o] IN
   /\ v.n <= Cap(v)
   /\ \A i \in 1..Cap(v) : (v.cells[i] # Raw) <=> (i <= v.n)
   /\ (~v.live => v = None)
\* C28 (where no capacity is asked for in advance)
Bounded == \A o \in Slots : Cap(vec[o]) <= 3 * vec[o].n + 5
\* C29: elements built by a push or a pop, against a potential of over-full and under-full storage (both doubled)
Built(v, w) == (IF w.n > v.n THEN 1 ELSE 0) + (IF Cap(v) # Cap(w) THEN Min2(v.n, w.n) + 1 ELSE 0)
Potential(v) == IF 2 * v.n >= Cap(v) THEN 2 * (2 * v.n - Cap(v)) ELSE 3 * (Cap(v) - 2 * v.n)
Amortised == [][(ev').op \in {"pb", "gpb", "pbi", "popb", "gob"} =>
                  LET v == vec[(ev').o]  w == vec'[(ev').o] IN 2 * Built(v, w) + Potential(w) - Potential(v) <= 12]_<<vec, ev>>
A == INSTANCE SeqMC WITH objs <- Abs, Kind <- "lt"
Refines == A!Spec
View == vec
Edges == PrintT(ToJson([e |-> ev', s |-> vec, t |-> vec']))
==============================================================================
