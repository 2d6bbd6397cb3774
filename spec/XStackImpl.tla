------------------------------ MODULE XStackImpl ------------------------------
(* Min/max stack (stack/XValueStack.hpp): the elements plus a second stack that  *)
(* holds the extremes of all prefixes.  Refines SeqADT; the top of the second    *)
(* stack is always the extreme of the held values (C06).                         *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, Kind
VARIABLES st, ev
None == [live |-> FALSE, d |-> <<>>, x |-> <<>>]
Empty == [live |-> TRUE, d |-> <<>>, x |-> <<>>]
LastOf(s) == s[Len(s)]
Abs == [o \in Slots |-> IF st[o].live THEN Live(st[o].d) ELSE Dead]
Push(t, v) == [t EXCEPT !.d = Append(t.d, v),
                        !.x = IF t.x = <<>> \/ ~Before(Kind, LastOf(t.x), v) THEN Append(t.x, v) ELSE t.x]
Pop(t) == [t EXCEPT !.d = Front(t.d),
                    !.x = IF ~Before(Kind, LastOf(t.x), LastOf(t.d)) THEN Front(t.x) ELSE t.x]
Step(e, T) ==
  LET o == e.o  a == e.a  Put(w) == [T EXCEPT ![o] = w] IN
  CASE e.op = "new" -> Put(Empty)
    [] e.op = "del" -> Put(None)
    [] e.op \in {"cc", "ca"} -> Put(T[a[1]])
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN T ELSE [T EXCEPT ![o] = T[a[1]], ![a[1]] = Empty]
    [] e.op = "pb"  -> Put(Push(T[o], a[1]))
    [] e.op = "pbi" -> Put(Push(T[o], T[o].d[a[1] + 1]))
    [] e.op = "popb" -> Put(Pop(T[o]))
    [] e.op = "clr" -> Put(Empty)
Init == st = [o \in Slots |-> None] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Abs, Ops, Slots, Values, MaxLen) : ev' = e /\ st' = Step(e, st)
Spec == Init /\ [][Next]_<<st, ev>>
Extreme == \A o \in Slots : LET t == st[o] IN
   /\ (t.d = <<>>) <=> (t.x = <<>>)
   /\ t.d # <<>> => IsExtreme(Kind, LastOf(t.x), t.d)
A == INSTANCE SeqMC WITH objs <- Abs
Refines == A!Spec
View == st
Edges == PrintT(ToJson([e |-> ev', s |-> st, t |-> st']))
===============================================================================
