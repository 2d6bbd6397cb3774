------------------------------- MODULE StableMC -------------------------------
(* The handles of StableADT over ideal sequences, exhaustively in bounds.  Every    *)
(* element has an identity (ids, never reused while in a sequence), and the laws     *)
(* say that Where finds exactly the element designated.                              *)
EXTENDS StableADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, Hn
VARIABLES objs, hs, ids, hid, ev
Init == /\ objs = [o \in Slots |-> Dead] /\ hs = [g \in Hn |-> <<>>]
        /\ ids = [o \in Slots |-> <<>>] /\ hid = [g \in Hn |-> 0]
        /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
InUse == UNION {{ids[o][i] : i \in 1..Len(ids[o])} : o \in Slots} \cup {hid[g] : g \in Hn}
New(k) == LET free == {x \in 1..(MaxLen * Cardinality(Slots) + Cardinality(Hn) + MaxLen) : x \notin InUse}
              RECURSIVE Pick(_, _)
              Pick(F, n) == IF n = 0 THEN <<>> ELSE LET x == CHOOSE x \in F : \A y \in F : x <= y IN <<x>> \o Pick(F \ {x}, n - 1)
          IN Pick(free, k)
\* what the operations do to identities, told independently of Where
Ids(e) ==
  LET o == e.o  a == e.a  q == ids[o]  n == Len(q)  Put(w) == [ids EXCEPT ![o] = w] IN
  CASE e.op \in {"pb", "pbi", "gpb"} -> Put(q \o New(1))
    [] e.op \in {"pf", "pfi", "gpf"} -> Put(New(1) \o q)
    [] e.op = "newn" -> Put(New(a[1]))
    [] e.op \in {"popb", "gob"} -> Put(Front(q))
    [] e.op \in {"popf", "gof"} -> Put(Tail(q))
    [] e.op \in {"clr", "del", "new"} -> Put(<<>>)
    [] e.op \in {"cc", "ca"} -> IF a[1] = o THEN ids ELSE Put(New(Len(ids[a[1]])))
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN ids ELSE [ids EXCEPT ![o] = ids[a[1]], ![a[1]] = <<>>]
    [] OTHER -> ids
Gone(I, x) == \A o \in Slots : \A i \in 1..Len(I[o]) : I[o][i] # x
Next == \/ \E e \in Menu(objs, Ops, Slots, Values, MaxLen) :
             /\ ev' = e /\ objs' = Eff(e, objs) /\ hs' = Carry(e, objs, hs) /\ ids' = Ids(e)
             /\ hid' = [g \in Hn |-> IF Gone(Ids(e), hid[g]) THEN 0 ELSE hid[g]]
        \/ \E e \in HMenu(objs, hs, Ops, Slots, Values) :
             /\ HPre(e, objs, hs) /\ ev' = e /\ objs' = HObjs(e, objs, hs) /\ hs' = HEff(e, hs) /\ UNCHANGED ids
             /\ hid' = IF e.op = "take" THEN [hid EXCEPT ![e.a[1]] = ids[e.o][e.a[2] + 1]] ELSE hid
Spec == Init /\ [][Next]_<<objs, hs, ids, hid, ev>>
Follows == \A g \in Hn : /\ (hs[g] = <<>>) = (hid[g] = 0)
                         /\ hs[g] # <<>> => ids[hs[g][1]][hs[g][2]] = hid[g]
Valid == \A o \in Slots : Len(ids[o]) = Len(objs[o].s)
\* identities are a device of the proof: states are told apart by what a user can see
View == <<objs, hs>>
Edges == PrintT(ToJson([e |-> ev', s |-> <<objs, hs>>, t |-> <<objs', hs'>>]))
===============================================================================
