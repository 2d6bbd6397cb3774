------------------------------ MODULE StringImpl ------------------------------
(* string/BasicString.hpp: a character vector that always ends in one           *)
(* terminator (0), with the storage growth rules of appends.  Refines SeqADT.   *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, InitCap
VARIABLES st, ev
None == [live |-> FALSE, c |-> <<>>, cap |-> 0]
Empty == [live |-> TRUE, c |-> <<0>>, cap |-> InitCap]
Abs == [o \in Slots |-> IF st[o].live THEN Live(Front(st[o].c)) ELSE Dead]
\* Vector::push_back on the character list
VPush(t, x) == [t EXCEPT !.c = Append(t.c, x),
                         !.cap = IF Len(t.c) + 1 > t.cap THEN (IF Len(t.c) > 0 THEN 2 * Len(t.c) ELSE 2) ELSE t.cap]
SetLast(t, x) == [t EXCEPT !.c[Len(t.c)] = x]
PushCh(t, x) == VPush(SetLast(t, x), 0)
RECURSIVE VPushAll(_, _)
VPushAll(t, s) == IF s = <<>> THEN t ELSE VPushAll(VPush(t, Head(s)), Tail(s))
FromC(s) == IF s = <<>> THEN Empty ELSE VPush(VPushAll(SetLast(Empty, Head(s)), Tail(s)), 0)
\* operator+= : overwrite the terminator with the first character (or terminator) of u
App(t, u) ==
  LET need == Len(t.c) + Len(u.c) - 1
      t1 == IF t.cap < need THEN [t EXCEPT !.cap = need] ELSE t
  IN VPushAll(SetLast(t1, Head(u.c)), Tail(u.c))
Own(t, i) == SufFrom(Front(t.c), i)
Step(e, T) ==
  LET o == e.o  a == e.a  t == T[o]  Put(w) == [T EXCEPT ![o] = w] IN
  CASE e.op = "new"  -> Put(Empty)
    [] e.op \in {"newl", "as"} -> Put(FromC(a))
    [] e.op = "asown" -> Put(FromC(Own(t, a[1])))
    [] e.op = "del"  -> Put(None)
    [] e.op \in {"cc", "ca"} -> Put(T[a[1]])
    [] e.op \in {"mc", "ma"} -> IF a[1] = o THEN T ELSE [T EXCEPT ![o] = T[a[1]], ![a[1]] = Empty]
    [] e.op = "pb"   -> Put(PushCh(t, a[1]))
    [] e.op = "pbi"  -> Put(PushCh(t, t.c[a[1] + 1]))
    [] e.op = "apc"  -> Put(App(t, FromC(a)))
    [] e.op = "apown" -> Put(App(t, FromC(Own(t, a[1]))))
    [] e.op = "aps"  -> Put(App(t, T[a[1]]))
    [] e.op \in {"cat", "ncat"} -> Put(App(T[a[1]], T[a[2]]))
    [] e.op = "catc" -> Put(App(T[a[1]], FromC(Tail(a))))
    [] e.op = "ccat" -> Put(App(FromC(Tail(a)), T[a[1]]))
    [] e.op = "set"  -> Put([t EXCEPT !.c[a[1] + 1] = a[2]])
    [] e.op = "clr"  -> Put(Empty)
Init == st = [o \in Slots |-> None] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
\* a negative index on a string counts from the terminator: not part of the contract
Ok(e) == (e.op = "set") => e.a[1] >= 0
Next == \E e \in {f \in Menu(Abs, Ops, Slots, Values, MaxLen) : Ok(f)} : ev' = e /\ st' = Step(e, st)
Spec == Init /\ [][Next]_<<st, ev>>
Terminated == \A o \in Slots : st[o].live =>
   /\ Len(st[o].c) >= 1 /\ st[o].c[Len(st[o].c)] = 0
   /\ \A i \in 1..(Len(st[o].c) - 1) : st[o].c[i] # 0
   /\ st[o].cap >= Len(st[o].c)
A == INSTANCE SeqMC WITH objs <- Abs, Kind <- "lt"
Refines == A!Spec
View == st
Edges == PrintT(ToJson([e |-> ev', s |-> st, t |-> st']))
===============================================================================
