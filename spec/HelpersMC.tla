-------------------------------- MODULE HelpersMC --------------------------------
(* The laws of C26 over a bounded universe, and core/utils.hpp transcribed: pointer  *)
(* comparison tests for null first, so that the result does not depend on how null   *)
(* compares with an address (na: any position); swap goes through one temporary.     *)
EXTENDS Helpers, Json, TLC
CONSTANTS K, NR
VARIABLES regs, tmp, pc, na, ev
vars == <<regs, tmp, pc, na, ev>>
V == -K..K
Ptr == 0..K
Start == [i \in 1..NR |-> i]
Ev(op, a) == [op |-> op, o |-> 0, a |-> a]
\* C++: comparison of raw addresses, null somewhere among them
Raw(p) == IF p = 0 THEN na ELSE 2 * p
LessPtr(a, b) == IF b = 0 THEN FALSE ELSE IF a = 0 THEN TRUE ELSE Raw(a) < Raw(b)
GreaterPtr(a, b) == IF a = 0 THEN FALSE ELSE IF b = 0 THEN TRUE ELSE Raw(a) > Raw(b)
MaxC(a, b) == IF a > b THEN a ELSE b
AbsC(a) == IF a >= 0 THEN a ELSE -a
Init == regs = Start /\ tmp = 0 /\ pc = <<>> /\ na \in {2 * i + 1 : i \in -1..K} /\ ev = Ev("init", <<>>)
\* c = move(a); a = move(b); b = move(c)   (a moved-from register holds -99 until it is assigned)
Swap1 == pc = <<>> /\ \E i, j \in 1..NR : pc' = <<i, j, 1>> /\ tmp' = regs[i] /\ regs' = [regs EXCEPT ![i] = -99] /\ ev' = Ev("begin", <<i, j>>)
Swap2 == pc # <<>> /\ pc[3] = 1 /\ pc' = <<pc[1], pc[2], 2>> /\ ev' = Ev("mid", <<>>) /\ UNCHANGED tmp
         /\ regs' = IF pc[1] = pc[2] THEN regs ELSE [regs EXCEPT ![pc[1]] = regs[pc[2]], ![pc[2]] = -99]
Swap3 == pc # <<>> /\ pc[3] = 2 /\ pc' = <<>> /\ regs' = [regs EXCEPT ![pc[2]] = tmp] /\ ev' = Ev("swap", <<pc[1], pc[2]>>) /\ UNCHANGED tmp
Next == UNCHANGED na /\ (Swap1 \/ Swap2 \/ Swap3)
Spec == Init /\ [][Next]_vars
PtrLaws == \A a, b \in Ptr : LessPtr(a, b) = Less(a, b) /\ GreaterPtr(a, b) = Greater(a, b)
Orders == \A a, b, c \in V :
   /\ ~Less(a, a) /\ ~(Less(a, b) /\ Less(b, a)) /\ ((Less(a, b) /\ Less(b, c)) => Less(a, c))
   /\ (a # b => (Less(a, b) \/ Less(b, a))) /\ (Less(a, b) <=> Greater(b, a))
Bottom == \A p \in Ptr \ {0} : Less(0, p) /\ ~Less(p, 0)
Values == \A a, b \in V : /\ MaxC(a, b) = Max(a, b) /\ AbsC(a) = Abs(a)
                          /\ Max(a, b) \in {a, b} /\ ~Less(Max(a, b), a) /\ ~Less(Max(a, b), b)
                          /\ Abs(a) \in {a, -a} /\ ~Less(Abs(a), 0)
Permuted == pc = <<>> => \A v \in 1..NR : \E i \in 1..NR : regs[i] = v
View == <<regs, tmp, pc, na>>
===============================================================================
