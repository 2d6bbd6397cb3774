--------------------------------- MODULE Helpers ---------------------------------
(* Value helpers of core/utils.hpp over a totally ordered universe: values are       *)
(* numbered by rank (0 is zero, -k the negation of k); pointers by address order     *)
(* with null as 0.  regs are the user's variables that swap exchanges.               *)
EXTENDS Integers, Sequences
Less(x, y) == x < y
Greater(x, y) == Less(y, x)
Max(x, y) == IF Less(x, y) THEN y ELSE x
Abs(x) == IF Less(x, 0) THEN -x ELSE x
B01(b) == IF b THEN 1 ELSE 0
Can(regs, e) == CASE e.op \in {"set"} -> e.a[1] \in 1..Len(regs)
                  [] e.op = "swap" -> e.a[1] \in 1..Len(regs) /\ e.a[2] \in 1..Len(regs)
                  [] OTHER -> TRUE
Eff(regs, e) == CASE e.op = "set" -> [regs EXCEPT ![e.a[1]] = e.a[2]]
                  [] e.op = "swap" -> [regs EXCEPT ![e.a[1]] = regs[e.a[2]], ![e.a[2]] = regs[e.a[1]]]
                  [] OTHER -> regs
Ret(regs, e) == CASE e.op = "ord" -> <<B01(Less(e.a[1], e.a[2])), B01(Greater(e.a[1], e.a[2]))>>
                  [] e.op = "max" -> <<Max(e.a[1], e.a[2])>>
                  [] e.op = "abs" -> <<Abs(e.a[1])>>
                  [] e.op \in {"set", "swap"} -> Eff(regs, e)
===============================================================================
