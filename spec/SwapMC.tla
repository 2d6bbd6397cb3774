---------------------------------- MODULE SwapMC ----------------------------------
(* Registers and swaps at the level of the specification: script source for C26.     *)
EXTENDS Helpers, Json, TLC
CONSTANTS NR, Vals
VARIABLES regs, ev
Init == regs = [i \in 1..NR |-> 0] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E i, j \in 1..NR, v \in Vals :
   \/ ev' = [op |-> "set", o |-> 0, a |-> <<i, v>>] /\ regs' = Eff(regs, ev')
   \/ ev' = [op |-> "swap", o |-> 0, a |-> <<i, j>>] /\ regs' = Eff(regs, ev')
Spec == Init /\ [][Next]_<<regs, ev>>
Exact == [][ev'.op = "swap" => /\ regs'[ev'.a[1]] = regs[ev'.a[2]] /\ regs'[ev'.a[2]] = regs[ev'.a[1]]
                               /\ \A k \in 1..NR : k \notin {ev'.a[1], ev'.a[2]} => regs'[k] = regs[k]]_<<regs, ev>>
View == regs
Edges == PrintT(ToJson([e |-> ev', s |-> regs, t |-> regs']))
===============================================================================
