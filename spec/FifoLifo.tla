------------------------------- MODULE FifoLifo -------------------------------
(* C05 as a law over histories: whatever the interleaving, the elements a queue  *)
(* has delivered followed by those it holds are exactly those inserted, in       *)
(* order; a stack delivers, and holds, each inserted element exactly once and    *)
(* always hands out the most recent one still held.                              *)
EXTENDS SeqADT
CONSTANTS Values, MaxHist
VARIABLES S, q, st, ins, outq, outs   \* q, st: slots of SeqADT machines fed with the same inputs
vars == <<S, q, st, ins, outq, outs>>
E(op, a) == [op |-> op, o |-> 1, a |-> a]
Init == /\ S = 0 /\ q = <<Live(<<>>)>> /\ st = <<Live(<<>>)>> /\ ins = <<>> /\ outq = <<>> /\ outs = <<>>
Push == \E x \in Values : /\ Len(ins) + Len(outq) < MaxHist
                          /\ q' = Eff(E("pb", <<x>>), q) /\ st' = Eff(E("pb", <<x>>), st)
                          /\ ins' = Append(ins, <<Len(ins) + 1, x>>) /\ UNCHANGED <<S, outq, outs>>
\* tokens (position of insertion) tracked beside the values
Held == [i \in 1..(Len(ins) - Len(outq)) |-> i]
RECURSIVE StackTok(_, _)    \* tokens still on the stack, bottom first, given the delivered tokens
StackTok(n, gone) == IF n = 0 THEN <<>> ELSE StackTok(n - 1, gone) \o (IF n \in gone THEN <<>> ELSE <<n>>)
Gone == {outs[i][1] : i \in 1..Len(outs)}
Pop == /\ q[1].s # <<>>
       /\ Len(ins) + Len(outq) < MaxHist
       /\ outq' = Append(outq, q[1].s[1]) /\ q' = Eff(E("popf", <<>>), q)
       /\ LET t == StackTok(Len(ins), Gone) IN outs' = Append(outs, <<t[Len(t)], st[1].s[Len(st[1].s)]>>)
       /\ st' = Eff(E("popb", <<>>), st) /\ UNCHANGED <<S, ins>>
Next == Push \/ Pop
Spec == Init /\ [][Next]_vars
Vals(s) == [i \in 1..Len(s) |-> s[i][2]]
Exactly == /\ outq \o q[1].s = Vals(ins)
           /\ LET t == StackTok(Len(ins), Gone) IN
              /\ st[1].s = [i \in 1..Len(t) |-> ins[t[i]][2]]
              /\ \A i \in 1..Len(outs) : outs[i][2] = ins[outs[i][1]][2]
              /\ Cardinality(Gone) = Len(outs)
===============================================================================
