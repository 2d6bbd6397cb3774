-------------------------------- MODULE CostADT --------------------------------
(* What the operations of a container may cost (C29).  An operation's cost is the   *)
(* record k = <<elements built or assigned, elements read by comparisons, blocks     *)
(* taken from the allocator, bytes taken>>.  Costs are bounded in two ways: by the   *)
(* single operation (worst case), and on average over the history (amortised: an     *)
(* account to which every operation pays in a constant, and which must never be      *)
(* overdrawn).  All constants are several times what the algorithms need.            *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)          \* floor of the binary logarithm
\* elements read by one search, insertion or removal among n in a balanced order, and by one sift of a heap
LogReads(n) == 40 * (Lg(n + 1) + 2)
LogCopies(n) == 16 * (Lg(n + 1) + 2)
NodeCopies == 80            \* elements built by one operation of a node container
NodeBlocks == 4
MoveCopies == 16
MoveBlocks == 8
MoveBytes == 4096
StepReads == 16             \* elements read by one operation that needs no order
\* the amortised account: what one elementary operation pays in
PayCopies == 12
PayBlocks == 64
PayBytes(esz) == 64 * (esz + 24)
StartBytes(esz) == 1024 * (esz + 24)
Acct0 == [c |-> 64, b |-> 64, y |-> 0]
Cap(x) == IF x > 1000000000 THEN 1000000000 ELSE x
\* the account after an operation of w elementary steps, each allowed lc copies beyond the constant
Charge(ac, w, lc, esz, starts, k) ==
  [c |-> Cap(ac.c + w * (PayCopies + lc)) - k[1], b |-> Cap(ac.b + w * PayBlocks) - k[3],
   y |-> Cap(ac.y + w * PayBytes(esz) + starts * StartBytes(esz)) - k[4]]
Solvent(ac) == ac.c >= 0 /\ ac.b >= 0 /\ ac.y >= 0
================================================================================
