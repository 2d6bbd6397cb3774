-------------------------------- MODULE OrdCost --------------------------------
(* C29 for trees and maps: recorded runs must be behaviours of OrdADT whose          *)
(* operations cost what CostADT allows.  An AVL tree or map searches in logarithmic  *)
(* time whatever its history; a plain search tree may degenerate to a list.          *)
EXTENDS OrdADT, CostADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead]
Size(S, o) == Cardinality(DOMAIN S[o].m)
Whole == {"cc", "ca", "newr", "clr", "del"}
Moves == {"mc", "ma"}
Bulks == {"bins", "brem", "bfind"}
Reads(c, n) == IF c = "bst.led" THEN 16 * (n + 4) ELSE LogReads(n)
Work(e, S, T) ==
  CASE e.op \in Bulks -> e.a[1] + 1
    [] e.op \in Whole -> 2 * (Size(S, e.o) + Size(T, e.o) + Len(e.a) + 1)
    [] OTHER          -> 1
Most(e, S, T) == LET p == Size(S, e.o)  q == Size(T, e.o) IN (IF p > q THEN p ELSE q) + 1
OK(c, e, S, T) ==
  LET w == Work(e, S, T)  k == e.k IN
  IF e.op \in Moves THEN k[1] <= MoveCopies /\ k[2] <= StepReads /\ k[3] <= MoveBlocks /\ k[4] <= MoveBytes
  ELSE /\ k[1] <= w * NodeCopies /\ k[2] <= w * Reads(c, Most(e, S, T)) /\ k[3] <= w * NodeBlocks
       \* no single step of a bulk operation costs more than one operation may
       /\ ~(e.op \in Whole) => e.kx[1] <= NodeCopies /\ e.kx[2] <= Reads(c, Most(e, S, T)) /\ e.kx[3] <= NodeBlocks
Step(T, e) ==
  IF e.op = "v" THEN UNCHANGED objs
  ELSE LET S == Eff(T.k, e, objs) IN
       Pre(T.k, e, objs) /\ RetOK(T.k, e, objs) /\ objs' = S /\ OK(T.c, e, objs, S)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs>>
Spec == Init /\ [][Next]_<<tid, l, objs>>
================================================================================
