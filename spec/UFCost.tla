-------------------------------- MODULE UFCost --------------------------------
(* C29 for the disjoint set: moving takes no memory, queries and unions take none,   *)
(* creation and copying take a linear amount.  (The comparisons of a search cannot   *)
(* be observed; C12 runs searches over chains that only short paths survive.)        *)
EXTENDS UFADT, CostADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead]
OK(e, S, T) ==
  IF e.op \in {"new", "cc", "ca"} THEN e.k[4] <= 64 * (Len(T[e.o].p) + Len(S[e.o].p)) + 4096 /\ e.k[3] <= 64
  ELSE e.k[4] <= MoveBytes /\ e.k[3] <= MoveBlocks
Step(e) ==
  IF e.op = "v" THEN UNCHANGED objs
  ELSE LET S == Eff(e, objs) IN Pre(e, objs) /\ RetOK(e, objs) /\ objs' = S /\ OK(e, objs, S)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs>>
Spec == Init /\ [][Next]_<<tid, l, objs>>
===============================================================================
