-------------------------------- MODULE SeqCost --------------------------------
(* C29 for the sequence containers: recorded runs must be behaviours of SeqADT      *)
(* whose operations cost what CostADT allows.                                       *)
EXTENDS SeqADT, CostADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs, ac
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead] /\ ac = Acct0
Lists == {"sll.led", "dll.led", "quel.led", "ques.led"}
Heaps == {"heapmin.led", "heapmax.led", "heappq.led"}
Whole == {"cc", "ca", "newn", "newl", "clr", "del", "rs", "rsf", "rsi", "as", "asown", "apc", "apown", "aps", "cat", "catc", "ccat", "ncat", "eqc"}
Moves == {"mc", "ma"}
Bulks == {"bpb", "bpf", "bpopb", "bpopf", "bsc", "bpopx"}
Both == {"slide", "slideb", "churn"}
\* how many elementary steps an operation stands for
Work(e, S, T) ==
  CASE e.op \in Bulks -> e.a[1] + 1
    [] e.op \in Both  -> 2 * e.a[1] + 1
    [] e.op \in Whole -> 2 * (Len(S[e.o].s) + Len(T[e.o].s) + Len(e.a) + 4) + (IF e.op = "rs" THEN e.a[1] ELSE 0)
    [] OTHER          -> 1
\* most elements ever held during the operation
Most(e, S, T) == LET n == IF Len(S[e.o].s) > Len(T[e.o].s) THEN Len(S[e.o].s) ELSE Len(T[e.o].s) IN n + 1
OK(c, e, S, T, esz) ==
  LET w == Work(e, S, T)  n == Most(e, S, T)  k == e.k
      sift == c \in Heaps /\ ~(e.op \in Whole \cup Moves) IN
  /\ k[2] <= w * (IF sift THEN LogReads(n) ELSE StepReads)
  \* no single step of a bulk operation costs more than one operation may
  /\ ~(e.op \in Whole \cup Moves) => e.kx[2] <= (IF sift THEN LogReads(n) ELSE StepReads)
  /\ (c \in Lists /\ ~(e.op \in Whole \cup Moves)) => e.kx[1] <= NodeCopies /\ e.kx[3] <= NodeBlocks
  /\ (c \in Lists /\ e.op \notin Moves) => k[1] <= w * NodeCopies /\ k[3] <= w * NodeBlocks     \* every single operation
  /\ e.op \in Moves => k[1] <= MoveCopies /\ k[3] <= MoveBlocks /\ k[4] <= MoveBytes                                \* contents are handed over
  /\ ac' = Charge(ac, w, IF sift THEN LogCopies(n) ELSE 0, esz, IF e.op \in Whole \cup Moves \cup {"new"} THEN 1 ELSE 0, k)
  /\ Solvent(ac')
\* building and sorting
AlgoOps == {"sort", "sortr", "build", "ctor"}
AlgoOK(e) ==
  LET n == Len(e.a) + 1 IN
  /\ e.k[1] <= n * LogCopies(n) + 64 /\ e.k[2] <= n * LogReads(n) /\ e.k[3] <= n + 16
Esz(c) == IF c = "str" THEN 1 ELSE 8
Step(T, e) ==
  IF e.op = "v" THEN UNCHANGED <<objs, ac>>
  ELSE IF e.op \in AlgoOps THEN AlgoOK(e) /\ UNCHANGED <<objs, ac>>
  ELSE LET S == Eff(e, objs) IN
       Pre(e, objs) /\ RetOK(e, T.k, objs) /\ objs' = S /\ OK(T.c, e, objs, S, Esz(T.c))
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs, ac>>
Spec == Init /\ [][Next]_<<tid, l, objs, ac>>
================================================================================
