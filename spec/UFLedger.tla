-------------------------------- MODULE UFLedger --------------------------------
(* C19, C28 for the disjoint set.                                                       *)
EXTENDS UFADT, Ledger, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
M == IF IOEnv.MODE = "3" THEN 3 ELSE 2
Slots == 1..3
VARIABLES tid, l, objs, led, base
B0 == [b |-> 0, per |-> 0, x |-> 0, esz |-> 0, fix |-> 0]
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead] /\ led = L0 /\ base = B0
Step(e) ==
  IF e.op = "base" THEN base' = [b |-> e.b, per |-> e.per, x |-> e.x, esz |-> e.esz, fix |-> e.fix] /\ UNCHANGED <<objs, led>>
  ELSE LET L == Run(M, FALSE, led, e.mi) IN
       /\ L.ok /\ led' = L /\ UNCHANGED base
       /\ IF e.op = "v" THEN UNCHANGED objs
          ELSE LET S == Eff(e, objs) IN
               /\ Pre(e, objs) /\ RetOK(e, objs) /\ objs' = S
               /\ LET n == Len(S[1].p) + Len(S[2].p) + Len(S[3].p)  k == Cardinality({o \in Slots : S[o].live}) IN
                  /\ Settled(M, L, base, n, k, e.libc)
                  /\ M = 3 => Bytes(L) <= 16 * n + 64 * k                        \* C28
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs, led, base>>
Spec == Init /\ [][Next]_<<tid, l, objs, led, base>>
===============================================================================
