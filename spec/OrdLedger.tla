------------------------------- MODULE OrdLedger -------------------------------
(* C18, C19, C28 for trees and maps: recorded runs must be behaviours of OrdADT whose  *)
(* micro-events keep the ledgers in order.                                        *)
EXTENDS OrdADT, Ledger, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
M == CASE IOEnv.MODE = "1" -> 1 [] IOEnv.MODE = "2" -> 2 [] OTHER -> 3
Slots == 1..3
VARIABLES tid, l, objs, led, base
B0 == [b |-> 0, per |-> 0, x |-> 0, esz |-> 0, fix |-> 0]
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead] /\ led = L0 /\ base = B0
Size(S, o) == Cardinality(DOMAIN S[o].m)
Step(T, e) ==
  IF e.op = "base" THEN base' = [b |-> e.b, per |-> e.per, x |-> e.x, esz |-> e.esz, fix |-> e.fix] /\ UNCHANGED <<objs, led>>
  ELSE LET L == Run(M, e.op = "newr", led, e.mi) IN
       /\ L.ok /\ led' = L /\ UNCHANGED base
       /\ IF e.op = "v" THEN UNCHANGED objs
          ELSE LET S == Eff(T.k, e, objs) IN
               /\ Pre(T.k, e, objs) /\ RetOK(T.k, e, objs) /\ objs' = S
               /\ LET n == Size(S, 1) + Size(S, 2) + Size(S, 3)  k == Cardinality({o \in Slots : S[o].live}) IN
                  /\ Settled(M, L, base, n, k, e.libc)
                  /\ M = 3 => Bytes(L) <= n * (2 * base.esz + 48)                         \* C28: a node for each element
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs, led, base>>
Spec == Init /\ [][Next]_<<tid, l, objs, led, base>>
===============================================================================
