------------------------------- MODULE SeqLedger -------------------------------
(* C18, C19, C28 for the sequence containers: recorded runs must be behaviours of *)
(* SeqADT whose micro-events keep the ledgers in order.                           *)
(* base.rsv = cells the user asked for in advance, which count as used (C28)       *)
EXTENDS SeqADT, Ledger, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
M == CASE IOEnv.MODE = "1" -> 1 [] IOEnv.MODE = "2" -> 2 [] OTHER -> 3
Slots == 1..3
VARIABLES tid, l, objs, led, base
B0 == [b |-> 0, per |-> 0, x |-> 0, esz |-> 0, fix |-> 0, rsv |-> 0]
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead] /\ led = L0 /\ base = B0
Fixed(m, e) == IF e.op = "newx" THEN [e EXCEPT !.a = <<e.a[1], m>>] ELSE e
Step(T, e0) ==
  IF e0.op = "base" THEN base' = [b |-> e0.b, per |-> e0.per, x |-> e0.x, esz |-> e0.esz, fix |-> e0.fix, rsv |-> 0] /\ UNCHANGED <<objs, led>>
  ELSE LET L == Run(M, FALSE, led, e0.mi) IN
       /\ L.ok /\ led' = L
       /\ base' = IF e0.op = "rs" /\ e0.a[1] > base.rsv THEN [base EXCEPT !.rsv = e0.a[1]] ELSE base
       /\ IF e0.op = "v" THEN UNCHANGED objs
          ELSE LET e == Fixed(T.m, e0) S == Eff(e, objs) IN
               /\ Pre(e, objs) /\ RetOK(e, T.k, objs) /\ objs' = S
               /\ LET n == Len(S[1].s) + Len(S[2].s) + Len(S[3].s)  k == Cardinality({o \in Slots : S[o].live}) IN
                  /\ Settled(M, L, base, n, k, e0.libc)
                  /\ M = 3 => Bytes(L) <= Bound(base, T.m, n + base'.rsv, k)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs, led, base>>
Spec == Init /\ [][Next]_<<tid, l, objs, led, base>>
===============================================================================
