-------------------------------- MODULE OrdTrace --------------------------------
(* Every recorded run of the real trees and maps must be a behaviour of OrdADT.     *)
EXTENDS OrdADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs, its
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead] /\ its = NoIts
Step(T, e) ==
  IF e.op = "v" THEN ViewOK(e.v, T.k, e.o, objs) /\ UNCHANGED <<objs, its>>
  ELSE IF e.op = "pool" THEN PoolOK(e, objs) /\ UNCHANGED <<objs, its>>
  ELSE IF e.op \in ItOps THEN /\ ItPre(T.k, e, objs, its) /\ ItRet(T.k, e, objs, its)
                              /\ its' = ItEff(T.k, e, objs, its)
                              /\ objs' = ItObjs(T.k, e, objs, its)
  ELSE /\ Pre(T.k, e, objs) /\ RetOK(T.k, e, objs)
       /\ objs' = Eff(T.k, e, objs) /\ its' = ItDrop(T.k, e, objs, its)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs, its>>
Spec == Init /\ [][Next]_<<tid, l, objs, its>>
===============================================================================
