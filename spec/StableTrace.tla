----------------------------- MODULE StableTrace -----------------------------
(* Recorded runs of lists and deques with held pointers and iterators must be       *)
(* behaviours of StableADT.                                                          *)
EXTENDS StableADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs, hs
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead] /\ hs = NoHandles
Step(T, e) ==
  IF e.op = "v" THEN ViewOK(e.v, T.k, e.o, objs) /\ UNCHANGED <<objs, hs>>
  ELSE IF e.op \in HOps THEN HPre(e, objs, hs) /\ HRet(e, objs, hs) /\ objs' = HObjs(e, objs, hs) /\ hs' = HEff(e, hs)
  ELSE Pre(e, objs) /\ RetOK(e, T.k, objs) /\ objs' = Eff(e, objs) /\ hs' = Carry(e, objs, hs)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs, hs>>
Spec == Init /\ [][Next]_<<tid, l, objs, hs>>
===============================================================================
