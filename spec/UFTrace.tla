--------------------------------- MODULE UFTrace ---------------------------------
(* Every recorded run of the real DisjointSet must be a behaviour of UFADT.          *)
EXTENDS UFADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs
Init == tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead]
Step(e) == IF e.op = "v" THEN ViewOK(e.v, objs, e.o) /\ UNCHANGED objs
           ELSE IF e.op = "pool" THEN PoolOK(e, objs) /\ UNCHANGED objs
           ELSE Pre(e, objs) /\ RetOK(e, objs) /\ objs' = Eff(e, objs)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs>>
Spec == Init /\ [][Next]_<<tid, l, objs>>
===============================================================================
