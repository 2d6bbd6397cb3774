------------------------------- MODULE HelpersTrace -------------------------------
EXTENDS Helpers, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, regs
Init == tid \in 1..Len(Log) /\ l = 1 /\ regs = <<0, 0, 0>>
Step(e) == IF e.op \in {"fault", "unsupported"} THEN FALSE
           ELSE Can(regs, e) /\ regs' = Eff(regs, e) /\ e.r = Ret(regs, e)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, regs>>
Spec == Init /\ [][Next]_<<tid, l, regs>>
===============================================================================
