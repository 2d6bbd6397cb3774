-------------------------------- MODULE IterTrace --------------------------------
(* Every recorded run of real iterators must be a behaviour of IterADT.               *)
EXTENDS IterADT, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, live, s, h
K == Log[tid].k
Init == tid \in 1..Len(Log) /\ l = 1 /\ live = FALSE /\ s = <<>> /\ h = NoIts
OrderOK(r) == IF K = "bag" THEN Perm(r, s) ELSE r = s
Step(e) ==
  IF e.op = "all" THEN /\ live /\ OrderOK(e.r) /\ e.r2 = e.r /\ e.r3 = e.r /\ e.d[1] = Len(e.r)
                       /\ e.n \in {<<>>, <<Len(e.r)>>}
                       /\ s' = e.r /\ UNCHANGED <<live, h>>
  ELSE IF e.op \in Builds
  THEN /\ CanChange(K, live, s, e) /\ s' = Change(K, s, e) /\ h' = NoIts /\ live' = (e.op # "del")
  ELSE IF e.op \in {"fault", "unsupported"} THEN FALSE
  ELSE /\ live /\ CanMove(s, h, e) /\ s' = Write(s, h, e) /\ h' = Move(s, h, e) /\ UNCHANGED live
       /\ e.r = Result(s, h, h', e)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, live, s, h>>
Spec == Init /\ [][Next]_<<tid, l, live, s, h>>
===============================================================================
