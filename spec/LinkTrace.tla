-------------------------------- MODULE LinkTrace --------------------------------
(* Recorded runs of the real intrusive links against LinkADT.  A node that is not in *)
(* any list may hold anything in its links.                                          *)
EXTENDS LinkADT, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, lists
Init == tid \in 1..Len(Log) /\ l = 1 /\ lists = {}
Seen(ls, v) ==
  /\ \A x \in Members(ls) : v.nx[x] = NextOf(ls, x)
  /\ v.pv # <<>> => \A x \in Members(ls) : v.pv[x] = PrevOf(ls, x)
  /\ \A i \in 1..Len(v.d) : v.d[i] = 10 * i          \* the payload is left alone
  /\ v.conv = [i \in 1..Len(v.conv) |-> i]           \* node -> link -> node
Step(e) == IF e.op \in {"fault", "unsupported"} THEN FALSE
           ELSE Can(lists, e) /\ lists' = Eff(lists, e) /\ e.r = Ret(lists, e) /\ Seen(lists', e.v)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, lists>>
Spec == Init /\ [][Next]_<<tid, l, lists>>
===============================================================================
