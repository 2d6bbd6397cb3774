--------------------------------- MODULE RotTrace ---------------------------------
(* Recorded runs of the real tree links against RotADT.                               *)
EXTENDS RotADT, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, t
Init == tid \in 1..Len(Log) /\ l = 1 /\ t = Nil
Seen(u, v) ==
  /\ v.root = Root(u)
  /\ \A x \in Nodes(u) : LET s == Sub(u, x) IN
        v.L[x] = Root(s[2]) /\ v.R[x] = Root(s[3]) /\ v.P[x] = ParentIn(u, x, 0) /\ v.hs[x] = Height(s)
  /\ v.h = Height(u)
  /\ v.in = In(u) /\ v.pre = Pre(u) /\ v.post = Post(u)          \* recursive traversals
  /\ v.nin = In(u) /\ v.npre = Pre(u) /\ v.npost = Post(u)       \* link-by-link traversals
  /\ \A i \in 1..Len(v.d) : v.d[i] = 10 * i
  /\ v.conv = [i \in 1..Len(v.conv) |-> i] /\ v.dconv = v.conv
Step(e) == IF e.op \in {"fault", "unsupported"} THEN FALSE
           ELSE Can(t, e) /\ t' = Eff(t, e) /\ e.r = Ret(t, e) /\ Seen(t', e.v)
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, t>>
Spec == Init /\ [][Next]_<<tid, l, t>>
===============================================================================
