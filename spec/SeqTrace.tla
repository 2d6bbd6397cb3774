------------------------------ MODULE SeqTrace ------------------------------
(* Every recorded run of the real containers must be a behaviour of SeqADT.   *)
EXTENDS SeqADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
VARIABLES tid, l, objs
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ objs = [o \in Slots |-> Dead]
Fixed(m, e, S) == \* a fixed array: construction knows its length
  IF e.op = "newx" THEN [e EXCEPT !.a = <<e.a[1], m>>] ELSE e
Algo(k, e) ==
  LET n == Len(e.a) IN
  CASE e.op = "sort" -> /\ Bag(e.r) = Bag(e.a) /\ Len(e.r) = n
                        /\ \A i \in 1..(n - 1) : ~Before(k, e.r[i + 1], e.r[i])
    [] e.op = "sortr" -> LET v == SubSeq(e.a, 3, n)  b == e.a[1]  c == e.a[2]
                             w == SubSeq(e.r, b + 1, b + c) IN
                         /\ Len(e.r) = Len(v)
                         /\ SubSeq(e.r, 1, b) = SubSeq(v, 1, b)
                         /\ SubSeq(e.r, b + c + 1, Len(v)) = SubSeq(v, b + c + 1, Len(v))
                         /\ Bag(w) = Bag(SubSeq(v, b + 1, b + c))
                         /\ \A i \in 1..(c - 1) : ~Before(k, w[i + 1], w[i])
    [] e.op \in {"build", "ctor"} ->
           /\ e.n = <<n>>
           /\ Bag(e.q) = Bag(e.a) /\ Len(e.q) = n            \* holds exactly the range's elements
           /\ Bag(e.d) = Bag(e.a) /\ Len(e.d) = n            \* draining yields them in order
           /\ \A i \in 1..(n - 1) : ~Before(k, e.d[i + 1], e.d[i])
           /\ e.op = "build" => /\ e.r = e.q                 \* and lays them out in heap order
                                /\ \A i \in 2..n : ~Before(k, e.r[i], e.r[i \div 2])
           /\ e.op = "ctor" => e.r = e.a                     \* the range itself is untouched
    [] OTHER -> FALSE
\* C20: every byte comes from the static pool, none from libc, and all of it is back at the end
PoolOK(e) == /\ e.libc = <<0>>
             /\ e.used[1] >= 0
             /\ (\A o \in Slots : ~objs[o].live) => e.used = <<0>>
             /\ e.used[1] >= e.esz * (Len(objs[1].s) + Len(objs[2].s) + Len(objs[3].s))
AlgoOps == {"sort", "sortr", "build", "ctor"}
Step(T, e0) ==
  IF e0.op = "v" THEN ViewOK(e0.v, T.k, e0.o, objs) /\ UNCHANGED objs
  ELSE IF e0.op = "pool" THEN PoolOK(e0) /\ UNCHANGED objs
  ELSE IF e0.op \in AlgoOps THEN Algo(T.k, e0) /\ UNCHANGED objs
  ELSE LET e == Fixed(T.m, e0, objs) IN
       Pre(e, objs) /\ RetOK(e, T.k, objs) /\ objs' = Eff(e, objs)
Next == \/ /\ l <= Len(Log[tid].e) /\ Step(Log[tid], Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ /\ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, objs>>
Spec == Init /\ [][Next]_<<tid, l, objs>>
=============================================================================
