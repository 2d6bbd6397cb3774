-------------------------------- MODULE PoolTrace --------------------------------
(* Every recorded run of the real StaticMemAllocator must be a behaviour of the       *)
(* abstract pool.  MODE 1: C13, 2: C14, 3: C15, 4: the static port (C20).             *)
EXTENDS PoolADT, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
M == CASE IOEnv.MODE = "1" -> 1 [] IOEnv.MODE = "2" -> 2 [] IOEnv.MODE = "3" -> 3 [] OTHER -> 4
AL == 8
VARIABLES tid, l, P, H, coal, st
\* coal: no release since the last merge (or since the beginning); st: last reported state
Init == /\ tid \in 1..Len(Log) /\ l = 1 /\ P = 0 /\ H = NoBlocks /\ coal = TRUE /\ st = [free |-> 0, max |-> 0, chg |-> TRUE]
Flat(g) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, g)
Has(e, f) == f \in DOMAIN e
Only(m, p) == M # m \/ p
Quiet(e) == Has(e, "d0") => e.d0 = e.d1            \* the set of free bytes is the same before and after
AllocOK(e) ==
  LET b == e.a[1]  off == e.r[1]  len == IF b > P THEN P + AL ELSE Round(AL, b) IN
  IF off = -1
  THEN /\ Only(1, Quiet(e))
       /\ Only(2, b <= 0 \/ len > st.max)                                 \* whatever was on offer is served
       /\ Only(3, coal => (b <= 0 \/ len > Longest(P, H)))
       /\ Only(4, FALSE)
  ELSE /\ b > 0 /\ b <= P
       /\ (M \in {1, 4}) => CanPlace(P, AL, H, off, len) /\ e.r[2] = 0       \* inside, aligned, disjoint
       /\ Only(2, len <= st.max)                                           \* nothing larger than the largest
       /\ Only(3, coal => len <= Longest(P, H))
Step(e) ==
  CASE e.op = "cfg"   -> /\ P' = e.p /\ e.r = <<0>> /\ UNCHANGED <<H, coal>>
                         /\ st' = [free |-> e.p, max |-> e.p, chg |-> TRUE]
    [] e.op = "alloc" -> /\ AllocOK(e) /\ UNCHANGED <<P, coal>>
                         /\ H' = IF e.r[1] = -1 THEN H ELSE Hold(H, e.o, e.r[1], Round(AL, e.a[1]))
                         /\ st' = [st EXCEPT !.chg = e.r[1] # -1]
    [] e.op = "free"  -> /\ e.o \in DOMAIN H /\ e.r = <<1>> /\ H' = Drop(H, e.o)
                         /\ coal' = FALSE /\ UNCHANGED P /\ st' = [st EXCEPT !.chg = TRUE]
    [] e.op = "bad"   -> /\ Only(2, e.r = <<0>> /\ Quiet(e)) /\ UNCHANGED <<P, H, coal>>
                         /\ st' = [st EXCEPT !.chg = FALSE]
    [] e.op = "merge" -> /\ Only(3, Quiet(e) /\ (Has(e, "da") => e.da = e.d1 /\ e.ma = e.mb)) /\ coal' = TRUE
                         /\ UNCHANGED <<P, H>> /\ st' = [st EXCEPT !.chg = TRUE]
    [] e.op = "st"    -> /\ Only(1, e.bad = <<>> /\ (~st.chg => e.free = st.free /\ e.max = st.max))
                         /\ Only(2, e.free = FreeSize(P, H) /\ (~st.chg => e.max = st.max))
                         /\ Only(3, /\ coal => e.max = Longest(P, H)
                                    /\ e.after = 1 => e.free = st.free /\ e.bad = <<>>)
                         /\ Only(4, e.bad = <<>>)
                         /\ st' = [free |-> e.free, max |-> e.max, chg |-> FALSE] /\ UNCHANGED <<P, H, coal>>
    \* trial allocations made in a forked copy of the process
    [] e.op = "drain" -> Only(2, e.d = Flat(Gaps(P, H))) /\ UNCHANGED <<P, H, coal, st>>
    [] e.op = "probe" -> /\ Only(2, /\ e.m = st.max
                                    /\ e.m > 0 => e.r[1] >= 0 /\ CanPlace(P, AL, H, e.r[1], e.m)
                                    /\ e.r[2] = -1)
                         /\ UNCHANGED <<P, H, coal, st>>
    [] e.op = "fit"   -> /\ Only(3, (coal /\ Round(AL, e.a[1]) <= Longest(P, H)) =>
                                      e.r[1] >= 0 /\ CanPlace(P, AL, H, e.r[1], Round(AL, e.a[1])))
                         /\ UNCHANGED <<P, H, coal, st>>
    [] OTHER -> FALSE
Next == \/ l <= Len(Log[tid].e) /\ Step(Log[tid].e[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(Log[tid].e) /\ UNCHANGED <<tid, l, P, H, coal, st>>
Spec == Init /\ [][Next]_<<tid, l, P, H, coal, st>>
===============================================================================
