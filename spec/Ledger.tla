--------------------------------- MODULE Ledger ---------------------------------
(* Element and memory ledgers (C18, C19): the state is the set of locations that     *)
(* hold a live element and the set of memory blocks held; every recorded             *)
(* micro-event of an operation is a transition of it.                                *)
(* A location is <<region, id, offset>>: 1 = inside held block id, 2 = inside the    *)
(* container object in slot id, 3 = on the stack, 4 = anywhere else.                 *)
(* Micro-events, groups of seven numbers <<code, loc1, loc2>>:                       *)
(* 0 construct, 1 copy-construct from loc2, 2 assign from loc2, 3 destroy, 6 read,   *)
(* 4 obtain block id of offset bytes, 5 return block id stating offset bytes.        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
L0 == [live |-> {}, blk |-> {}, ok |-> TRUE]
\* m = 1: the element discipline of C18; m = 2: the memory discipline of C19; m = 3: how much memory (C28)
Micro(m, out, L, q, i) ==
  LET c == q[i]
      a == <<q[i + 1], q[i + 2], q[i + 3]>>
      b == <<q[i + 4], q[i + 5], q[i + 6]>>
      El(p) == m # 1 \/ p
      Me(p) == m # 2 \/ p
      \* an element only ever lives in a held block, in the container object or in a temporary
      Placed(x) == x[1] \in {1, 2, 3} \/ out
  IN IF ~L.ok THEN L
     ELSE CASE c = 0 -> [L EXCEPT !.live = @ \cup {a}, !.ok = El(a \notin L.live) /\ Me(Placed(a))]
            [] c = 1 -> [L EXCEPT !.live = @ \cup {a}, !.ok = El(a \notin L.live /\ b \in L.live) /\ Me(Placed(a))]
            [] c = 2 -> [L EXCEPT !.ok = El(a \in L.live /\ b \in L.live) /\ Me(Placed(a))]
            [] c = 3 -> [L EXCEPT !.live = @ \ {a}, !.ok = El(a \in L.live) /\ Me(Placed(a))]
            [] c = 6 -> [L EXCEPT !.ok = El(a \in L.live) /\ Me(Placed(a))]
            [] c = 4 -> [L EXCEPT !.blk = @ \cup {<<a[2], a[3]>>}, !.ok = Me(a[3] > 0)]
            [] c = 5 -> [L EXCEPT !.blk = @ \ {<<a[2], a[3]>>},
                                  !.ok = Me(/\ <<a[2], a[3]>> \in L.blk                     \* held, once, same count
                                            /\ \A x \in L.live : ~(x[1] = 1 /\ x[2] = a[2]))] \* nothing alive in it
            [] OTHER -> [L EXCEPT !.ok = FALSE]
Run(m, out, L, q) == FoldLeft(LAMBDA acc, j : Micro(m, out, acc, q, 7 * j - 6), L, [j \in 1..(Len(q) \div 7) |-> j])
Bytes(L) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, SetToSeq(L.blk))
\* after an operation; n = elements the specification says are held, base = [b, per, x, esz] of the
\* container kind, objs = number of live container objects
Settled(m, L, base, n, objs, libc) ==
  LET held == Cardinality({x \in L.live : x[1] # 3}) IN
  /\ m = 1 => /\ held >= base.per * n
              /\ held <= (base.per + base.x) * n + base.b * objs
              /\ \A x \in L.live : x[1] # 3                         \* no temporary outlives the call
  /\ m = 3 => libc = 0 /\ \A x \in L.blk : x[2] > 0
  /\ m = 2 => /\ libc = 0                                           \* no memory from anywhere else
              /\ (objs = 0 => L.blk = {})
              /\ base.fix = 0 => Bytes(L) >= base.esz * n
\* C28.  Contiguous and block containers (c = cells of a block): a multiple of n elements and a few
\* blocks for each of objs objects; node containers (c = -1): a node for each element
Bound(base, c, n, objs) ==
  IF c = -1 THEN n * (base.esz + 40)
  ELSE 8 * (n + objs * (IF c < 2 THEN 2 ELSE c)) * (base.esz + 8) + 128 * objs
===============================================================================
