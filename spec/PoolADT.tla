-------------------------------- MODULE PoolADT --------------------------------
(* What a user may rely on of the static allocator: a pool of P bytes, and the     *)
(* blocks currently held, H : handle -> <<offset, length>> (lengths are rounded up *)
(* to the alignment unit al).  Everything not held is free.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Round(al, b) == ((b + al - 1) \div al) * al
NoBlocks == [h \in {} |-> <<0, 0>>]
Hold(H, h, off, len) == [g \in DOMAIN H \cup {h} |-> IF g = h THEN <<off, len>> ELSE H[g]]
Drop(H, h) == [g \in DOMAIN H \ {h} |-> H[g]]
Blocks(H) == SortSeq(SetToSeq({H[h] : h \in DOMAIN H}), LAMBDA x, y : x[1] < y[1])
Used(H) == FoldLeft(LAMBDA acc, b : acc + b[2], 0, Blocks(H))
FreeSize(P, H) == P - Used(H)
\* maximal runs of free bytes in address order
Gaps(P, H) ==
  LET b == Blocks(H)  n == Len(b)
      st(i) == IF i = 0 THEN 0 ELSE b[i][1] + b[i][2]
      en(i) == IF i = n THEN P ELSE b[i + 1][1]
  IN SelectSeq([i \in 1..(n + 1) |-> <<st(i - 1), en(i - 1) - st(i - 1)>>], LAMBDA g : g[2] > 0)
Longest(P, H) == FoldLeft(LAMBDA acc, g : IF g[2] > acc THEN g[2] ELSE acc, 0, Gaps(P, H))
\* C13: a served block is aligned, inside the pool and overlaps no held block
CanPlace(P, al, H, off, len) ==
  /\ off >= 0 /\ off % al = 0 /\ off + len <= P
  /\ \A h \in DOMAIN H : off + len <= H[h][1] \/ H[h][1] + H[h][2] <= off
===============================================================================
