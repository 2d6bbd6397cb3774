-------------------------------- MODULE SMAImpl --------------------------------
(* memory/StaticMemAllocator.hpp, in alignment units: Q address-ordered quick lists *)
(* (class i holds blocks of i units), one address-ordered pool list of larger       *)
(* blocks, fall-through and first-fit allocation, remainder re-insertion, and the   *)
(* two merge passes, transcribed loop by loop.                                      *)
EXTENDS PoolADT, Json
CONSTANTS P, Q, Handles, Sizes
VARIABLES fl, held, ev
\* fl[i], i in 1..Q: sequence of addresses; fl[Q+1]: sequence of <<address, size>>
PL == Q + 1
\* a uniform view: every list is a sequence of <<address, size>>
Cls(size) == IF size > Q THEN PL ELSE size
RECURSIVE InsPos(_, _, _)
InsPos(s, a, i) == IF i > Len(s) \/ ~(a > s[i][1]) THEN i ELSE InsPos(s, a, i + 1)
Insert(F, a, size) ==
  IF size <= 0 THEN F
  ELSE LET c == Cls(size)  p == InsPos(F[c], a, 1) IN
       [F EXCEPT ![c] = SubSeq(@, 1, p - 1) \o <<<<a, size>>>> \o SubSeq(@, p, Len(@))]
Del(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
RECURSIVE QFind(_, _)
QFind(F, i) == IF i > Q THEN 0 ELSE IF F[i] # <<>> THEN i ELSE QFind(F, i + 1)
RECURSIVE PFind(_, _, _)
PFind(s, b, i) == IF i > Len(s) THEN 0 ELSE IF s[i][2] >= b THEN i ELSE PFind(s, b, i + 1)
\* result: [F, off] ; off = -1: refused
Take(F, c, p, b) == LET blk == F[c][p] IN
  [F |-> Insert([F EXCEPT ![c] = Del(@, p)], blk[1] + b, blk[2] - b), off |-> blk[1]]
Allocate(F, b) ==
  IF b < 1 \/ b > P THEN [F |-> F, off |-> -1]
  ELSE LET qi == IF b > Q THEN 0 ELSE QFind(F, b) IN
       IF qi # 0 THEN Take(F, qi, 1, b)
       ELSE LET pi == PFind(F[PL], b, 1) IN
            IF pi # 0 THEN Take(F, PL, pi, b) ELSE [F |-> F, off |-> -1]
Deallocate(F, a, b) == Insert(F, a, b)
MaxFree(F) == IF F[PL] # <<>> THEN LET s == F[PL] IN s[CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i][2] >= s[j][2]][2]
              ELSE LET C == {i \in 1..Q : F[i] # <<>>} IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : i >= j
\* ---- quick_mem_memory_merge_d: lists i = 1..Q, position p in list i
RECURSIVE Seek(_, _, _, _, _)   \* scan list j from k for a neighbour of first; returns k or 0
Seek(F, first, i, j, k) ==
  IF k > Len(F[j]) THEN 0
  ELSE LET s == F[j][k] IN
       IF first - s[2] = s[1] \/ first + i = s[1] THEN k
       ELSE IF first + i < s[1] THEN 0 ELSE Seek(F, first, i, j, k + 1)
RECURSIVE SeekAll(_, _, _, _)
SeekAll(F, first, i, j) == IF j > PL THEN <<0, 0>>
                           ELSE LET k == Seek(F, first, i, j, 1) IN IF k # 0 THEN <<j, k>> ELSE SeekAll(F, first, i, j + 1)
RECURSIVE QMerge(_, _, _)
QMerge(F, i, p) ==
  IF i > Q THEN F
  ELSE IF p > Len(F[i]) THEN QMerge(F, i + 1, 1)
  ELSE LET first == F[i][p][1] IN
       IF p < Len(F[i]) /\ first + i = F[i][p + 1][1]
       THEN QMerge(Insert([F EXCEPT ![i] = Del(Del(@, p), p)], first, 2 * i), i, p)
       ELSE LET n == SeekAll(F, first, i, i + 1) IN
            IF n[1] = 0 THEN QMerge(F, i, p + 1)
            ELSE LET s == F[n[1]][n[2]]
                     G == [F EXCEPT ![i] = Del(@, p), ![n[1]] = Del(@, n[2])]
                 IN QMerge(Insert(G, IF first < s[1] THEN first ELSE s[1], i + s[2]), i, p)
RECURSIVE PMerge(_, _)
PMerge(s, p) == IF p >= Len(s) THEN s
                ELSE IF s[p][1] + s[p][2] = s[p + 1][1]
                     THEN PMerge([Del(s, p + 1) EXCEPT ![p] = <<s[p][1], s[p][2] + s[p + 1][2]>>], p)
                     ELSE PMerge(s, p + 1)
Merge(F) == LET G == QMerge(F, 1, 1) IN [G EXCEPT ![PL] = PMerge(@, 1)]

Init == /\ fl = [i \in 1..PL |-> IF i = PL THEN <<<<0, P>>>> ELSE <<>>]
        /\ held = NoBlocks /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
\* handles are interchangeable: always the least unused one
NextH == CHOOSE h \in Handles : h \notin DOMAIN held /\ \A g \in Handles : g \notin DOMAIN held => h <= g
DoAlloc == /\ Handles \ DOMAIN held # {}
           /\ \E b \in Sizes : LET h == NextH  r == Allocate(fl, b) IN
              /\ ev' = [op |-> "alloc", o |-> h, a |-> <<b>>]
              /\ fl' = r.F /\ held' = IF r.off < 0 THEN held ELSE Hold(held, h, r.off, b)
DoFree == \E h \in DOMAIN held : /\ ev' = [op |-> "free", o |-> h, a |-> <<>>]
                                 /\ fl' = Deallocate(fl, held[h][1], held[h][2]) /\ held' = Drop(held, h)
DoMerge == ev' = [op |-> "merge", o |-> 0, a |-> <<>>] /\ fl' = Merge(fl) /\ UNCHANGED held
Next == DoAlloc \/ DoFree \/ DoMerge
Spec == Init /\ [][Next]_<<fl, held, ev>>

AllFree == UNION {{fl[i][k] : k \in 1..Len(fl[i])} : i \in 1..PL}
NFree == FoldLeft(LAMBDA acc, i : acc + Len(fl[i]), 0, [i \in 1..PL |-> i])
Cover(B) == UNION {b[1]..(b[1] + b[2] - 1) : b \in B}
HeldB == {held[h] : h \in DOMAIN held}
\* C13/C14: held and listed blocks tile the pool exactly, each byte once; lists are in address order
Tiling == /\ Cover(AllFree \cup HeldB) = 0..(P - 1)
          /\ Cardinality(AllFree) = NFree
          /\ LET B == AllFree \cup HeldB IN \A b, c \in B : b # c => b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]
          /\ Cardinality(AllFree \cap HeldB) = 0
          /\ \A i \in 1..PL : \A k \in 1..(Len(fl[i]) - 1) : fl[i][k][1] < fl[i][k + 1][1]
\* C14: the reported largest free block can be allocated, nothing larger can
MaxOK == LET m == MaxFree(fl) IN /\ m > 0 => Allocate(fl, m).off >= 0
                                 /\ Allocate(fl, m + 1).off = -1
\* C15: after a merge no two adjacent free blocks; merging again changes nothing; the report is the longest run
MergeOK == LET G == Merge(fl)
               A == UNION {{G[i][k] : k \in 1..Len(G[i])} : i \in 1..PL}
           IN /\ \A b, c \in A : b[1] + b[2] # c[1]
              /\ Cover(A) = Cover(AllFree)
              /\ Merge(G) = G
              /\ MaxFree(G) = Longest(P, held)
A == INSTANCE PoolMC
Refines == A!Spec
View == <<fl, held>>
Edges == PrintT(ToJson([e |-> ev', s |-> [f |-> fl, h |-> held], t |-> [f |-> fl', h |-> held']]))
===============================================================================
