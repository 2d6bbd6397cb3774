--------------------------------- MODULE PoolMC ---------------------------------
(* The abstract allocator: any placement that respects CanPlace, refusal only when   *)
(* some bound on what is on offer says so.                                          *)
EXTENDS PoolADT
CONSTANTS P, Handles, Sizes
VARIABLES held, ev
Init == held = NoBlocks /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Alloc(h, b, off) == /\ h \notin DOMAIN held /\ b >= 1 /\ CanPlace(P, 1, held, off, b)
                    /\ held' = Hold(held, h, off, b)
Refuse(h, b) == h \notin DOMAIN held /\ held' = held
Free(h) == h \in DOMAIN held /\ held' = Drop(held, h)
Next == \/ \E h \in Handles, b \in Sizes : /\ ev' = [op |-> "alloc", o |-> h, a |-> <<b>>]
                                           /\ (Refuse(h, b) \/ \E off \in 0..(P - 1) : Alloc(h, b, off))
        \/ \E h \in Handles : ev' = [op |-> "free", o |-> h, a |-> <<>>] /\ Free(h)
        \/ ev' = [op |-> "merge", o |-> 0, a |-> <<>>] /\ held' = held
Spec == Init /\ [][Next]_<<held, ev>>
Disjoint == \A h, g \in DOMAIN held : h # g => held[h][1] + held[h][2] <= held[g][1] \/ held[g][1] + held[g][2] <= held[h][1]
Conserved == FreeSize(P, held) = FoldLeft(LAMBDA acc, g : acc + g[2], 0, Gaps(P, held))
===============================================================================
