------------------------------ MODULE StableList ------------------------------
(* The linked lists of ListImpl with held node addresses: a handle is the address   *)
(* of a node, dropped by its user when the element is removed.  Following the links  *)
(* from the head, the node is met exactly where StableADT says the element is: the   *)
(* operations relink nodes and never copy one element over another.                  *)
EXTENDS ListImpl
CONSTANT Hn
VARIABLES adr, hs
B == INSTANCE StableADT
SInit == Init /\ adr = [g \in Hn |-> 0] /\ hs = [g \in Hn |-> <<>>]
Took == \E e \in B!HMenu(Abs, hs, {"wr"}, Slots, Values) :
          /\ B!HPre(e, Abs, hs) /\ ev' = e /\ hs' = B!HEff(e, hs)
          /\ adr' = IF e.op = "take" THEN [adr EXCEPT ![e.a[1]] = Chain(h, e.o)[e.a[2] + 1]] ELSE adr
          /\ h' = IF e.op = "wr" THEN [h EXCEPT !.dat[adr[e.a[1]]] = e.a[2]] ELSE h      \* written at the address
Did == /\ Next
       /\ hs' = B!Carry(ev', Abs, hs)
       /\ adr' = [g \in Hn |-> IF hs'[g] = <<>> THEN 0 ELSE adr[g]]
SNext == Took \/ Did
SSpec == SInit /\ [][SNext]_<<h, ev, adr, hs>>
Stable == \A g \in Hn : hs[g] # <<>> =>
            /\ h.live[hs[g][1]] /\ Chain(h, hs[g][1])[hs[g][2]] = adr[g] /\ adr[g] \in Used(h)
\* a write through an address is a write to that element and to no other
WriteLaw == [][ev'.op = "wr" => Abs' = B!HObjs(ev', Abs, hs)]_<<h, ev, adr, hs>>
SView == <<h, adr, hs>>
===============================================================================
