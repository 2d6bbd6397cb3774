------------------------------ MODULE StableADT ------------------------------
(* C27: handles (pointers, and for lists iterators) a user keeps on elements of   *)
(* a linked list or a deque.  hs[g] = <<>> or <<o, i>>: where the designated       *)
(* element is now.  A handle follows its element through every operation that      *)
(* does not remove the element; moving a container hands its elements over.        *)
(*   take <<g, i>>  designate element i     rd <<g>>     read it                    *)
(*   wr <<g, x>>    write it                nx, pv <<g>> the element after / before *)
EXTENDS SeqADT
NoHandles == [g \in 1..3 |-> <<>>]
HOps == {"take", "rd", "wr", "nx", "pv"}
\* the place of the element that was at position i of object p, after operation e
Where(e, S, p, i) ==
  LET o == e.o  a == e.a  n == Len(S[p].s)
      \* still inside the n elements there would be if nothing had been added
      To(j) == IF j \in 1..n THEN <<p, j>> ELSE <<>> IN
  IF e.op \in {"mc", "ma"} /\ a[1] # o
  THEN IF p = a[1] THEN <<o, i>> ELSE IF p = o THEN <<>> ELSE <<p, i>>
  ELSE IF p # o THEN <<p, i>>
  ELSE CASE e.op \in {"del", "clr"}        -> <<>>
         [] e.op = "ca"                    -> IF a[1] = o THEN <<p, i>> ELSE <<>>
         [] e.op \in {"pf", "gpf", "pfi"}  -> <<p, i + 1>>
         [] e.op = "bpf"                   -> <<p, i + a[1]>>
         [] e.op \in {"popf", "gof"}       -> To(i - 1)
         [] e.op \in {"popb", "gob"}       -> IF i = n THEN <<>> ELSE <<p, i>>
         [] e.op \in {"bpopf", "slide"}    -> To(i - a[1])
         [] e.op = "bpopb"                 -> IF i > n - a[1] THEN <<>> ELSE <<p, i>>
         [] e.op = "slideb"                -> To(i + a[1])
         [] OTHER                          -> <<p, i>>
Carry(e, S, hs) == [g \in DOMAIN hs |-> IF hs[g] = <<>> THEN <<>> ELSE Where(e, S, hs[g][1], hs[g][2])]

HPre(e, S, hs) == CASE e.op = "take" -> S[e.o].live /\ e.a[2] >= 0 /\ InR(S[e.o].s, e.a[2])
                    [] OTHER -> hs[e.a[1]] # <<>> /\ hs[e.a[1]][1] = e.o
HObjs(e, S, hs) == IF e.op = "wr" THEN [S EXCEPT ![e.o].s[hs[e.a[1]][2]] = e.a[2]] ELSE S
HEff(e, hs) == IF e.op = "take" THEN [hs EXCEPT ![e.a[1]] = <<e.o, e.a[2] + 1>>] ELSE hs
Elem(s, j) == IF j \in 1..Len(s) THEN <<s[j]>> ELSE <<>>
HRet(e, S, hs) ==
  LET s == S[e.o].s  j == hs[e.a[1]][2] IN
  CASE e.op = "rd" -> Len(e.r) >= 1 /\ \A i \in 1..Len(e.r) : e.r[i] = s[j]
    [] e.op = "nx" -> e.r = Elem(s, j + 1)
    [] e.op = "pv" -> e.r = Elem(s, j - 1)
    [] OTHER -> TRUE
HMenu(S, hs, Ops, Slots, Values) ==
  {[op |-> "take", o |-> o, a |-> <<g, i>>] : o \in Slots, g \in DOMAIN hs, i \in 0..7} \cup
  {[op |-> op, o |-> o, a |-> <<g>>] : op \in {"rd", "nx", "pv"} \cap Ops, o \in Slots, g \in DOMAIN hs} \cup
  {[op |-> op, o |-> o, a |-> <<g, x>>] : op \in {"wr"} \cap Ops, o \in Slots, g \in DOMAIN hs, x \in Values}
===============================================================================
