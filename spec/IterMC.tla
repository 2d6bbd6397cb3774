--------------------------------- MODULE IterMC ---------------------------------
(* Bounded model of iterators: every container content up to MaxLen, every pair of *)
(* positions, every step; the laws of C22 and the script source for conformance.   *)
EXTENDS IterADT, Json, TLC
CONSTANTS K, Values, MaxLen, Ops, HU
VARIABLES live, s, h, ev
vars == <<live, s, h, ev>>
Init == live = FALSE /\ s = <<>> /\ h = NoIts /\ ev = [op |-> "init", a |-> <<>>]
Ev(op, a) == [op |-> op, o |-> 0, a |-> a]
Menu == {e \in
     {Ev(op, <<>>) : op \in Ops \cap {"new", "popb", "popf", "poph"}}
     \cup {Ev(op, <<v>>) : op \in Ops \cap {"pb", "pf", "ins", "rem"}, v \in Values}
     \cup {Ev(op, <<x>>) : op \in Ops \cap {"b", "e", "inc", "pinc", "dec", "pdec", "get"}, x \in HU}
     \cup {Ev(op, <<x, v>>) : op \in Ops \cap {"wr"}, x \in HU, v \in Values}
     \cup {Ev(op, <<x, y>>) : op \in Ops \cap {"cp", "as", "mv", "mas", "eq", "dist", "each"}, x \in HU, y \in HU}
     \cup {Ev(op, <<x, y, d>>) : op \in Ops \cap {"add", "sub"}, x \in HU, y \in HU, d \in -MaxLen..MaxLen}
     \cup {Ev(op, <<x, y, v>>) : op \in Ops \cap {"fnd"}, x \in HU, y \in HU, v \in Values}
   : e.op \in Ops}
Step(e) == IF e.op \in Builds
           THEN /\ CanChange(K, live, s, e) /\ s' = Change(K, s, e) /\ h' = NoIts /\ live' = (e.op # "del")
           ELSE /\ live /\ CanMove(s, h, e) /\ s' = Write(s, h, e) /\ h' = Move(s, h, e) /\ UNCHANGED live
Next == \E e \in Menu : ev' = e /\ Step(e) /\ Len(s') <= MaxLen
Spec == Init /\ [][Next]_vars
InRange == \A x \in Hs : h[x] = None \/ (0 <= h[x] /\ h[x] <= Len(s))
Sorted == K = "set" => \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
\* stepping and offsets are inverse, distances agree with them, find is the first match
Laws == \A x, y \in HU : (h[x] # None /\ h[y] # None) =>
   LET d == h[y] - h[x] IN
     /\ CanMove(s, h, Ev("add", <<x, x, d>>)) /\ Move(s, h, Ev("add", <<x, x, d>>))[x] = h[y]
     /\ Move(s, h, Ev("sub", <<y, y, d>>))[y] = h[x]
     /\ Result(s, h, h, Ev("dist", <<x, y>>))[1] = d
     /\ d >= 0 => /\ Len(Range(s, h[x], h[y])) = d
                  /\ \A v \in Values : LET p == FirstAt(s, v, h[x], h[y]) IN
                       /\ h[x] <= p /\ p <= h[y]
                       /\ p < h[y] => s[p + 1] = v
                       /\ \A q \in h[x]..(p - 1) : s[q + 1] # v
View == <<live, s, h>>
Edges == PrintT(ToJson([e |-> ev', s |-> <<live, s, h>>, t |-> <<live', s', h'>>]))
===============================================================================
