-------------------------------- MODULE SeqMC --------------------------------
(* Bounded model of the user-visible sequence specification: its own laws,     *)
(* and the event graph from which multi-object conformance scripts are drawn.  *)
EXTENDS SeqADT, Json
CONSTANTS Slots, Values, MaxLen, Ops, Kind
VARIABLES objs, ev

Init == objs = [o \in Slots |-> Dead] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(objs, Ops, Slots, Values, MaxLen) : ev' = e /\ objs' = Eff(e, objs)
Spec == Init /\ [][Next]_<<objs, ev>>

TypeOK == \A o \in Slots : objs[o].live \in BOOLEAN /\ Len(objs[o].s) <= MaxLen
                           /\ (~objs[o].live => objs[o].s = <<>>)
\* C16: whatever is done to one object is invisible through every other one (a move's source aside)
Independent == [][\A p \in Slots : (p # ev'.o /\ ~(ev'.op \in {"mc", "ma"} /\ p = ev'.a[1]))
                                      => objs'[p] = objs[p]]_<<objs, ev>>
\* C16/C17: a copy equals its source and leaves it alone; a move takes the contents and empties the source
CopyLaw == [][ev'.op \in {"cc", "ca"} => objs'[ev'.o] = objs[ev'.a[1]]
                                         /\ (ev'.a[1] # ev'.o => objs'[ev'.a[1]] = objs[ev'.a[1]])]_<<objs, ev>>
MoveLaw == [][ev'.op \in {"mc", "ma"} => objs'[ev'.o].s = objs[ev'.a[1]].s
                                         /\ (ev'.a[1] # ev'.o => objs'[ev'.a[1]] = Live(<<>>))]_<<objs, ev>>
\* C01: shrinking keeps the prefix, clearing and growing keep what they promise
PrefixLaw == [][ev'.op \in {"rs", "rsf", "rsi", "popb"} =>
                  LET s == objs[ev'.o].s  t == objs'[ev'.o].s IN
                  \A i \in 1..Min2(Len(s), Len(t)) : t[i] = s[i]]_<<objs, ev>>
Edges == PrintT(ToJson([e |-> ev', s |-> objs, t |-> objs']))
View == objs
==============================================================================
