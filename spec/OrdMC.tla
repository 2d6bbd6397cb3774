-------------------------------- MODULE OrdMC --------------------------------
EXTENDS OrdADT, Json
CONSTANTS Slots, K, Vals, Ops, Kind
VARIABLES objs, ev
Init == objs = [o \in Slots |-> Dead] /\ ev = [op |-> "init", o |-> 0, a |-> <<>>]
Next == \E e \in Menu(Kind, objs, Ops, Slots, K, Vals) : ev' = e /\ objs' = Eff(Kind, e, objs)
Spec == Init /\ [][Next]_<<objs, ev>>
\* no two equivalent keys; the order of keys is strict and total on them
Unique == \A o \in Slots : \A x, y \in DOMAIN objs[o].m : x # y => ~Eqv(Kind, x, y)
SortedOK == \A o \in Slots : LET q == Sorted(Kind, objs[o].m) IN
              /\ Len(q) = Cardinality(DOMAIN objs[o].m)
              /\ \A i \in 1..(Len(q) - 1) : Before(Kind, q[i], q[i + 1])
\* C08/C09/C11: an operation touches at most the named key of the named object
Local == [][ev'.op \in {"ins", "insdup", "insown", "rem", "remown", "era", "put", "get", "cget", "find"} =>
            \A p \in Slots : \A x \in K :
               (p # ev'.o \/ ~Eqv(Kind, x, ev'.a[1])) =>
                  /\ (x \in DOMAIN objs[p].m) <=> (x \in DOMAIN objs'[p].m)
                  /\ x \in DOMAIN objs[p].m => objs[p].m[x] = objs'[p].m[x]]_<<objs, ev>>
Absent == [][ev'.op \in {"rem"} /\ ~Has(Kind, objs[ev'.o].m, ev'.a[1]) => objs' = objs]_<<objs, ev>>
LastWrite == [][ev'.op = "put" => objs'[ev'.o].m[Entry(Kind, objs'[ev'.o].m, ev'.a[1])] = ev'.a[2]]_<<objs, ev>>
View == objs
Edges == PrintT(ToJson([e |-> ev', s |-> objs, t |-> objs']))
==============================================================================
