-------------------------------- MODULE IterADT --------------------------------
(* User-visible meaning of iterators and range algorithms.  A container is a     *)
(* sequence of elements in its iteration order; an iterator is a position 0..n,  *)
(* n standing for end().  Kind of container:                                     *)
(*   "seq"  iterates in the order of its operations, "set" in ascending order,   *)
(*   "bag"  in an order of its own choosing that is fixed until it changes       *)
(*          ("min" bags pop their least element).                                *)
EXTENDS Integers, Sequences, FiniteSets
Hs == 1..3                        \* iterator variables of the user
None == -1
NoIts == [h \in Hs |-> None]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Add(s, d) == [i \in 1..Len(s) |-> s[i] + d]
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Insert(_, _), Count(_, _, _), FirstAt(_, _, _, _)
Insert(s, v) == IF s = <<>> \/ v < Head(s) THEN <<v>> \o s ELSE IF v = Head(s) THEN s ELSE <<Head(s)>> \o Insert(Tail(s), v)
Remove(s, v) == SelectSeq(s, LAMBDA x : x # v)
Count(s, v, n) == Cardinality({i \in 1..n : s[i] = v})
Perm(s, t) == /\ Len(s) = Len(t)
              /\ \A v \in {s[i] : i \in 1..Len(s)} : Count(s, v, Len(s)) = Count(t, v, Len(t))
RemoveOne(s, v) == LET i == CHOOSE i \in 1..Len(s) : s[i] = v IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Least(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A j \in 1..Len(s) : x <= s[j]
\* first position in [p, q) holding v, else q
FirstAt(s, v, p, q) == IF p = q \/ s[p + 1] = v THEN p ELSE FirstAt(s, v, p + 1, q)
Range(s, p, q) == SubSeq(s, p + 1, q)

Builds == {"new", "del", "pb", "pf", "popb", "popf", "poph", "ins", "rem", "clr", "rs", "fill"}
\* contents after a change of the container; every change ends the life of all iterators
Change(k, s, e) ==
  LET a == e.a IN
  CASE e.op \in {"new", "del", "clr"} -> <<>>
    [] e.op = "pb"   -> Append(s, a[1])
    [] e.op = "pf"   -> <<a[1]>> \o s
    [] e.op = "popb" -> Front(s)
    [] e.op = "popf" -> Tail(s)
    [] e.op = "poph" -> RemoveOne(s, Least(s))
    [] e.op = "ins"  -> Insert(s, a[1])
    [] e.op = "rem"  -> Remove(s, a[1])
    [] e.op = "rs"   -> SubSeq(s, 1, Min2(a[1], Len(s)))
    [] e.op = "fill" -> a
CanChange(k, live, s, e) ==
  CASE e.op = "new" -> ~live
    [] e.op = "ins" -> live /\ \A i \in 1..Len(s) : s[i] # e.a[1]
    [] e.op \in {"popb", "popf", "poph"} -> live /\ s # <<>>
    [] OTHER -> live

\* position(s) after a step of one iterator
Set1(h, x, p) == [h EXCEPT ![x] = p]
Move(s, h, e) ==
  LET a == e.a  x == a[1] IN
  CASE e.op = "b" -> Set1(h, x, 0)
    [] e.op = "e" -> Set1(h, x, Len(s))
    [] e.op \in {"inc", "pinc"} -> Set1(h, x, h[x] + 1)
    [] e.op \in {"dec", "pdec"} -> Set1(h, x, h[x] - 1)
    [] e.op = "add" -> Set1(h, x, h[a[2]] + a[3])
    [] e.op = "sub" -> Set1(h, x, h[a[2]] - a[3])
    [] e.op \in {"cp", "as"} -> Set1(h, x, h[a[2]])
    [] e.op \in {"mv", "mas"} -> IF x = a[2] THEN h ELSE [h EXCEPT ![x] = h[a[2]], ![a[2]] = None]
    [] OTHER -> h
CanMove(s, h, e) ==
  LET a == e.a  x == a[1]  n == Len(s) IN
  CASE e.op \in {"b", "e"} -> TRUE
    [] e.op \in {"inc", "pinc", "get", "wr"} -> h[x] # None /\ h[x] < n
    [] e.op \in {"dec", "pdec"} -> h[x] # None /\ h[x] > 0
    [] e.op = "add" -> h[a[2]] # None /\ 0 <= h[a[2]] + a[3] /\ h[a[2]] + a[3] <= n
    [] e.op = "sub" -> h[a[2]] # None /\ 0 <= h[a[2]] - a[3] /\ h[a[2]] - a[3] <= n
    [] e.op = "cp" -> h[a[2]] # None
    [] e.op = "mv" -> x # a[2] /\ h[a[2]] # None
    [] e.op \in {"as"} -> h[x] # None /\ h[a[2]] # None
    [] e.op = "mas" -> x # a[2] /\ h[x] # None /\ h[a[2]] # None
    [] e.op \in {"eq", "dist"} -> h[x] # None /\ h[a[2]] # None
    [] e.op \in {"each", "eachw", "fnd"} -> h[x] # None /\ h[a[2]] # None /\ h[x] <= h[a[2]]
Write(s, h, e) ==
  LET a == e.a IN
  CASE e.op = "wr" -> [s EXCEPT ![h[a[1]] + 1] = a[2]]
    [] e.op = "eachw" -> [i \in 1..Len(s) |-> IF h[a[1]] < i /\ i <= h[a[2]] THEN s[i] + a[3] ELSE s[i]]
    [] OTHER -> s
B01(b) == IF b THEN 1 ELSE 0
\* what the program must observe
Result(s, h, g, e) ==        \* h: before, g: after
  LET a == e.a  x == a[1] IN
  CASE e.op \in {"b", "e", "inc", "dec", "mv", "mas"} -> <<g[x]>>
    [] e.op \in {"pinc", "pdec"} -> <<g[x], h[x]>>
    [] e.op \in {"add", "sub"} -> IF x = a[2] THEN <<g[x]>> ELSE <<g[x], h[a[2]]>>
    [] e.op \in {"cp", "as"} -> <<g[x], g[a[2]]>>
    [] e.op = "eq" -> <<B01(h[x] = h[a[2]]), B01(h[x] # h[a[2]])>>
    [] e.op = "get" -> <<s[h[x] + 1], s[h[x] + 1], h[x]>>
    [] e.op = "dist" -> <<h[a[2]] - h[x], h[a[2]] - h[x]>>
    [] e.op = "wr" -> <<>>
    [] e.op \in {"each", "eachw"} -> Range(s, h[x], h[a[2]])
    [] e.op = "fnd" -> <<FirstAt(s, a[3], h[x], h[a[2]])>>
===============================================================================
