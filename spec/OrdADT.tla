-------------------------------- MODULE OrdADT --------------------------------
(* What a user may rely on of the ordered containers (binary search tree, AVL    *)
(* tree, map): a finite set of objects, each an ideal finite association from    *)
(* keys (no two equivalent under the comparator) to values (0 for plain sets),   *)
(* plus iterators a user holds on elements.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

None == [x \in {} |-> 0]
Dead == [live |-> FALSE, m |-> None]
Live(m) == [live |-> TRUE, m |-> m]
Keys(m) == DOMAIN m

Before(k, x, y) == CASE k = "lt" -> x < y [] k = "gt" -> x > y
                     [] k = "un" -> (x % 10) < (y % 10) [] OTHER -> x < y
Eqv(k, x, y) == ~Before(k, x, y) /\ ~Before(k, y, x)
Same(k, m, x) == {y \in DOMAIN m : Eqv(k, x, y)}       \* the entry equivalent to x, if any
Has(k, m, x) == Same(k, m, x) # {}
Entry(k, m, x) == CHOOSE y \in Same(k, m, x) : TRUE
Sorted(k, m) == LET q == SetToSeq(DOMAIN m) IN SortSeq(IF k = "gt" THEN Reverse(q) ELSE q, LAMBDA x, y : Before(k, x, y))
Without(k, m, x) == [y \in DOMAIN m \ Same(k, m, x) |-> m[y]]
With(k, m, x, v) == IF Has(k, m, x) THEN [m EXCEPT ![Entry(k, m, x)] = v]
                    ELSE [y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]]
AddNew(k, m, x, v) == IF Has(k, m, x) THEN m ELSE With(k, m, x, v)
\* the least key after x under the order, as a sequence of length 0 or 1
Succ(k, m, x) ==
  LET later == {y \in DOMAIN m : Before(k, x, y)} IN
  IF later = {} THEN <<>> ELSE <<CHOOSE y \in later : \A z \in later : ~Before(k, z, y)>>
RECURSIVE AddAll(_, _, _)
AddAll(k, m, s) == IF s = <<>> THEN m ELSE AddAll(k, AddNew(k, m, Head(s), 0), Tail(s))

\* the keys of a bulk operation: a[1] keys x, x + d, x + 2d, .. (steps modulo m), a = <<n, x, d, m>>
Bulk(a) == [i \in 1..a[1] |-> a[2] + (((i - 1) * a[3]) % a[4])]
Dense(a) == {Bulk(a)[i] : i \in 1..a[1]}
AddBulk(k, m, a) ==
  LET D == Dense(a) IN
  IF k \in {"lt", "gt"} THEN [y \in DOMAIN m \cup D |-> IF y \in DOMAIN m THEN m[y] ELSE 0] ELSE AddAll(k, m, Bulk(a))

(* ---------------------------------------------------------------- events
   new, del, cc, ca, mc, ma   object lifetime, copies and moves
   newr <<k..>>               construction from a range (repetitions allowed)
   ins <<x>>                  insertion (dup: of a value already present)
   rem <<x>>, remown <<x>>    removal by value (own: given the element itself)
   era <<x>>                  erasure through an iterator; r = next key, if any
   put <<x, v>>               m[x] = v          get <<x>>   v = m[x]
   putown <<x, v>>            the same, given the stored key itself
   putval <<x, y>>            m[x] = the stored value of y
   cget <<x>>                 reading through a const map
   find <<x>>                 r = <<>> or <<key, value>>
   clr                                                                          *)
Pre(k, e, S) ==
  LET o == e.o  a == e.a  L == S[o].live  m == S[o].m IN
  CASE e.op \in {"new", "newr"}      -> ~L
    [] e.op \in {"cc", "mc"}         -> ~L /\ S[a[1]].live
    [] e.op \in {"ca", "ma"}         -> L /\ S[a[1]].live
    [] e.op \in {"del", "clr", "find", "rem", "put", "get"} -> L
    [] e.op \in {"bins", "brem", "bfind"} -> L /\ a[1] >= 0
    [] e.op = "ins"                  -> L /\ ~Has(k, m, a[1])
    [] e.op = "insdup"               -> L /\ Has(k, m, a[1])
    [] e.op \in {"era", "remown", "insown", "cget", "putown"} -> L /\ Has(k, m, a[1])
    [] e.op = "putval"               -> L /\ Has(k, m, a[2])
    [] OTHER                         -> FALSE
Eff(k, e, S) ==
  LET o == e.o  a == e.a  m == S[o].m
      Put(q) == [S EXCEPT ![o] = Live(q)] IN
  CASE e.op = "new"              -> Put(None)
    [] e.op = "newr"             -> Put(AddAll(k, None, a))
    [] e.op = "del"              -> [S EXCEPT ![o] = Dead]
    [] e.op \in {"cc", "ca"}     -> Put(S[a[1]].m)
    [] e.op \in {"mc", "ma"}     -> IF a[1] = o THEN S
                                    ELSE [S EXCEPT ![o] = Live(S[a[1]].m), ![a[1]] = Live(None)]
    [] e.op \in {"ins", "insdup", "insown"} -> Put(AddNew(k, m, a[1], IF Len(a) > 1 THEN a[2] ELSE 0))
    [] e.op \in {"rem", "era", "remown"}    -> Put(Without(k, m, a[1]))
    [] e.op = "bins"             -> Put(AddBulk(k, m, a))
    [] e.op = "brem"             -> LET D == Dense(a) IN
                                    Put([y \in {z \in DOMAIN m : IF k \in {"lt", "gt"} THEN z \notin D ELSE \A x \in D : ~Eqv(k, x, z)} |-> m[y]])
    [] e.op \in {"put", "putown"} -> Put(With(k, m, a[1], a[2]))
    [] e.op = "putval"           -> Put(With(k, m, a[1], m[Entry(k, m, a[2])]))
    [] e.op = "get"              -> Put(AddNew(k, m, a[1], 0))
    [] e.op = "clr"              -> Put(None)
    [] OTHER                     -> S
RetOK(k, e, S) ==
  LET m == S[e.o].m  a == e.a IN
  CASE e.op = "era"  -> e.r = Succ(k, m, a[1])
    [] e.op = "bfind" -> e.r = SelectSeq(Bulk(a), LAMBDA x : IF k \in {"lt", "gt"} THEN x \in DOMAIN m ELSE Has(k, m, x))
    [] e.op = "get"  -> e.r = <<IF Has(k, m, a[1]) THEN m[Entry(k, m, a[1])] ELSE 0>>
    [] e.op = "cget" -> e.r = <<m[Entry(k, m, a[1])]>>
    [] e.op = "find" -> e.r = IF Has(k, m, a[1]) THEN <<Entry(k, m, a[1]), m[Entry(k, m, a[1])]>> ELSE <<>>
    [] OTHER         -> TRUE

(* ---------------------------------------------------------------- held iterators
   its[h] = <<>> or <<object, key>>: an iterator the user keeps.  It stays on its
   element through every operation that does not remove that element.
   hold <<h, x>>   at <<h>>   step <<h>> (++)   erah <<h>> (erase through it)
   With it goes the address of its element: rdr <<h>> reads there, wrr <<h, v>>
   writes the mapped value there                                                    *)
NoIts == [h \in 1..3 |-> <<>>]
ItOps == {"hold", "at", "step", "erah", "rdr", "wrr"}
ItPre(k, e, S, its) ==
  CASE e.op = "hold" -> S[e.o].live /\ Has(k, S[e.o].m, e.a[2])
    [] OTHER -> its[e.a[1]] # <<>> /\ its[e.a[1]][1] = e.o
ItRet(k, e, S, its) ==
  LET m == S[e.o].m IN
  CASE e.op \in {"at", "rdr"} -> LET x == its[e.a[1]][2] IN e.r = <<x, m[x]>>
    [] e.op \in {"step", "erah"} -> e.r = Succ(k, m, its[e.a[1]][2])
    [] OTHER -> TRUE
ItSet(its, h, o, q) == [its EXCEPT ![h] = IF q = <<>> THEN <<>> ELSE <<o, q[1]>>]
ItEff(k, e, S, its) ==
  LET m == S[e.o].m  h == e.a[1] IN
  CASE e.op = "hold" -> ItSet(its, h, e.o, <<Entry(k, m, e.a[2])>>)
    [] e.op = "step" -> ItSet(its, h, e.o, Succ(k, m, its[h][2]))
    [] e.op = "erah" -> ItSet([g \in DOMAIN its |-> IF its[g] = its[h] THEN <<>> ELSE its[g]],
                              h, e.o, Succ(k, m, its[h][2]))
    [] OTHER -> its
\* what an iterator erasure does to the objects
ItObjs(k, e, S, its) ==
  IF e.op = "erah" THEN [S EXCEPT ![e.o].m = Without(k, @, its[e.a[1]][2])]
  ELSE IF e.op = "wrr" THEN [S EXCEPT ![e.o].m[its[e.a[1]][2]] = e.a[2]] ELSE S
\* iterators an ordinary operation ends
ItDrop(k, e, S, its) ==
  LET copy == e.op \in {"cc", "ca", "mc", "ma"}
      self == copy /\ e.a[1] = e.o
      gone(h) == /\ its[h][1] = e.o /\ ~self
                 /\ \/ e.op \in {"new", "newr", "del", "clr", "brem"} \/ copy
                    \/ e.op \in {"rem", "era", "remown"} /\ Eqv(k, its[h][2], e.a[1])
      \* a moved container hands its elements over
      handed(h) == e.op \in {"mc", "ma"} /\ ~self /\ its[h][1] = e.a[1]
  IN [h \in DOMAIN its |-> IF its[h] = <<>> \/ gone(h) THEN <<>>
                           ELSE IF handed(h) THEN <<e.o, its[h][2]>> ELSE its[h]]

(* ---------------------------------------------------------------- trees
   The pre-order sequence of a search tree determines the tree: the elements
   ordered before the root come first, then those ordered after it.
   Shape = [ok: it is the pre-order of a search tree, h: height,
            bal: AVL balanced everywhere, post: its post-order]                  *)
RECURSIVE Shape(_, _)
Shape(k, pre) ==
  IF pre = <<>> THEN [ok |-> TRUE, h |-> 0, bal |-> TRUE, post |-> <<>>]
  ELSE LET r == Head(pre)
           nl == Cardinality({i \in 2..Len(pre) : Before(k, pre[i], r)})
           L == Shape(k, SubSeq(pre, 2, nl + 1))
           R == Shape(k, SubSeq(pre, nl + 2, Len(pre)))
       IN [ok |-> /\ \A i \in 2..(nl + 1) : Before(k, pre[i], r)
                  /\ \A i \in (nl + 2)..Len(pre) : Before(k, r, pre[i])
                  /\ L.ok /\ R.ok,
           h |-> 1 + (IF L.h > R.h THEN L.h ELSE R.h),
           bal |-> L.bal /\ R.bal /\ L.h - R.h \in {-1, 0, 1},
           post |-> L.post \o R.post \o <<r>>]

\* C20 (see SeqTrace): all memory from the pool, all of it returned
PoolOK(e, S) == /\ e.libc = <<0>> /\ e.used[1] >= 0
                /\ (\A o \in DOMAIN S : ~S[o].live) => e.used = <<0>>
                /\ e.used[1] >= e.esz * (Cardinality(DOMAIN S[1].m) + Cardinality(DOMAIN S[2].m) + Cardinality(DOMAIN S[3].m))
Fld(v, f) == f \in DOMAIN v
Bit(b) == IF b THEN 1 ELSE 0
ViewOK(v, k, o, S) ==
  LET m == S[o].m IN
  \E q \in {Sorted(k, m)}, sh \in {IF Fld(v, "pre") THEN Shape(k, v.pre) ELSE Shape(k, <<>>)} :      \* (evaluated once)
  /\ S[o].live
  /\ Fld(v, "n")    => v.n = <<Len(q)>>
  /\ Fld(v, "cap")  => v.cap[1] >= Len(q)
  /\ Fld(v, "e")    => v.e = <<Bit(q = <<>>)>>
  /\ Fld(v, "it")   => v.it = q
  /\ Fld(v, "cit")  => v.cit = q
  /\ Fld(v, "rit")  => v.rit = q
  /\ Fld(v, "vals") => v.vals = [i \in 1..Len(q) |-> m[q[i]]]
  /\ Fld(v, "cvals") => v.cvals = [i \in 1..Len(q) |-> m[q[i]]]
  /\ Fld(v, "in")   => v.in = q
  /\ Fld(v, "pre")  => /\ sh.ok /\ Len(v.pre) = Len(q)              \* one search tree over the keys,
                       /\ \A i \in 1..Len(v.pre) : v.pre[i] \in DOMAIN m
  /\ Fld(v, "dpre") => v.dpre = v.pre
  /\ Fld(v, "din")  => v.din = q                                    \* the default order is in-order
  /\ Fld(v, "ipre") => v.ipre = v.pre                               \* seen alike by every traversal
  /\ Fld(v, "iin")  => v.iin = q
  /\ Fld(v, "post") => v.post = sh.post
  /\ Fld(v, "ipost") => v.ipost = sh.post
  /\ Fld(v, "bal")  => sh.ok /\ sh.bal                              \* C10
  /\ Fld(v, "h")    => v.h = <<sh.h>>
  /\ Fld(v, "fnd")  => \A i \in 1..(Len(v.fnd) \div 2) :            \* lookups: pairs <<key, key found or -1>>
                          v.fnd[2 * i] = IF Has(k, m, v.fnd[2 * i - 1]) THEN Entry(k, m, v.fnd[2 * i - 1]) ELSE -1

(* ---------------------------------------------------------------- menus *)
Args(k, op, o, S, Slots, K, Vals) ==
  CASE op \in {"new", "del", "clr"}          -> {<<>>}
    [] op \in {"cc", "mc"}                   -> {<<p>> : p \in Slots \ {o}}
    [] op \in {"ca", "ma"}                   -> {<<p>> : p \in Slots}
    [] op \in {"put", "putown"}              -> {<<x, v>> : x \in K, v \in Vals}
    [] op = "putval"                         -> {<<x, y>> : x \in K, y \in K}
    [] op \in {"ins", "insdup", "rem", "remown", "insown", "era", "get", "cget", "find"} -> {<<x>> : x \in K}
    [] OTHER                                 -> {}
Menu(k, S, Ops, Slots, K, Vals) ==
  {e \in UNION {UNION {{[op |-> op, o |-> o, a |-> a] : a \in Args(k, op, o, S, Slots, K, Vals)}
                          : o \in Slots} : op \in Ops} : Pre(k, e, S)}
===============================================================================
