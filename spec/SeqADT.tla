------------------------------- MODULE SeqADT -------------------------------
(***************************************************************************)
(* What a user of DStruct's sequence containers may rely on: a finite set  *)
(* of container objects, each an ideal sequence, and the effect of every   *)
(* public operation on them.  The containers (vector, string, singly and   *)
(* doubly linked list, deque, queue, stack, min/max stack, heap as ordered *)
(* bag, fixed array) differ only in which operations they offer.           *)
(*                                                                         *)
(* An event is a record [op, o, a]: operation name, object, arguments.     *)
(* Indices in events are the C++ ones (0-based, negative = from the end).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Dead == [live |-> FALSE, s |-> <<>>]
Live(s) == [live |-> TRUE, s |-> s]

Pos(s, i) == IF i < 0 THEN Len(s) + i + 1 ELSE i + 1      \* 1-based position of C++ index i
InR(s, i) == Pos(s, i) \in 1..Len(s)
At(s, i)  == s[Pos(s, i)]
ButLast(s)  == SubSeq(s, 1, Len(s) - 1)
Rev(s)    == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Min2(a, b) == IF a < b THEN a ELSE b
Fill(n, x) == [i \in 1..n |-> x]
PadTo(s, n, x) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Fill(n - Len(s), x)
SufFrom(s, i) == SubSeq(s, i + 1, Len(s))
DelAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))

\* strict orders: k = "lt" (least first), "gt" (greatest first), "un" (by units digit)
Before(k, x, y) == CASE k = "lt" -> x < y [] k = "gt" -> x > y
                     [] k = "un" -> (x % 10) < (y % 10) [] OTHER -> x < y
IsExtreme(k, x, s) == /\ \E i \in 1..Len(s) : s[i] = x
                      /\ \A i \in 1..Len(s) : ~Before(k, s[i], x)
\* canonical form, equal iff equal multisets: the elements in rising order (a long sequence is sorted as a set of pairs,
\* given to TLC in scattered order)
Bag(s) == IF Len(s) < 48 THEN SortSeq(s, LAMBDA x, y : x < y)
          ELSE LET n == Len(s)
                   p == IF n % 7919 = 0 THEN 7907 ELSE 7919
                   q == SetToSeq({<<s[1 + ((i * p) % n)], i>> : i \in 1..n})
               IN [i \in 1..n |-> q[i][1]]
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

(* ------------------------------------------------------------------ preconditions *)
Pre(e, S) ==
  LET o == e.o  a == e.a  L == S[o].live  s == S[o].s IN
  CASE e.op \in {"new", "newl"}                -> ~L
    [] e.op = "newx"                           -> ~L
    [] e.op = "newn"                           -> ~L /\ a[1] >= 1
    [] e.op = "del"                            -> L
    [] e.op \in {"cc", "mc"}                   -> ~L /\ S[a[1]].live
    [] e.op \in {"ca", "ma", "aps"}            -> L /\ S[a[1]].live
    [] e.op \in {"pb", "pf", "gpf", "gpb", "clr", "apc", "as", "eqc"} -> L
    [] e.op \in {"popb", "popf", "gof", "gob", "popx"} -> L /\ Len(s) > 0
    [] e.op \in {"pbi", "pfi", "pbx", "set", "setit"} -> L /\ InR(s, a[1])
    [] e.op = "seti"                           -> L /\ InR(s, a[1]) /\ InR(s, a[2])
    [] e.op \in {"bpb", "bpf"}                 -> L /\ a[1] >= 0              \* a[1] pushes in a row
    [] e.op \in {"bpopb", "bpopf"}             -> L /\ a[1] \in 0..Len(s)     \* a[1] pops in a row
    [] e.op = "bsc"                            -> L /\ a[1] >= 0              \* a[1] pushes of scattered values
    [] e.op = "bpopx"                          -> L /\ a[1] \in 0..Len(s)     \* a[1] times the extreme of a bag
    [] e.op \in {"slide", "slideb", "churn"}   -> L /\ a[1] >= 0              \* a[1] pushes, each followed by a pop
    [] e.op \in {"rs", "rsf"}                  -> L /\ a[1] >= 0
    [] e.op = "rsi"                            -> L /\ a[1] >= 1 /\ InR(s, a[2])
    [] e.op \in {"apown", "asown"}             -> L /\ a[1] \in 0..Len(s)
    [] e.op \in {"cat"}                        -> L /\ S[a[1]].live /\ S[a[2]].live
    [] e.op \in {"ncat"}                       -> ~L /\ S[a[1]].live /\ S[a[2]].live
    [] e.op \in {"catc", "ccat"}               -> L /\ S[a[1]].live
    [] OTHER                                   -> FALSE

(* ------------------------------------------------------------------ effects *)
Eff(e, S) ==
  LET o == e.o  a == e.a  s == S[o].s
      Put(q) == [S EXCEPT ![o] = Live(q)] IN
  CASE e.op = "new"                 -> Put(<<>>)
    [] e.op = "newl"                -> Put(a)
    [] e.op = "newn"                -> Put(Fill(a[1], a[2]))
    [] e.op = "newx"                -> Put(Fill(a[2], a[1]))         \* fixed array of a[2] elements
    [] e.op = "del"                 -> [S EXCEPT ![o] = Dead]
    [] e.op \in {"cc", "ca"}        -> Put(S[a[1]].s)
    [] e.op \in {"mc", "ma"}        -> IF a[1] = o THEN S
                                       ELSE [S EXCEPT ![o] = Live(S[a[1]].s), ![a[1]] = Live(<<>>)]
    [] e.op \in {"pb", "gpb"}       -> Put(Append(s, a[1]))
    [] e.op \in {"pf", "gpf"}       -> Put(<<a[1]>> \o s)
    [] e.op \in {"popb", "gob"}     -> Put(ButLast(s))
    [] e.op \in {"popf", "gof"}     -> Put(Tail(s))
    [] e.op = "popx"                -> Put(DelAt(s, IndexOf(s, e.r[1])))
    [] e.op = "pbi"                 -> Put(Append(s, At(s, a[1])))
    [] e.op = "pbx"                 -> Put(Append(s, e.r[1]))        \* any held element of a bag
    [] e.op = "pfi"                 -> Put(<<At(s, a[1])>> \o s)
    [] e.op = "bpb"                 -> Put(s \o [i \in 1..a[1] |-> a[2] + i - 1])
    [] e.op = "bpf"                 -> Put([i \in 1..a[1] |-> a[2] + a[1] - i] \o s)
    [] e.op = "bpopb"               -> Put(SubSeq(s, 1, Len(s) - a[1]))
    [] e.op = "bpopf"               -> Put(SubSeq(s, a[1] + 1, Len(s)))
    [] e.op = "bsc"                 -> Put(s \o [i \in 1..a[1] |-> a[2] + (((i - 1) * a[3]) % a[4])])
    [] e.op = "bpopx"               -> LET b == Bag(s)  n == Len(s)  k == a[1] IN
                                       Put(IF e.r = SubSeq(b, 1, k) THEN SubSeq(b, k + 1, n) ELSE SubSeq(b, 1, n - k))
    [] e.op = "slide"               -> Put([i \in 1..Len(s) |-> IF i + a[1] <= Len(s) THEN s[i + a[1]] ELSE a[2] + a[1] - Len(s) + i - 1])
    [] e.op = "slideb"              -> Put([i \in 1..Len(s) |-> IF i > a[1] THEN s[i - a[1]] ELSE a[2] + a[1] - i])
    [] e.op \in {"set", "setit"}    -> Put([s EXCEPT ![Pos(s, a[1])] = a[2]])
    [] e.op = "seti"                -> Put([s EXCEPT ![Pos(s, a[1])] = At(s, a[2])])
    [] e.op = "rs"                  -> Put(SubSeq(s, 1, Min2(a[1], Len(s))))
    [] e.op = "rsf"                 -> Put(PadTo(s, a[1], a[2]))
    [] e.op = "rsi"                 -> Put(PadTo(s, a[1], At(s, a[2])))
    [] e.op = "clr"                 -> Put(<<>>)
    [] e.op = "as"                  -> Put(a)
    [] e.op = "asown"               -> Put(SufFrom(s, a[1]))
    [] e.op = "apc"                 -> Put(s \o a)
    [] e.op = "apown"               -> Put(s \o SufFrom(s, a[1]))
    [] e.op = "aps"                 -> Put(s \o S[a[1]].s)
    [] e.op \in {"cat", "ncat"}     -> Put(S[a[1]].s \o S[a[2]].s)
    [] e.op = "catc"                -> Put(S[a[1]].s \o Tail(a))
    [] e.op = "ccat"                -> Put(Tail(a) \o S[a[1]].s)
    [] OTHER                        -> S                              \* pure queries

(* ------------------------------------------------------------------ results *)
Bit(b) == IF b THEN 1 ELSE 0
RetOK(e, k, S) ==
  LET s == S[e.o].s IN
  CASE e.op = "popx" -> IsExtreme(k, e.r[1], s)
    [] e.op = "bpopx" -> LET b == Bag(s)  n == Len(s)  m == e.a[1] IN
                         e.r = (IF k = "gt" THEN Rev(SubSeq(b, n - m + 1, n)) ELSE SubSeq(b, 1, m))
    [] e.op = "pbx"  -> \E i \in 1..Len(s) : s[i] = e.r[1]
    [] e.op = "eqc"  -> e.r = <<Bit(s = e.a), Bit(s = e.a), Bit(s # e.a), Bit(s # e.a)>>
    [] OTHER         -> TRUE

(* ------------------------------------------------------------------ views
   v is a record of observations of one object through every public way of
   reading it; each must describe the ideal sequence s.                      *)
Has(v, f) == f \in DOMAIN v
ViewOK(v, k, o, S) ==
  LET s == S[o].s IN
  /\ S[o].live
  /\ Has(v, "n")   => v.n = <<Len(s)>>
  /\ Has(v, "e")   => v.e = <<Bit(s = <<>>)>>
  /\ Has(v, "it")  => v.it = s
  /\ Has(v, "mt")  => v.mt = s
  /\ Has(v, "ix")  => v.ix = s
  /\ Has(v, "mx")  => v.mx = s
  /\ Has(v, "nx")  => v.nx = s
  /\ Has(v, "ix2") => v.ix2 = s \o s
  /\ Has(v, "rv")  => v.rv = Rev(s)
  /\ Has(v, "rw")  => v.rw = Rev(s)
  /\ Has(v, "f")   => s # <<>> /\ v.f = <<s[1]>>
  /\ Has(v, "b")   => s # <<>> /\ v.b = <<s[Len(s)]>>
  /\ Has(v, "cap") => v.cap[1] >= Len(s)
  /\ Has(v, "x")   => IsExtreme(k, v.x[1], s)
  /\ Has(v, "top") => IsExtreme(k, v.top[1], s)
  /\ Has(v, "bag") => Len(v.bag) = Len(s) /\ Bag(v.bag) = Bag(s)
  /\ Has(v, "bag2") => Len(v.bag2) = Len(s) /\ Bag(v.bag2) = Bag(s)
  /\ Has(v, "cs")  => v.cs = Append(s, 0)
  /\ Has(v, "eq")  => \A p \in 1..Len(v.eq) :
                         v.eq[p] = IF S[p].live THEN Bit(S[p].s = s) ELSE 2
  /\ Has(v, "ne")  => \A p \in 1..Len(v.ne) :
                         v.ne[p] = IF S[p].live THEN Bit(S[p].s # s) ELSE 2

(* ------------------------------------------------------------------ menus
   The events a bounded model explores: Ops = offered operations,
   Values = element values, MaxLen = longest sequence.                       *)
Texts(Values, n) == UNION {[1..m -> Values] : m \in 0..n}
Args(op, o, S, Slots, Values, MaxLen) ==
  LET n == Len(S[o].s)
      I == IF n = 0 THEN {} ELSE (0..(n - 1)) \cup {-1} \cup {-n} IN
  CASE op \in {"new", "del", "popb", "popf", "gof", "gob", "clr"} -> {<<>>}
    [] op \in {"pb", "pf", "gpb", "gpf"}       -> {<<x>> : x \in Values}
    [] op \in {"cc", "mc"}                     -> {<<p>> : p \in Slots \ {o}}
    [] op \in {"ca", "ma", "aps"}              -> {<<p>> : p \in Slots}
    [] op = "newn"                             -> {<<m, x>> : m \in 1..MaxLen, x \in Values}
    [] op = "newx"                             -> {<<x, MaxLen>> : x \in Values}
    [] op = "set"                              -> {<<i, x>> : i \in I, x \in Values}
    [] op = "setit"                            -> {<<i, x>> : i \in {j \in I : j >= 0}, x \in Values}
    [] op \in {"pbi", "pfi"}                   -> {<<i>> : i \in {j \in I : j >= 0}}
    [] op = "seti"                             -> {<<i, j>> : i \in I, j \in I}
    [] op = "rs"                               -> {<<m>> : m \in 0..(MaxLen + 1)}
    [] op = "rsf"                              -> {<<m, x>> : m \in 0..MaxLen, x \in Values}
    [] op = "rsi"                              -> {<<m, i>> : m \in 1..MaxLen, i \in {j \in I : j >= 0}}
    [] op \in {"newl", "as", "apc"}            -> Texts(Values, MaxLen)
    [] op \in {"apown", "asown"}               -> {<<i>> : i \in 0..n}
    [] op \in {"cat", "ncat"}                  -> {<<p, q>> : p \in Slots, q \in Slots}
    [] op \in {"catc", "ccat"}                 -> {<<p>> \o t : p \in Slots, t \in Texts(Values, 2)}
    [] OTHER                                   -> {}

Menu(S, Ops, Slots, Values, MaxLen) ==
  LET C == UNION {UNION {{[op |-> op, o |-> o, a |-> a] : a \in Args(op, o, S, Slots, Values, MaxLen)}
                           : o \in Slots} : op \in Ops}
  IN {e \in C : /\ Pre(e, S)
                /\ LET T == Eff(e, S) IN \A p \in Slots : Len(T[p].s) <= MaxLen}
=============================================================================
