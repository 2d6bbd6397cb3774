"""Plans for the sequence-family properties."""
from lib import Model, Suite, Script
from gen import walk_scripts, rand_scripts

S = set
VEC = ["new", "newn", "del", "pb", "gpb", "popb", "gob", "set", "setit", "rs", "rsf", "clr"]
LST = ["new", "newn", "del", "pb", "pf", "popb", "popf", "gpf", "gof", "setit", "clr"]
DEQ = ["new", "del", "pb", "pf", "gpb", "gof", "popb", "popf", "clr"]
QUE = ["new", "del", "pb", "popf"]
STK = ["new", "del", "pb", "popb", "clr"]
XST = ["new", "del", "pb", "popb", "clr"]
HEP = ["new", "del", "pb", "popx"]
STR = ["new", "newl", "del", "pb", "apc", "as", "catc", "ccat", "set", "clr", "eqc", "cat", "ncat", "apso", "cc", "ca"]
CHARS = list(range(1, 256))
LAWS = ["Independent", "CopyLaw", "MoveLaw", "PrefixLaw"]


def vec_model(ctx, name, ops, slots, maxlen, values={1, 2}, dump=True, bounded=False):
    return Model(name, "VectorImpl", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops)),
                 inv=["Discipline"] + (["Bounded"] if bounded else []), props=["Refines"], dump=dump)


def deq_model(ctx, name, ops, slots, maxlen, bs, values={1, 2}, dump=True):
    return Model(name, "DequeImpl", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops), BS=bs),
                 inv=["Discipline", "Bounded"], props=["Refines"], dump=dump)


def list_model(ctx, name, ops, slots, maxlen, doubly, nodes, values={1}, dump=True):
    return Model(name, "ListImpl", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops), Doubly=doubly,
                                        Nodes=S(range(1, nodes + 1))),
                 inv=["Rings", "NoLeak"], props=["Refines"], dump=dump)


def xs_model(ctx, name, ops, slots, maxlen, kind, values={1, 2, 3}, dump=True):
    return Model(name, "XStackImpl", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops), Kind=kind),
                 inv=["Extreme"], props=["Refines"], dump=dump)


def heap_model(ctx, name, ops, slots, maxlen, kind, values={1, 2, 3}, dump=True):
    return Model(name, "HeapImpl", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops), Kind=kind),
                 inv=["Ordered"], props=["RefinesBag"], dump=dump)


def str_model(ctx, name, ops, slots, maxlen, values={1}, dump=True):
    return Model(name, "StringImpl", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops), InitCap=2),
                 inv=["Terminated"], props=["Refines"], dump=dump)


def seq_mc(ctx, name, ops, slots, maxlen, values={1, 2}, dump=True, kind="lt"):
    return Model(name, "SeqMC", dict(Slots=S(slots), Values=S(values), MaxLen=maxlen, Ops=S(ops), Kind=kind),
                 inv=["TypeOK"], props=LAWS, dump=dump)


def rnd(ctx, tag, var, vocab, q, t, **kw):
    """q, t = (count, ops) for the quick and thorough tier"""
    c, n = ctx.pick(q, t)
    return rand_scripts(ctx.rng("%s/%s" % (tag, var)), var, vocab, c, n, **kw)


def walks(ctx, model, tag, budget, maxlen=60):
    w, cov = model.graph.walks(ctx.rng("walk/" + tag), maxlen, ctx.pick(budget, budget * 40))
    with ctx.lock:
        ctx.cov["walks"] += len(w)
        ctx.cov["edges_covered"] += cov
        ctx.cov["edges_total"] += len(model.graph.edges)
    return w


# further element types: a nested container, a self-referential object, pointers (null = 0), bytes, floating point
ELX = {"nest": (-1000, 1000), "self": (-1000, 1000), "ptr": (0, 9), "chr": (0, 255), "dbl": (-1000, 1000)}


def elx(ctx, names, vocab, fam, tag="elx", els=tuple(ELX), q=(2, 60), t=(25, 150), big=True, suite=True, **kw):
    """suite of random histories over the further element types; names may be (name, kind)"""
    def sc():
        out = []
        for n in names:
            n, k = n if isinstance(n, tuple) else (n, "lt")
            for el in els:
                lo, hi = ELX[el] if k != "un" else (0, 80)
                out.extend(rnd(ctx, tag + k, "%s.%s" % (n, el), vocab, q, t, kind=k, lo=lo, hi=hi, samev=0.2, **kw))
                if big:
                    out.extend(rnd(ctx, tag + "l" + k, "%s.%s" % (n, el), vocab, (1, 150), (4, 1000), kind=k, lo=lo, hi=hi, samev=0.2,
                                   views=False, every=15, phase=60, **kw))
        return out
    return Suite("%s-%d" % (tag, fam), "seq.cpp", "SeqTrace", sc, ["FAM=%d" % fam, "ELX"]) if suite else sc()


def bulk(ctx, names, front, pops, r, n=None):
    """far more elements than any narrow counter or table can count"""
    out = []
    for v in names:
        N = n or ctx.pick(r.randint(66000, 70000), r.randint(66000, 140000))
        L = ["views 0", "lite 1", "new 1"]
        have = 0
        for j in range(6):
            k = r.choice([N // 2, N // 3, 300, 65536 - have if have < 65536 else 1000])
            L.append("%s 1 %d %d" % (r.choice(["bpb", "bpf"]) if front else "bpb", k, r.randint(-1000, 1000)))
            have += k
            if j % 2:
                k = r.choice([have // 3, 257, 1])
                L.append("%s 1 %d" % (r.choice(pops), k))
                have -= k
        L.append("view")
        k = have - r.randint(0, 400)
        L += ["%s 1 %d" % (r.choice(pops), k), "view", "bpb 1 700 5", "view"]
        out.append(Script(v, L, "lt", 0))
    return out


def wheel(r, names, ops, most, lens, n=4):
    """a window of constant length moved along for long: start, step and length vary"""
    out = []
    for v in names:
        for _ in range(n):
            L = ["new 1"]
            L += ["%s 1 %d" % (r.choice([o for o in ("bpb", "bpf") if o in ops]), r.choice(lens)) + " %d" % r.randint(0, 50)]
            for _ in range(8):
                o = r.choice([w for w in ops if w in ("slide", "slideb", "churn")])
                L.append("%s 1 %d %d" % (o, r.choice([r.randint(1, 12), r.randint(1, 100), r.randint(1, most)]), r.randint(-500, 500)))
                if r.random() < 0.4:
                    L.append("%s 1 %d %d" % (r.choice([o for o in ("bpb", "bpf") if o in ops]), r.randint(0, 9), r.randint(0, 50)))
            out.append(Script(v, L + ["view"], "lt", 0))
    return out


# ---------------------------------------------------------------- C01
def c01(ctx):
    m = vec_model(ctx, "vector", VEC, {1}, ctx.pick(4, 6))
    def sc():
        w = walks(ctx, m, "vec", 6000)
        r = ctx.rng("c01")
        out = walk_scripts(r, w, ["vec.int", "vec.tok"]) + walk_scripts(r, w[::3], ["vec.big"])
        for v in ("vec.int", "vec.tok", "vec.big"):
            out += rnd(ctx, "r", v, VEC, (6, 60), (60, 120))
            out += rnd(ctx, "l", v, VEC, (1, 700), (6, 3000), views=False, phase=400, fill=300,
                       w=dict(clr=0.01, new=1, rs=0.05, rsf=0.05))
        # capacities that doubling never reaches: fill, then pop all the way down
        for n in sorted(r.sample(range(3, 100), ctx.pick(12, 60))) + [15, 24, 30, 31, 63]:
            L = ["views 0", "newn 1 %d 5" % n, "view"]
            for i in range(n):
                L.append("set 1 %d %d" % (i, i + 7))
            for i in range(n):
                L.append("popb 1")
                if i % 6 == 5 or i == n - 1:
                    L.append("view")
            out.append(Script(r.choice(["vec.int", "vec.tok"]), L, "lt", 0))
        out += bulk(ctx, ["vec.int"], False, ["bpopb"], r)
        out += rnd(ctx, "d", "vec.int", VEC, (3, 400), (20, 1500), views=False, every=25, phase=120, fill=40, w={"del": 0.02, "clr": 0.02, "rs": 0.1, "rsf": 0.1})
        return out
    return [m], [Suite("vec", "seq.cpp", "SeqTrace", sc, ["FAM=1"]), elx(ctx, ["vec"], VEC, 1, q=(3, 60))]


# ---------------------------------------------------------------- C02
def c02(ctx):
    one = ["new", "newl", "del", "pb", "apc", "as", "set", "clr"]
    m1 = str_model(ctx, "string-1", one, {1}, ctx.pick(4, 5), values={1, 2})
    two = ["new", "del", "pb", "apc", "cat", "catc", "ccat", "clr", "aps", "ca"]
    m2 = str_model(ctx, "string-2", two, {1, 2}, ctx.pick(2, 3))
    def noself(w):   # appending a string to itself or concatenating a string into itself belongs to C25
        return [e for e in w]
    def sc():
        r = ctx.rng("c02")
        w1 = walks(ctx, m1, "s1", 3000)
        w2 = [cut_self(w) for w in walks(ctx, m2, "s2", 4000)]
        out = [Script("str", L) for L in chars(r, w1 + w2)]
        out += rnd(ctx, "r", "str", STR, (25, 60), (200, 150), slots=(1, 2, 3), charset=CHARS, negset=False, maxlen=400)
        out += rnd(ctx, "r1", "str", STR, (25, 60), (200, 150), slots=(1, 2), charset=[97, 98], negset=False, maxlen=60, textlen=4, samev=0)
        out += rnd(ctx, "l", "str", STR, (2, 500), (12, 2500), slots=(1, 2), charset=CHARS, negset=False, maxlen=3000, views=False,
                   textlen=200, w={"del": 0.02, "clr": 0.02, "as": 0.1, "newl": 0.3, "ccat": 0.3, "catc": 0.3})
        # long texts
        T = lambda n: " ".join(str(r.choice(CHARS)) for _ in range(n))
        out.append(Script("str", ["views 0", "newl 1 " + T(300), "apc 1 " + T(66000), "view", "newl 2 " + T(257), "aps 2 1", "pb 2 65", "ccat 1 2 66 67", "view", "as 1 " + T(255), "view"]))
        return out
    return [m1, m2], [Suite("str", "seq.cpp", "SeqTrace", sc, ["FAM=1"])]


def cut_self(w):
    """drop the rest of a walk from the first operation whose argument is its own target"""
    out = []
    for e in w:
        if e["op"] == "aps" and e["a"][0] == e["o"]:
            break
        out.append(e)
    return out


def chars(r, ws):
    from gen import concretize
    for w in ws:
        yield concretize(r, w, "lt", lo=1, hi=256)


# ---------------------------------------------------------------- C03
def c03(ctx):
    ms = list_model(ctx, "singly", LST, {1}, ctx.pick(4, 5), False, ctx.pick(4, 5), values={1, 2})
    md = list_model(ctx, "doubly", LST, {1}, ctx.pick(4, 5), True, ctx.pick(4, 5), values={1, 2})
    def sc():
        r = ctx.rng("c03")
        out = []
        for m, v in ((ms, "sll"), (md, "dll")):
            w = walks(ctx, m, v, 3500)
            out += walk_scripts(r, w, [v + ".int", v + ".tok"])
            for el in ("int", "tok", "big"):
                out += rnd(ctx, "r", v + "." + el, LST, (6, 60), (60, 120))
            out += rnd(ctx, "l", v + ".int", LST, (1, 500), (8, 3000), views=False, phase=200, fill=50, w={"clr": 0.01, "del": 0.01})
        out += bulk(ctx, ["sll.int"], True, ["bpopf"], r) + bulk(ctx, ["dll.int"], True, ["bpopf", "bpopb"], r)
        return out
    return [ms, md], [Suite("list", "seq.cpp", "SeqTrace", sc, ["FAM=2"]), elx(ctx, ["sll", "dll"], LST, 2)]


# ---------------------------------------------------------------- C04
def c04(ctx):
    ms = [deq_model(ctx, "deque-%d" % b, DEQ, {1}, ctx.pick(l, l + 6), b, values={1})
          for b, l in ((1, 12), (2, 16), (3, 20))]
    def sc():
        r = ctx.rng("c04")
        out = []
        for m, b in zip(ms, (1, 2, 3)):
            w = walks(ctx, m, "d%d" % b, 2500)
            out += walk_scripts(r, w, ["deq%d.int" % b])
            out += walk_scripts(r, w[::3], ["deq%d.tok" % b, "deq5.int"])
        for v in ("deq1", "deq2", "deq3", "deq5", "deq"):
            for el in ("int", "tok", "big"):
                out += rnd(ctx, "r", "%s.%s" % (v, el), DEQ, (8, 60), (30, 120), samev=0.05)
            out += rnd(ctx, "l", v + ".int", DEQ, (1, 500), (6, 2500), views=False, every=20, phase=150,
                       w={"clr": 0.01, "del": 0.01}, samev=0.05)
        out += bulk(ctx, ["deq1.int", "deq3.int", "deq.int"], True, ["bpopf", "bpopb"], r)
        out += wheel(r, ["%s.%s" % (v, el) for v in ("deq1", "deq2", "deq3", "deq5", "deq") for el in ("int", "tok")],
                     ["bpb", "bpf", "slide", "slideb", "churn"], 3000, [0, 1, 2, 3, 7, 30, 70], ctx.pick(4, 30))
        return out
    return ms, [Suite("deq", "seq.cpp", "SeqTrace", sc, ["FAM=4"]), elx(ctx, ["deq1", "deq2", "deq3", "deq"], DEQ, 4)]


# ---------------------------------------------------------------- C05
def c05(ctx):
    mq = Model("fifo-lifo", "FifoLifo", dict(Values=S({1, 2}), MaxHist=ctx.pick(7, 9)), inv=["Exactly"], view=None)
    md = deq_model(ctx, "queue-deque", QUE, {1}, ctx.pick(6, 8), 2, values={1, 2})
    mv = vec_model(ctx, "stack-vector", STK, {1}, 5)
    ml = list_model(ctx, "queue-list", QUE, {1}, 4, True, 4, values={1, 2})
    def sc():
        r = ctx.rng("c05")
        wq = walks(ctx, md, "q", 1500) + walks(ctx, ml, "ql", 800)
        ws = walks(ctx, mv, "s", 2000)
        out = walk_scripts(r, wq, ["que.int", "que1.int", "que3.tok", "quel.tok", "ques.int"])
        out += walk_scripts(r, ws, ["stk.int", "stkd.tok", "stkl.int"])
        for v in ("que", "que1", "que3", "quel", "ques"):
            for el in ("int", "tok", "big"):
                out += rnd(ctx, "r", "%s.%s" % (v, el), QUE, (2, 60), (20, 120), samev=0.05)
            out += rnd(ctx, "l", v + ".int", QUE, (1, 400), (5, 2500), views=False, every=20, phase=100, samev=0.05, w={"del": 0.005})
        for v in ("stk", "stkd", "stkl"):
            for el in ("int", "tok", "big"):
                out += rnd(ctx, "r", "%s.%s" % (v, el), STK, (2, 60), (20, 120), samev=0.05)
            out += rnd(ctx, "l", v + ".int", STK, (1, 400), (5, 2500), views=False, every=20, phase=100, samev=0.05, w={"del": 0.005, "clr": 0.01})
        out += wheel(r, ["que.int", "que1.tok", "que3.int", "quel.int", "ques.tok"], ["bpb", "slide"], 3000, [0, 1, 2, 5, 40, 80], ctx.pick(4, 30))
        out += wheel(r, ["stk.int", "stkd.tok"], ["bpb", "churn"], 3000, [0, 1, 2, 5, 40, 80], ctx.pick(3, 20))
        out += bulk(ctx, ["que.int", "quel.int"], False, ["bpopf"], r) + bulk(ctx, ["stk.int", "stkd.int"], False, ["bpopb"], r)
        return out
    return [mq, md, mv, ml], [Suite("adapters", "seq.cpp", "SeqTrace", sc, ["FAM=8"]),
                                elx(ctx, ["que", "quel", "ques", "que3"], QUE, 8, "elxq", q=(1, 60)), elx(ctx, ["stk", "stkd", "stkl"], STK, 8, "elxs", q=(1, 60))]


# ---------------------------------------------------------------- C06
def c06(ctx):
    ms = {k: xs_model(ctx, "xstack-" + k, XST, {1}, ctx.pick(5, 6), k, values={1, 2, 3} if k != "un" else {1, 2, 11})
          for k in ("lt", "gt", "un")}
    V = {"lt": ["xmin.int", "xmin.tok", "xsd", "xd.tok"], "gt": ["xmax.int", "xmax.tok", "xd.int"], "un": ["xu", "xd.int"]}
    def sc():
        r = ctx.rng("c06")
        out = []
        for k, m in ms.items():
            w = walks(ctx, m, k, 3000)
            for v in V[k]:
                if k == "un":   # keep the model's equivalences (1 ~ 11)
                    out += [Script(v, [" ".join(x for x in ln.split()) for ln in unmap(r, wk)], k) for wk in w]
                else:
                    out += walk_scripts(r, w, [(v, k, 0)])
                kw = dict(lo=0, hi=60) if k == "un" else {}
                out += rnd(ctx, "r", v, XST, (6, 60), (60, 120), kind=k, samev=0.6, **kw)
                out += rnd(ctx, "n", v, XST, (4, 60), (30, 120), kind=k, lo=0, hi=4)
                out += rnd(ctx, "l", v, XST, (1, 300), (6, 1500), kind=k, views=False, every=10, phase=80, w={"clr": 0.01, "del": 0.01}, **kw)
        for k, v in (("lt", "xmin.int"), ("gt", "xmax.int")):
            # an extreme buried under far more elements, which come in rising, falling and scattered order
            for d in (1, -1, 389):
                L, n = ["views 0", "lite 1", "new 1", "bsc 1 %d 5 %d 70001" % (r.randint(66000, 70000), d), "view"], 66000
                for _ in range(6):
                    j = r.choice([n // 2, n // 3, min(n, 300), 1, max(1, n - r.randint(1, 300))]) if n > 1 else 0
                    n -= j
                    L += ["bpopb 1 %d" % j, "view", "bsc 1 3 %d 1 7" % r.choice([0, 70009, r.randint(0, 70000)]), "view", "bpopb 1 3", "view"]
                out.append(Script(v, L, k))
        return out
    return list(ms.values()), [Suite("xstack", "seq.cpp", "SeqTrace", sc, ["FAM=16"]),
                               elx(ctx, ["xmin", ("xmax", "gt"), ("xd", "gt"), ("xd", "un")], XST, 16)]


def unmap(r, w):
    from gen import line
    perm = sorted(r.sample(range(10), 2))
    f = lambda v: perm[v % 10 - 1] + 10 * (0 if v < 10 else r.randrange(1, 30))
    return [line(e["op"], e["o"], *([f(e["a"][0])] + e["a"][1:] if e["op"] == "pb" else e["a"])) for e in w]


# ---------------------------------------------------------------- C07
def c07(ctx):
    K = ("lt", "gt", "un")
    vals = {"lt": {1, 2, 3}, "gt": {1, 2, 3}, "un": {1, 2, 11}}
    ms = {k: heap_model(ctx, "heap-" + k, HEP, {1}, ctx.pick(5, 7), k, vals[k]) for k in K}
    ma = {k: Model("heap-algo-" + k, "HeapImpl", dict(Slots=S({1}), Values=S(vals[k] if k == "un" else {1, 2, 3, 4}),
                                                     MaxLen=ctx.pick(6, 8), Ops=S({"new"}), Kind=k),
                   inv=["AlgoOK"], init="SpecA", view="View") for k in K}
    V = {"lt": ["heapmin.int", "heapmin.tok", "heapmin.big", "heappq.int", "heapd.int"], "gt": ["heapmax.int", "heapmax.tok", "heapd.tok"],
         "un": ["heapu", "heapd.int"]}
    HA = {"lt": ["hamin.int", "hamin.tok"], "gt": ["hamax.int", "hamax.tok"], "un": ["hau"]}
    def sc():
        r = ctx.rng("c07")
        out = []
        for k in K:
            w = walks(ctx, ms[k], k, 2000)
            for v in V[k]:
                if k == "un":
                    out += [Script(v, unmap(r, x), k) for x in w[::2]]
                else:
                    out += walk_scripts(r, w, [(v, k, 0)])
                kw = dict(lo=0, hi=80) if k == "un" else {}
                out += rnd(ctx, "r", v, HEP, (4, 60), (40, 120), kind=k, samev=0.4, **kw)
                out += rnd(ctx, "l", v, HEP, (1, 300), (5, 1200), kind=k, views=False, every=10, phase=80, w={"del": 0.01}, **kw)
            for v in V[k][:1]:
                n = ctx.pick(300, 2000)
                L = ["views 0", "new 1", "bpb 1 %d %d" % (n, 0), "bpb 1 %d %d" % (n // 2, n // 4)]
                L += ["pb 1 %d" % r.randint(0, 3 * n) for _ in range(n // 2)] + ["view"]
                L += ["popx 1"] * (2 * n) + ["view", "pb 1 3", "view"]
                out.append(Script(v, L, k))
            if k != "un":
                n = r.randint(66000, 70000)
                L = ["views 0", "lite 1", "new 1", "bsc 1 %d 5 %d 70001" % (n, r.choice([1, -1, 389, 26729])), "view", "bpopx 1 %d" % (n // 2),
                     "bsc 1 300 %d 389 1009" % r.choice([0, 30000, 80000]), "bpopx 1 %d" % (n - n // 2 - 200), "view", "bpopx 1 500", "pb 1 9", "view"]
                out.append(Script(V[k][0], L, k))
            # build and sort on every sequence up to a length, then on random ones
            import itertools
            L = ctx.pick(4, 6)
            seqs = [s for n in range(0, L + 1) for s in itertools.product(sorted(vals[k]), repeat=n)]
            perms = list(itertools.permutations(range(1, ctx.pick(6, 8))))
            seqs += perms
            for _ in range(ctx.pick(30, 400)):
                n = r.randint(5, 80)
                seqs.append([r.randint(0, r.choice([3, 10, 1000])) for _ in range(n)])
            for v in HA[k]:
                ln = []
                for s in seqs:
                    for op in ("sort", "build", "ctor"):
                        ln.append(" ".join([op] + [str(x) for x in s]))
                    if len(s) >= 2:
                        b = r.randint(0, len(s)); c = r.randint(0, len(s) - b)
                        ln.append(" ".join(["sortr", str(b), str(c)] + [str(x) for x in s]))
                if "tok" in v:
                    ln = ln[::4]
                out += [Script(v, ln[i:i + 60], k) for i in range(0, len(ln), 60)]
        return out
    def hal():
        r, out = ctx.rng("halx"), []
        for v, k in (("hamin", "lt"), ("hamax", "gt")):
            for el, (lo, hi) in ELX.items():
                ln = []
                for _ in range(ctx.pick(12, 150)):
                    n = r.choice([0, 1, 2, 3, r.randint(4, 12), r.randint(10, 60)])
                    s = [r.randint(lo, r.choice([lo + 4, hi])) for _ in range(n)]
                    ln += [" ".join([op] + [str(x) for x in s]) for op in ("sort", "build", "ctor")]
                out += [Script("%s.%s" % (v, el), ln[i:i + 40], k) for i in range(0, len(ln), 40)]
        return out
    return list(ms.values()) + list(ma.values()), [Suite("heap", "seq.cpp", "SeqTrace", sc, ["FAM=32"]),
        elx(ctx, ["heapmin", "heappq", ("heapmax", "gt"), ("heapd", "gt"), ("heapd", "un")], HEP, 32), Suite("halgo", "seq.cpp", "SeqTrace", hal, ["FAM=32", "ELX"])]


# ---------------------------------------------------------------- C23
def c23(ctx):
    ops = ["newx", "del", "set", "setit", "seti"]
    ms = [seq_mc(ctx, "array-%d" % n, ops, {1}, n, values=set(range(1, ctx.pick(3, 4)))) for n in (1, 2, 3)]
    def sc():
        r = ctx.rng("c23")
        out = []
        for m, n in zip(ms, (1, 2, 3)):
            w = walks(ctx, m, "a%d" % n, 2000)
            for el in ("int", "tok", "big"):
                out += walk_scripts(r, w, ["arr%d.%s" % (n, el)], m=n)
        for n in (1, 2, 3, 7, 32):
            for el in ("int", "tok", "big"):
                out += rnd(ctx, "r", "arr%d.%s" % (n, el), ops, (2, 60), (30, 200), m=n, fixed=n, w={"del": 0.02}, samev=0.05)
        for el in ("int", "tok"):
            out += rnd(ctx, "r", "arr300." + el, ops, (1, 40), (10, 100), m=300, fixed=300, w={"del": 0.02}, samev=0.05)
        return out
    def scx():
        out = []
        for n in (1, 2, 3, 7, 32):
            out += elx(ctx, ["arr%d" % n], ops, 64, q=(1, 60), big=False, suite=False, m=n, fixed=n, w={"del": 0.02})
        return out
    return ms, [Suite("array", "seq.cpp", "SeqTrace", sc, ["FAM=64"]), Suite("array-elx", "seq.cpp", "SeqTrace", scx, ["FAM=64", "ELX"])]


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C23": c23}
