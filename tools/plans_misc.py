"""Static allocator (C13, C14, C15), static-memory containers (C20), iterators and algorithms (C22),
intrusive links (C24) and value helpers (C26)."""
from lib import Model, Suite, Script, line
from gen import walk_scripts
from plans_seq import (wheel, S, VEC, LST, DEQ, QUE, STK, XST, HEP, CHARS, walks, rnd, chars, vec_model, deq_model, list_model, xs_model,
                       heap_model, str_model)
from plans_ord import tree_model, ordx, owalks, rord, uf_model, uf_scripts
from plans_mem import thin
from plans_val import M

POOLS = {"48q8": (48, 8), "64q16": (64, 16), "64q24": (64, 24), "80q20": (80, 20), "96q12": (96, 12), "128q32": (128, 32),
         "256q128": (256, 128), "512q64": (512, 64), "1024q8": (1024, 8), "2048q512": (2048, 512), "4096q128": (4096, 128),
         "10240": (10240, 128)}


def sma_model(ctx, name, p, q, handles, sizes, dump=True):
    return Model(name, "SMAImpl", dict(P=p, Q=q, Handles=S(range(1, handles + 1)), Sizes=S(sizes)),
                 inv=["Tiling", "MaxOK", "MergeOK"], props=["Refines"], dump=dump)


def obs(r, pid, dense):
    """observations between operations"""
    if pid == "C14":
        return r.choice([["probe"], ["drain"], ["probe"], ["badnull %d" % r.choice([-8, 0, 1, 8, 64])],
                         ["badsz %d %d" % (r.randint(0, 9), r.choice([0, -1, -8, -64]))]]) if r.random() < dense else []
    if pid == "C15":
        return ["fit %d %d" % (r.choice([16, 16, 16, r.randint(1, 15)]), r.choice([0, 0, r.randint(0, 7)]))] if r.random() < dense else []
    return []


def sma_walk(r, pid, w, var):
    out = []
    for e in w:
        if e["op"] == "alloc":
            u = e["a"][0]
            out.append("alloc %d %d" % (e["o"], 8 * (u - 1) + r.choice([1, 8, 8, r.randint(1, 8)])))
        elif e["op"] == "free":
            out.append("free %d" % e["o"])
        else:
            out.append("merge")
        out += obs(r, pid, 0.25)
    return Script(var, out)


def sma_random(r, pid, var, n, dense, port=False):
    P, Q = POOLS.get(var, (1 << 20, 128))
    out, h = [], 0
    nxt = lambda: r.choice([1, 7, 8, 9, 15, 16, 17])
    mode, left, big = "mix", 0, 0.3
    live = 0
    for _ in range(n):
        if left <= 0:
            mode = r.choice(["grow", "grow", "shrink", "mix", "churn"])
            left = r.randint(3, 30)
            big = r.choice([0.05, 0.3, 0.7])
        left -= 1
        x = r.random()
        g = {"grow": 0.8, "shrink": 0.2, "mix": 0.5, "churn": 0.5}[mode]
        if x < 0.06:
            out.append("merge")
        elif x < 0.06 + 0.94 * g:
            y = r.random()
            if port:
                b = r.choice([r.randint(1, 128), r.randint(1, 9000), r.randint(8000, 120000), r.randint(100000, 1 << 20), 8192]) if y > 0.5 else r.randint(4000, 60000)
            elif y < 0.05:
                b = r.choice([0, -1, -8, -2147483648, P, P + 1, P + 8, P - 7, 2147483647, 2147483641, 1 << 30])
            elif y < big:
                b = r.randint(max(1, Q - 9), max(2, min(P, 3 * Q + 16)))
            elif y < big + 0.1:
                b = r.choice([Q, Q + 1, Q - 1, Q + 8, P // 2, P // 3])
            else:
                b = r.choice([nxt(), r.randint(1, max(8, min(Q, P // 6)))])
            h += 1
            out.append("alloc %d %d" % (h, b))
            live += 1
        else:
            out.append("freenth %d" % (r.choice([0, r.randint(0, 99), 99])))
        out += obs(r, pid, dense)
    return Script(var, out)


MODES = {"C13": "1", "C14": "2", "C15": "3"}


def sma(ctx, pid):
    q = ctx.pick
    ms = [sma_model(ctx, "sma-6-2", 6, 2, 3, {1, 2, 3, 4}), sma_model(ctx, "sma-5-1", 5, 1, 4, {1, 2, 3}),
          sma_model(ctx, "sma-8-3", 8, 3, q(3, 4), q({1, 2, 3, 5}, {1, 2, 3, 4, 5, 8})),
          sma_model(ctx, "sma-6-1", 6, 1, q(4, 5), {1, 2}), sma_model(ctx, "sma-8-2", 8, 2, q(4, 6), {1, 2}),
          sma_model(ctx, "sma-6-3", 6, 3, q(3, 4), {1, 2, 3})]
    # 80q20 and 96q12 have a limit that is no multiple of the unit
    on = {"sma-6-2": ["64q16"], "sma-8-3": ["64q24"], "sma-6-1": ["48q8"], "sma-8-2": ["64q16", "80q20"], "sma-6-3": ["64q24"], "sma-5-1": ["48q8"]}

    def sc():
        r = ctx.rng(pid)
        out = []
        for m in ms:
            for w in walks(ctx, m, m.name, 1500):
                for v in on[m.name]:
                    out.append(sma_walk(r, pid, w, v))
        for v in POOLS:
            k, n = q((8, 80), (120, 200))
            for _ in range(k):
                out.append(sma_random(r, pid, v, n, 0.15))
            k, n = q((1, 500), (15, 1500))
            for _ in range(k):
                out.append(sma_random(r, pid, v, n, 0.02))
        return out
    md = MODES[pid]
    return ms, [Suite("sma", "sma.cpp", "PoolTrace", sc, [], asan=False, env={"MODE": md}, tenv={"MODE": md})]



# ---------------------------------------------------------------- C20
CM = ["cc", "ca", "mc", "ma"]


def c20(ctx):
    q = ctx.pick
    mods = {
        "vec": vec_model(ctx, "vector", M["vec"] + CM + ["rsf"], {1, 2}, 2, values={1}),
        "deq": deq_model(ctx, "deque", M["deq"] + CM, {1, 2}, 4, 2, values={1}),
        "sll": list_model(ctx, "singly", M["list"] + CM, {1, 2}, 2, False, 3),
        "dll": list_model(ctx, "doubly", M["list"] + CM, {1, 2}, 2, True, 3),
        "str": str_model(ctx, "string", M["str"] + CM + ["cat"], {1, 2}, 2, values={1}),
        "xs": xs_model(ctx, "xstack", M["xs"] + CM, {1, 2}, 3, "lt", values={1, 2}),
        "heap": heap_model(ctx, "heap", M["heap"] + CM, {1, 2}, 3, "lt", values={1, 2}),
        "bst": tree_model(ctx, "bst", False, M["bst"] + CM + ["era"], {1, 2}, {1, 2, 3}),
        "avl": tree_model(ctx, "avl", True, M["bst"] + CM + ["era"], {1, 2}, {1, 2, 3}),
        "map": tree_model(ctx, "map", True, M["map"] + CM + ["era"], {1, 2}, {1, 2}, vals={1, 2}),
        "uf": uf_model(ctx, "uf", {1, 2}, {1, 2}, M["uf"] + CM),
        "sma": sma_model(ctx, "sma-8-2", 8, 2, 4, {1, 2}),
    }
    B = 500
    w8 = {"del": 0.4, "cc": 1, "ca": 1, "mc": 1, "ma": 1, "clr": 0.3}

    def seq(sm, fams):
        def sc():
            r = ctx.rng("c20/%s" % sm)
            out, strs = [], []
            T = [("vec", "vec", ["vec.int", "vec.big"], VEC + CM + ["rsi", "seti"], "lt", {}),
                 ("sll", "sll", ["sll.int"], LST + CM, "lt", {}), ("dll", "dll", ["dll.int", "dll.big"], LST + CM, "lt", {}),
                 ("deq", "deq", ["deq2.int", "deq1.int", "deq.int", "deq3.big"], DEQ + CM, "lt", {}),
                 (None, "ad", ["que.int"], QUE + CM, "lt", {}), (None, "ad", ["stk.int", "stk.big"], STK + CM, "lt", {}),
                 ("xs", "xs", ["xmin.int"], XST + CM, "lt", {}), (None, "xs", ["xmax.int"], XST + CM, "gt", {}),
                 ("heap", "heap", ["heapmin.int", "heappq.int"], HEP + CM, "lt", {}), (None, "heap", ["heapmax.int"], HEP + CM, "gt", {})]
            for mo, fam, vs, voc, kind, kw in T:
                if fam not in fams:
                    continue
                if mo:
                    out += walk_scripts(r, walks(ctx, mods[mo], mo + sm, B), vs[:1])
                for v in vs:
                    out += rnd(ctx, "r" + sm, v, voc, (4, 60), (60, 80), slots=(1, 2, 3), maxlen=20, kind=kind, w=w8, **kw)
                    if sm == "sma":   # a 1M pool: long histories, large contents
                        out += rnd(ctx, "L" + sm, v, voc, (1, 400), (8, 2500), slots=(1, 2), kind=kind, phase=200, fill=80,
                                   w={"del": 0.05, "clr": 0.05})
            if sm == "sma":   # the window moves on, the pool must not run dry
                if "deq" in fams:
                    out += wheel(r, ["deq2.int", "deq.int"], ["bpb", "bpf", "slide", "slideb", "churn"], 2000, [0, 1, 3, 30], 3)
                if "ad" in fams:
                    out += wheel(r, ["que.int"], ["bpb", "slide"], 2000, [0, 1, 3, 30], 4) + wheel(r, ["stk.int"], ["bpb", "churn"], 2000, [0, 1, 30], 2)
                for fam, v in (("sll", "sll.int"), ("dll", "dll.int")):
                    if fam in fams:
                        out += wheel(r, [v], ["bpb", "bpf", "slide"], 1000, [0, 1, 3, 30], 2)
            if "vec" in fams:
                strs += [Script("str", L) for L in chars(r, walks(ctx, mods["str"], "str" + sm, B))]
                V = ["new", "newl", "del", "pb", "apc", "as", "set", "clr", "aps", "cat", "ncat", "catc", "ccat", "eqc"]
                strs += rnd(ctx, "r" + sm, "str", V + CM, (6, 60), (60, 100), slots=(1, 2, 3), charset=CHARS, negset=False, w=w8, maxlen=90)
            return thin(out + strs, 3)
        return sc

    def ordv(sm):
        def sc():
            out = []
            T = ["new", "del", "ins", "rem", "era", "clr", "find"] + CM
            for fam, voc in (("bst", T + ["newr", "insdup"]), ("avl", T),
                             ("map", ["new", "del", "insm", "put", "get", "cget", "rem", "era", "clr"] + CM)):
                if sm == "sm" and fam != "bst":
                    continue
                out += owalks(ctx, mods[fam], fam + sm, B, [fam + ".int"], "lt", 1)
                for v, k in [(fam + ".int", "lt"), (fam + ".int", "gt"), (fam + ".int", "un")]:
                    kw = dict(keys=range(0, 100) if k == "un" else range(0, 24))
                    out += rord(ctx, "r" + sm, v, voc, (4, 60), (60, 100), k, slots=(1, 2, 3), w=w8, maxn=14 if sm == "sm" else 10 ** 9, **kw)
            return thin(out, 4)
        return sc

    def uf(sm):
        def sc():
            out = [Script("uf", [line(e["op"], e["o"], *e["a"]) for e in x]) for x in walks(ctx, mods["uf"], "uf" + sm, B)]
            return thin(out + uf_scripts(ctx.rng("u" + sm), q(8, 120), 60, 8, slots=(1, 2, 3), multi=CM), 3)
        return sc

    def port():
        r = ctx.rng("port")
        out = []
        for w in walks(ctx, mods["sma"], "port", q(600, 20000)):   # one unit of the model: a seventh of the pool and a little
            L = []
            for e in w:
                if e["op"] == "alloc":
                    L.append("alloc %d %d" % (e["o"], 131072 * (e["a"][0] - 1) + r.choice([131072, 131065, r.randint(1, 131072)])))
                elif e["op"] == "free":
                    L.append("free %d" % e["o"])
                elif r.random() < 0.2:
                    L.append("merge")
            out.append(Script("port", L))
        for _ in range(q(10, 120)):
            out.append(sma_random(r, "C20", "port", q(120, 300), 0, port=True))
        return out
    out = []
    for sm, d in (("sm", "SM"), ("sma", "ENABLE_SMA")):
        for nm, fams, fam in (("a", ["vec", "sll", "dll"], 3), ("b", ["deq", "ad"], 12), ("c", ["xs", "heap"], 48)):
            out.append(Suite("%s-%s" % (sm, nm), "seq.cpp", "SeqTrace", seq(sm, fams), [d, "INTONLY", "COUNT_LIBC", "FAM=%d" % fam]))
        out.append(Suite(sm + "-ord", "ord.cpp", "OrdTrace", ordv(sm), [d, "INTONLY", "COUNT_LIBC", "FAM=7"]))
        out.append(Suite(sm + "-uf", "uf.cpp", "UFTrace", uf(sm), [d, "COUNT_LIBC"]))
    # containers inside containers: every level of them lives in the pool
    def nseq(fams):
        def sc():
            o = []
            for fam, vs, voc, k in (("vec", ["vec"], VEC, "lt"), ("vec", ["sll", "dll"], LST, "lt"), ("deq", ["deq2", "deq"], DEQ, "lt"), ("deq", ["que"], QUE, "lt"),
                                    ("deq", ["stk"], STK, "lt"), ("xs", ["xmin"], XST, "lt"), ("xs", ["xmax"], XST, "gt"), ("xs", ["heapmin"], HEP, "lt"), ("xs", ["heapmax"], HEP, "gt")):
                if fam in fams:
                    for v in vs:
                        o += rnd(ctx, "nest", v + ".nest", voc + CM, (3, 60), (40, 100), slots=(1, 2, 3), kind=k, w=w8, maxlen=60)
                        o += rnd(ctx, "nestl", v + ".nest", voc + CM, (1, 250), (6, 1500), slots=(1, 2), kind=k, w={"del": 0.05, "clr": 0.05}, phase=80, fill=30)
            return thin(o, 4)
        return sc

    def nord():
        T = ["new", "del", "ins", "rem", "era", "clr", "find"] + CM
        o = ordx(ctx, [("bst", "lt"), ("bst", "gt")], T, ("nest", "str"), q=(2, 60), slots=(1, 2, 3), w=w8) + ordx(ctx, [("avl", "lt")], T, ("nest", "str"), q=(2, 60), slots=(1, 2, 3), w=w8)
        o += ordx(ctx, [("map", "lt"), ("map", "gt")], ["new", "del", "insm", "put", "get", "cget", "rem", "era", "clr"] + CM, ("nest", "shortnest", "ptrstr", "strdbl"), q=(2, 60), slots=(1, 2, 3), w=w8)
        return thin(o, 4)
    for nm, fams, fam in (("a", ["vec"], 3), ("b", ["deq"], 12), ("c", ["xs"], 48)):
        out.append(Suite("nest-" + nm, "seq.cpp", "SeqTrace", nseq(fams), ["ENABLE_SMA", "ELX", "NESTONLY", "COUNT_LIBC", "FAM=%d" % fam]))
    out.append(Suite("nest-ord", "ord.cpp", "OrdTrace", nord, ["ENABLE_SMA", "ELX", "NESTONLY", "COUNT_LIBC", "FAM=7"]))
    out.append(Suite("port", "sma.cpp", "PoolTrace", port, ["ENABLE_SMA"], asan=False, env={"MODE": "4"}, tenv={"MODE": "4"}))
    return list(mods.values()), out


# ---------------------------------------------------------------- C22
FWD = ["b", "e", "inc", "pinc", "get", "cp", "as", "mv", "mas", "eq", "each"]
BID = ["dec", "pdec"]
RAN = ["add", "sub"]
# capability class: container kind, operations
ICLS = {
    "vec": ("seq", ["new", "pb", "popb", "clr", "rs", "wr", "eachw", "dist", "fnd"] + FWD + BID + RAN),
    "cvec": ("seq", ["new", "pb", "popb", "clr", "rs", "dist", "fnd"] + FWD + BID + RAN),
    "str": ("seq", ["new", "pb", "wr", "dist", "fnd"] + FWD + BID + RAN),
    "cstr": ("seq", ["new", "pb", "dist", "fnd"] + FWD + BID + RAN),
    "arr7": ("seq", ["new", "fill", "wr", "eachw", "dist", "fnd"] + FWD + BID + RAN),
    "carr7": ("seq", ["new", "fill", "dist", "fnd"] + FWD + BID + RAN),
    "sll": ("seq", ["new", "pb", "pf", "popf", "clr", "wr", "eachw", "fnd"] + FWD),
    "csll": ("seq", ["new", "pb", "pf", "popf", "clr", "fnd"] + FWD),
    "dll": ("seq", ["new", "pb", "pf", "popf", "popb", "clr", "wr", "eachw", "fnd"] + FWD + BID),
    "cdll": ("seq", ["new", "pb", "pf", "popf", "popb", "clr", "fnd"] + FWD + BID),
    "deq": ("seq", ["new", "pb", "pf", "popf", "popb", "clr", "fnd"] + FWD + BID + RAN),
    "que": ("seq", ["new", "pb", "popf", "fnd"] + FWD + BID + RAN),
    "stk": ("seq", ["new", "pb", "popb", "fnd"] + FWD + BID + RAN),
    "xs": ("seq", ["new", "pb", "popb", "fnd"] + FWD),
    "heap": ("bag", ["new", "pb", "poph", "dist", "fnd"] + FWD + BID + RAN),
    "tree": ("set", ["new", "ins", "rem", "clr", "fnd"] + FWD),
    "ptree": ("bag", ["new", "ins", "rem", "fnd"] + FWD),
    "map": ("set", ["new", "ins", "rem", "clr"] + FWD),
}
IVAR = {"vec": ["vec"], "cvec": ["cvec"], "arr7": ["arr7"], "carr7": ["carr7"], "sll": ["sll"], "csll": ["csll"], "dll": ["dll"],
        "cdll": ["cdll"], "deq": ["deq", "deq1", "deq2", "deq3", "deq32", "deqa1", "deqa2", "dequ2", "deqa4"], "que": ["que"], "stk": ["stk"], "xs": ["xmin", "xmax"],
        "heap": ["heap"], "tree": ["bst", "avl"], "ptree": ["bstpre", "bstpost", "avlpre", "avlpost"], "map": ["map", "cmap"],
        "str": ["str"], "cstr": ["cstr"]}
IFAM = {1: ["vec", "cvec", "str", "cstr", "arr7", "carr7", "sll", "csll", "dll", "cdll"], 2: ["deq", "que", "stk"],
        4: ["xs", "heap", "tree", "ptree", "map"]}


def iter_line(e):
    return " ".join([e["op"]] + [str(x) for x in e["a"]])


class IterSim:
    """random histories of one container and three iterators"""

    def __init__(self, r, cls, lo, hi):
        self.r, self.k, self.ops = r, ICLS[cls][0], ICLS[cls][1]
        self.cls, self.lo, self.hi = cls, lo, hi
        self.s, self.h, self.live = [], [None] * 4, False
        self.out = []

    def emit(self, *a):
        self.out.append(" ".join(str(x) for x in a))

    def val(self):
        return self.r.choice(self.s) if self.s and self.r.random() < 0.4 else self.r.randint(self.lo, self.hi)

    def build(self, op):
        r, s = self.r, self.s
        if op in ("popb", "popf", "poph") and not s:
            return
        if op in ("pb", "pf", "ins", "rem"):
            v = self.val() if op != "rem" else (r.choice(s) if s and r.random() < 0.8 else self.val())
            if op == "ins" and v in s:
                return
            self.emit(op, v)
            if op == "pb":
                s.append(v)
            elif op == "pf":
                s.insert(0, v)
            elif op == "ins":
                s.append(v)
            elif v in s:
                s.remove(v)
        elif op == "fill":
            self.s = [self.r.randint(self.lo, self.lo + 4) for _ in range(7)]
            self.emit(op, *self.s)
        elif op == "rs":
            k = r.randint(0, len(s))
            self.emit(op, k)
            del s[k:]
        else:
            self.emit(op)
            if op == "popb":
                s.pop()
            elif op == "popf":
                s.pop(0)
            elif op == "poph":
                s.remove(min(s))
            elif op == "clr":
                s.clear()
        self.h = [None] * 4

    def step(self, op):
        r, n, h = self.r, len(self.s), self.h
        live = [i for i in (1, 2, 3) if h[i] is not None]
        x = r.choice([1, 2, 3])
        if op == "b" or op == "e" or not live:
            op = op if op in ("b", "e") else r.choice("be")
            h[x] = 0 if op == "b" else n
            return self.emit(op, x)
        y = r.choice(live)
        if op in ("inc", "pinc"):
            if h[y] < n:
                h[y] += 1
                self.emit(op, y)
        elif op in ("dec", "pdec"):
            if h[y] > 0:
                h[y] -= 1
                self.emit(op, y)
        elif op in ("add", "sub"):
            p = r.choice([0, n, r.randint(0, n), r.randint(0, n)])
            d = p - h[y] if op == "add" else h[y] - p
            h[x] = p
            self.emit(op, x, y, d)
        elif op == "cp":
            h[x] = h[y]
            self.emit(op, x, y)
        elif op in ("as", "mas", "mv"):
            if op != "mv" and h[x] is None or op != "as" and x == y:
                return
            h[x] = h[y]
            if op != "as":
                h[y] = None
            self.emit(op, x, y)
        elif op in ("eq", "dist"):
            self.emit(op, y, r.choice(live))
        elif op in ("get", "wr"):
            if h[y] < n:
                if op == "get":
                    self.emit(op, y)
                else:
                    v = self.val()
                    self.s[h[y]] = v
                    self.emit(op, y, v)
        else:
            z = r.choice(live)
            if h[y] > h[z]:
                y, z = z, y
            if op == "each":
                self.emit(op, y, z)
            elif op == "fnd":
                self.emit(op, y, z, self.val())
            elif op == "eachw":
                d = r.randint(-3, 3)
                for i in range(h[y], h[z]):
                    self.s[i] += d
                self.emit(op, y, z, d)

    def run(self, n, size):
        r = self.r
        self.emit("new")
        if self.cls in ("arr7", "carr7"):
            self.build("fill")
        builds = [o for o in self.ops if o in ("pb", "pf", "popb", "popf", "poph", "ins", "rem", "fill", "rs", "clr")]
        grow = [o for o in builds if o in ("pb", "pf", "ins", "fill")]
        shrink = [o for o in builds if o in ("popb", "popf", "poph", "rem")]
        steps = [o for o in self.ops if o not in builds and o != "new"]
        w = {"b": 0.7, "e": 0.7, "mv": 0.5, "mas": 0.5}
        while len(self.out) < n:
            for _ in range(r.randint(1, size)):
                x = r.random()
                self.build(r.choice(builds) if x < 0.05 else r.choice(grow if x < 0.65 or not shrink else shrink))
            for _ in range(r.randint(3, 40)):
                self.step(r.choices(steps, [w.get(o, 1) for o in steps])[0])
        return self.out


def c22(ctx):
    q = ctx.pick
    drop = {"rs", "fill", "wr", "eachw", "clr"}
    mods = {c: Model("iter-" + c, "IterMC", dict(K=ICLS[c][0], Values=S({1, 2}), MaxLen=q(3, 4), Ops=S(set(ICLS[c][1]) - drop), HU={1, 2}),
                     inv=["InRange", "Sorted", "Laws"], dump=True)
            for c in ("vec", "sll", "dll", "deq", "que", "stk", "xs", "heap", "tree", "ptree", "map")}
    same = {"cvec": "vec", "str": "vec", "cstr": "vec", "csll": "sll", "cdll": "dll"}
    mods["write"] = Model("iter-write", "IterMC", dict(K="seq", Values=S({1, 2}), MaxLen=3, Ops=S({"new", "pb", "b", "inc", "wr", "get", "each", "e", "fnd"}), HU={1, 2}),
                          inv=["InRange", "Laws"], dump=True)
    di = [Model("deque-iter-%d-%d" % (b, n), "DequeIter", dict(BS=b, NB=n, Places=S(pl)), inv=["Agree", "EqOK"], view=None)
          for b, n, pl in [(1, 4, {1, 2, 3, 4}), (2, 3, {1, 2, 3, 5}), (3, 2, {1, 2, 4})] + q([], [(2, 4, {1, 2, 3, 4, 6}), (4, 3, {1, 2, 3, 5}), (1, 6, {1, 2, 3, 4, 5, 7})])]

    def sc(fam):
        def f():
            r = ctx.rng("iter%d" % fam)
            out = []
            for c in IFAM[fam]:
                kind = ICLS[c][0]
                vs = [v + "." + t for v in IVAR[c] for t in ("int", "tok", "big")] if c not in ("str", "cstr") else IVAR[c]
                for wm in ([same.get(c, c)] if c not in ("arr7", "carr7") else []) + (["write"] if c in ("vec", "sll", "dll", "str") else []):
                    w = walks(ctx, mods[wm], "it%s%s" % (c, wm), q(1200, 30000))
                    for j, x in enumerate(w):
                        ls = [iter_line(e) for e in x if not (c in ("str", "cstr") and e["op"] in ("popb", "popf"))]
                        if c in ("str", "cstr") and any(e["op"] == "popb" for e in x):
                            continue
                        out.append(Script(vs[j % len(vs)], ls, kind))
                for v in vs:
                    char = c in ("str", "cstr")
                    for n, size, k in q([(120, 6, 5), (300, 60, 1)], [(120, 6, 40), (400, 60, 6), (3000, 300, 1)]):
                        for _ in range(k * (3 if char else 1)):
                            lo, hi = (1, 120) if char else (-9, 9) if r.random() < 0.5 else (-1000, 1000)
                            out.append(Script(v, IterSim(r, c, lo, hi).run(n, size), kind))
            return out
        return f
    return list(mods.values()) + di, [Suite("iter-%d" % f, "iter.cpp", "IterTrace", sc(f), ["FAM=%d" % f]) for f in IFAM]


PLANS = {p: (lambda ctx, p=p: sma(ctx, p)) for p in MODES}
PLANS["C20"] = c20
PLANS["C22"] = c22


# ---------------------------------------------------------------- C24
def ring_random(r, n, nn=8):
    lists, out = [], []          # [ring?, [nodes]]
    where = lambda x: next((t for t in lists if x in t[1]), None)
    for _ in range(40 * n):          # all nodes in one-element chains: nothing is left to do
        if len(out) >= n:
            break
        op = r.choices(["init", "zero", "add", "del", "empty"], [1, 0.7, r.choice([2, 8]), r.choice([2, 6]), 2])[0]
        x = r.randint(1, nn)
        t = where(x)
        if op == "init" and (t is None or t == [True, [x]]):
            if t is None:
                lists.append([True, [x]])
        elif op == "zero" and t is None:
            lists.append([False, [x]])
        elif op == "add" and t is None and lists:
            u = r.choice(lists)
            i = r.randrange(len(u[1]))
            out.append("add %d %d" % (u[1][i], x))
            u[1].insert(i + 1, x)
            continue
        elif op == "del" and t is not None and len(t[1]) > 1:
            i = t[1].index(x)
            if i == 0 and not t[0]:
                continue
            out.append("del %d %d" % (t[1][i - 1], x))
            t[1].remove(x)
            continue
        elif op == "empty" and t is not None and t[0]:
            pass
        else:
            continue
        out.append("%s %d" % (op, x))
    return out


def rot_random(r, n, nn=8):
    L, R, P, root, out = {}, {}, {}, None, []
    while len(out) < n:
        if root is None:
            root = r.randint(1, nn)
            L, R, P = {root: 0}, {root: 0}, {root: 0}
            out.append("root %d" % root)
            continue
        op = r.choices(["al", "ar", "cut", "lrot", "rrot"], [2, 2, 1, 4, 4])[0]
        x = r.choice(sorted(L))
        free = [y for y in range(1, nn + 1) if y not in L]
        if op in ("al", "ar"):
            C = L if op == "al" else R
            if C[x] or not free:
                continue
            y = r.choice(free)
            C[x] = y
            L[y] = R[y] = 0
            P[y] = x
            out.append("%s %d %d" % (op, x, y))
            continue
        if op == "cut":
            if L[x] or R[x] or x == root:
                continue
            p = P[x]
            if L[p] == x:
                L[p] = 0
            else:
                R[p] = 0
            for D in (L, R, P):
                del D[x]
        else:
            A, B = (R, L) if op == "lrot" else (L, R)
            w = A[x]
            if not w:
                continue
            c, p = B[w], P[x]
            A[x], B[w], P[w], P[x] = c, x, p, w
            if c:
                P[c] = x
            if p == 0:
                root = w
            elif L[p] == x:
                L[p] = w
            else:
                R[p] = w
        out.append("%s %d" % (op, x))
    return out


def c24(ctx):
    q = ctx.pick
    LO = S({"init", "zero", "add", "del", "empty"})
    ns = S(range(1, q(4, 5) + 1))
    lm = Model("links", "LinkMC", dict(Nodes=ns, Ops=LO), inv=["Disjoint", "NoDup", "Mirror", "Inverse"], dump=True)
    rm = Model("rotations", "RotMC", dict(N=q(4, 5)), inv=["Mirror"], props=["KeepsOrder", "HeightStep"], dump=True)
    ms = [lm, rm]
    for d in (False, True):
        ms.append(Model("links-%s" % ("doubly" if d else "singly"), "LinkImpl", dict(Nodes=ns, Ops=LO, Doubly=d), inv=["BackLinks", "EmptyOK"], props=["Refines"]))
    ms.append(Model("tree-links", "TreeLinks", dict(N=q(5, 6)), inv=["ParentOK", "Successors"], props=["Refines"], workers=q(2, 6)))

    def sc():
        r = ctx.rng("links")
        out = []
        for v in ("ls", "ld", "ns.int", "nd.int", "ns.tok", "nd.tok", "ns.big", "nd.big", "ns.ll", "nd.ll"):
            for w in walks(ctx, lm, "ln" + v, q(2500, 60000)):
                out.append(Script(v, [iter_line(e) for e in w]))
            for _ in range(q(12, 200)):
                out.append(Script(v, ring_random(r, r.choice([40, 120]), r.choice([2, 3, 5, 8]))))
        for v in ("tr.int", "tr.tok", "tr.big", "tr.ll"):
            for w in walks(ctx, rm, "rt" + v, q(2500, 60000)):
                out.append(Script(v, [iter_line(e) for e in w]))
            for _ in range(q(20, 300)):
                out.append(Script(v, rot_random(r, r.choice([40, 120]))))
        return out
    ring = lambda: [s for s in sc() if not s.var.startswith("tr")]
    rot = lambda: [s for s in sc() if s.var.startswith("tr")]
    return ms, [Suite("rings", "links.cpp", "LinkTrace", ring), Suite("rotations", "links.cpp", "RotTrace", rot)]


PLANS["C24"] = c24


# ---------------------------------------------------------------- C26
NUMV = ["n." + x for x in ("int", "uint", "char", "schar", "uchar", "short", "ushort", "long", "ll", "ull", "float", "double")]
PTRV = ["p." + x for x in ("int", "cint", "char", "cchar", "tok", "ctok", "big", "dbl", "pp", "void")]
CLSV = ["c.tok", "c.big"]
BOXV = ["b." + x for x in ("vec", "vect", "str", "deq", "sll", "dll", "bst", "avl", "heap")]


def c26(ctx):
    q = ctx.pick
    sm = Model("swaps", "SwapMC", dict(NR=3, Vals=S({1, 2, 3})), props=["Exact"], dump=True)
    ms = [sm, Model("helpers", "HelpersMC", dict(K=q(4, 6), NR=3), inv=["PtrLaws", "Orders", "Bottom", "Values", "Permuted"])]

    def sc():
        r = ctx.rng("helpers")
        out = []
        for v in NUMV + PTRV + CLSV:
            K = 24 if v in PTRV else 60
            rk = list(range(0, K + 1)) if v in PTRV else list(range(-K, K + 1)) + [-99]
            pairs = [(x, y) for x in rk for y in rk]
            near = [(x, y) for x, y in pairs if abs(x - y) <= 1 or x == -y or 0 in (x, y) or -99 in (x, y)]
            pick = near + r.sample(pairs, q(250, len(pairs)) if len(pairs) > q(250, 0) else len(pairs))
            ops = ["ord %d %d" % p for p in pick]
            if v not in PTRV:
                ops += ["max %d %d" % p for p in near + r.sample(pairs, 200)]
            if v in NUMV:
                ops += ["abs %d" % x for x in rk if x != -99]
            r.shuffle(ops)
            for i in range(0, len(ops), 400):
                out.append(Script(v, ops[i:i + 400]))
        for v in NUMV + PTRV + CLSV + BOXV:
            for w in walks(ctx, sm, "sw" + v, q(400, 4000)):
                out.append(Script(v, [iter_line(e) for e in w]))
            for _ in range(q(3, 30)):
                ls = []
                for _ in range(60):
                    if r.random() < 0.4:
                        ls.append("set %d %d" % (r.randint(1, 3), r.choice([0, 1, r.randint(-60, 60), r.randint(1, 40)])))
                    else:
                        ls.append("swap %d %d" % (r.randint(1, 3), r.randint(1, 3)))
                out.append(Script(v, ls))
        return out
    return ms, [Suite("helpers", "helpers.cpp", "HelpersTrace", sc)]


PLANS["C26"] = c26
