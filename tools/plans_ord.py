"""Plans for ordered containers and disjoint sets."""
from lib import Model, Suite, Script, line
from gen import walk_scripts, concretize
from plans_seq import walks, S

KEYS = {"lt": {1, 2, 3, 4, 5, 6, 7, 8}, "gt": {1, 2, 3, 4, 5, 6, 7, 8}, "un": {1, 2, 11, 12, 3, 4}}


def tree_model(ctx, name, avl, ops, slots, keys, kind="lt", vals={0}, dump=True):
    return Model(name, "TreeImpl", dict(Slots=S(slots), K=S(keys), Vals=S(vals), Kind=kind, Avl=avl, Ops=S(ops)),
                 inv=["TreeOK"], props=["Refines"], dump=dump)


def node_model(ctx, name, avl, keys, kind="lt", dup=False):
    """links, parents and cached heights, assignment by assignment"""
    return Model(name, "TreeNodes", dict(K=S(keys), Ops=S(["new", "ins", "rem", "era"] + (["insdup"] if dup else [])), Kind=kind, Avl=avl, Nodes=S(range(1, len(keys) + 1))),
                 inv=["NoBad", "Links", "NoLeak", "Ordered", "Search", "Balanced"], props=["Refines", "KeepNodes", "EraNext"])


def ord_mc(ctx, name, ops, slots, keys, kind="un", vals={0, 1}, dump=False):
    return Model(name, "OrdMC", dict(Slots=S(slots), K=S(keys), Vals=S(vals), Kind=kind, Ops=S(ops)),
                 inv=["Unique", "SortedOK"], props=["Local", "Absent", "LastWrite"], dump=dump)


class OrdSim:
    """random histories; tracks the associations so that every call respects its precondition"""

    def __init__(self, rng, vocab, kind="lt", slots=(1,), keys=range(0, 40), handles=(), maxn=10 ** 9):
        self.r, self.vocab, self.kind, self.slots = rng, list(vocab), kind, list(slots)
        self.keys, self.handles, self.maxn = list(keys), list(handles), maxn
        self.m = {o: None for o in slots}
        self.h = {h: None for h in handles}

    def cls(self, x):
        return x % 10 if self.kind == "un" else x

    def order(self):
        return (lambda c: -c) if self.kind == "gt" else (lambda c: c)

    def succ(self, m, c):
        f = self.order()
        l = sorted((d for d in m if f(d) > f(c)), key=f)
        return l[0] if l else None

    def dropkey(self, o, c):
        for h in self.h:
            if self.h[h] == (o, c):
                self.h[h] = None

    def dropobj(self, o):
        for h in self.h:
            if self.h[h] and self.h[h][0] == o:
                self.h[h] = None

    def make(self, op, o):
        r, m = self.r, self.m[o]
        live = m is not None
        oth = [p for p in self.slots if self.m[p] is not None]
        if op in ("new", "newr", "cc", "mc"):
            if live:
                return None
        elif not live:
            return None
        if op == "new":
            self.m[o] = {}
            return line(op, o)
        if op == "newr":
            ks = [r.choice(self.keys) for _ in range(r.randint(0, 12))]
            self.m[o] = {}
            for k in ks:
                self.m[o].setdefault(self.cls(k), k)
            return line(op, o, *ks)
        if op == "del":
            self.m[o] = None
            self.dropobj(o)
            return line(op, o)
        if op in ("cc", "ca", "mc", "ma"):
            if not oth:
                return None
            p = r.choice(oth)
            if p == o:
                return line(op, o, p)
            self.dropobj(o)
            if op in ("mc", "ma"):
                for h in self.h:
                    if self.h[h] and self.h[h][0] == p:
                        self.h[h] = (o, self.h[h][1])
                self.m[o], self.m[p] = self.m[p], {}
            else:
                self.m[o] = dict(self.m[p])
            return line(op, o, p)
        if op == "clr":
            self.m[o] = {}
            self.dropobj(o)
            return line(op, o)
        present = list(m)
        if op in ("ins", "insm"):
            k = r.choice(self.keys)
            if self.cls(k) in m or len(m) >= self.maxn:
                return None
            m[self.cls(k)] = k
            return line("ins", o, k, *([r.randint(0, 99)] if op == "insm" else []))
        if op in ("put", "get"):
            k = r.choice(self.keys)
            if self.cls(k) not in m and len(m) >= self.maxn:
                return None
            m.setdefault(self.cls(k), k)
            return line(op, o, k, *([r.randint(0, 99)] if op == "put" else []))
        if op in ("rem", "find"):
            k = r.choice(self.keys) if (not present or r.random() < 0.35) else self.like(m[r.choice(present)])
            if op == "rem" and self.cls(k) in m:
                del m[self.cls(k)]
                self.dropkey(o, self.cls(k))
            return line(op, o, k)
        if op == "remx":    # mostly absent removals
            k = r.choice(self.keys)
            if self.cls(k) in m:
                del m[self.cls(k)]
                self.dropkey(o, self.cls(k))
            return line("rem", o, k)
        if op in ("at", "step", "erah", "rdr", "wrr"):
            hs = [h for h in self.h if self.h[h] and self.h[h][0] == o]
            if not hs:
                return None
            h = r.choice(hs)
            c = self.h[h][1]
            n = self.succ(m, c)
            if op == "step":
                self.h[h] = (o, n) if n is not None else None
            if op == "erah":
                del m[c]
                self.dropkey(o, c)
                self.h[h] = (o, n) if n is not None else None
            return line(op, o, h, *([r.randint(0, 99)] if op == "wrr" else []))
        if not present:
            return None
        c = r.choice(present)
        k = self.like(m[c])
        if op == "hold":
            h = r.choice(self.handles)
            self.h[h] = (o, c)
            return line(op, o, h, k)
        if op in ("insdup", "insown", "cget"):
            return line(op, o, k)
        if op == "putown":
            return line(op, o, k, r.randint(0, 99))
        if op == "putval":
            x = r.choice(self.keys)
            if self.cls(x) not in m and len(m) >= self.maxn:
                return None
            m.setdefault(self.cls(x), x)
            return line(op, o, x, k)
        if op in ("era", "remown"):
            del m[c]
            self.dropkey(o, c)
            return line(op, o, k)
        raise KeyError(op)

    def like(self, k):
        return k % 10 + 10 * self.r.randint(0, 9) if self.kind == "un" else k

    GROW = {"ins", "insm", "put", "get"}
    SHRINK = {"rem", "era", "remown", "erah"}

    def run(self, nops, w=None, phase=25):
        r, out, stall, left, mode = self.r, [], 0, 0, "mix"
        w = dict(w or {})
        while len(out) < nops:
            if left <= 0:
                mode, left = r.choice(["grow", "shrink", "mix", "grow"]), r.randint(3, phase)
            o = r.choice(self.slots)
            ws = []
            for op in self.vocab:
                x = w.get(op, 0.15 if op in ("del", "clr") else 0.6)
                if op in self.GROW:
                    x *= {"grow": 6, "shrink": 0.3, "mix": 2}[mode]
                elif op in self.SHRINK:
                    x *= {"grow": 0.2, "shrink": 5, "mix": 1.5}[mode]
                ws.append(x)
            l = self.make(r.choices(self.vocab, ws)[0], o)
            if l is None:
                stall += 1
                if stall > 3000:
                    break
                continue
            stall, left = 0, left - 1
            out.append(l)
        return out


def rord(ctx, tag, var, vocab, q, t, kind="lt", m=1, views=True, every=20, w=None, phase=25, **kw):
    c, n = ctx.pick(q, t)
    rng = ctx.rng("%s/%s/%s" % (tag, var, kind))
    if "keys" not in kw:
        kw["keys"] = range(0, 100) if kind == "un" else range(0, 30)
    out = []
    for _ in range(c):
        ls = OrdSim(rng, vocab, kind, **kw).run(n, w, phase)
        if not views:
            o = ["views 0"]
            for i, l in enumerate(ls):
                o.append(l)
                if i % every == every - 1:
                    o.append("view")
            ls = o + ["view"]
        out.append(Script(var, ls, kind, m))
    return out


def owalks(ctx, model, tag, budget, variants, kind, m=1, maxlen=60):
    """concrete walks; keys mapped order-preservingly (lt, gt), kept as they are for 'un'"""
    r = ctx.rng("ow/" + tag)
    out = []
    w = walks(ctx, model, tag, budget, maxlen)
    keys = set(model.consts["K"])
    for v in variants:
        for x in w:
            if kind == "un":
                out.append(Script(v, [line(e["op"], e["o"], *e["a"]) for e in x], kind, m))
            else:
                lo, hi = r.choice([(0, 12), (0, 1000), (0, 2000000000)]) if kind != "un" else (0, 0)
                out.append(Script(v, concretize(r, x, kind, lo=lo, hi=hi, values=keys), kind, m))
    return out


# element types of the -DELX builds; maps whose keys and values are of different types
ELT = ("nest", "self", "ptr", "chr", "dbl", "str")
ELM = ("nest", "self", "ptr", "chr", "dbl", "shortnest", "nestchr", "ptrstr", "chrself", "dblptr", "strdbl")


def ordx(ctx, names, vocab, els, q=(2, 60), t=(20, 120), tag="elx", m=0, big=True, **kw):
    out = []
    for n, k in names:
        for el in els:
            if k == "un" and el in ("str", "strdbl"):
                continue
            ks = range(0, 100) if k == "un" else range(0, 14)
            out += rord(ctx, tag + k, "%s.%s" % (n, el), vocab, q, t, k, m=m, keys=ks, **kw)
            if big:
                out += rord(ctx, tag + "l" + k, "%s.%s" % (n, el), vocab, (1, 150), (4, 800), k, m=m, views=False, phase=60,
                            keys=range(0, 200), w={"clr": 0.01, "del": 0.01}, handles=kw.get("handles", ()))
    return out


def filldrain(ctx, names, tag):
    """grow to a few hundred keys, shrink back to nothing, grow again"""
    out = []
    for v, k in names:
        r = ctx.rng("%s/%s/%s" % (tag, v, k))
        n = ctx.pick(300, 500 if names[0][0].startswith("map") else 1000)
        a = r.sample(range(4 * n), n)
        b = r.sample(a, n)
        L = ["views 0", "new 1"]
        for i, x in enumerate(a):
            L.append("put 1 %d %d" % (x, r.randint(0, 99)) if v.startswith("map") else "ins 1 %d" % x)
            if i % (n // 3) == n // 3 - 1:
                L.append("view")
        for i, x in enumerate(b):
            L.append("%s 1 %d" % (r.choice(["rem", "era"]), x))
            if i % (n // 3) == n // 3 - 1:
                L.append("view")
        L += ["view"] + ["ins 1 %d" % x for x in r.sample(a, 20)] + ["view"]
        out.append(Script(v, L, k, 0))
    return out


BSTV = ["new", "newr", "del", "ins", "insdup", "rem", "era", "find", "clr"]
BSTM = ["new", "del", "ins", "insdup", "rem", "era", "clr"]
AVLV = ["new", "del", "ins", "rem", "era", "find", "clr", "hold", "at", "step", "erah"]
AVLM = ["new", "del", "ins", "rem", "era", "clr"]
MAPV = ["new", "del", "insm", "put", "get", "cget", "rem", "era", "find", "clr"]
MAPM = ["new", "del", "ins", "put", "get", "cget", "rem", "era", "clr"]


def vast(ctx, tag, v, k, m=0):
    """far more keys than any narrow counter can count, and trees of some thousands grown and cut down in various orders"""
    r, out = ctx.rng("vast/%s/%s/%s" % (tag, v, k)), []
    bst = v.startswith("bst")
    for _ in range(ctx.pick(1, 4)):
        N = r.randint(66000, 72000)
        p = r.choice([72019, 74017, 75011])
        d = r.choice([26729, 27799, 28603])
        L = ["views 0", "new 1", "bins 1 %d 0 %d %d" % (N, d, p), "view", "bfind 1 300 0 %d %d" % (r.randint(1, 200), p),
             "brem 1 %d 0 %d %d" % (r.randint(N // 8, N // 3), r.choice([1, 7, 89, 26729]), p), "bfind 1 300 0 %d %d" % (r.randint(1, 200), p),
             "brem 1 %d 0 %d %d" % (N - r.randint(0, 400), d, p), "view"]
        L += ["ins 1 %d" % (p + 5 + i) for i in range(3)] + ["bins 1 700 %d 7 1009" % p if not bst else "view", "view"]
        out.append(Script(v, L, k, m))
    for n in ctx.pick((257, 600, 1500), (257, 600, 1500, 3000, 8000)):
        if bst and n > (600 if m else 1500):
            continue
        for d in (1, n - 1, r.choice([7, 89, 389])):
            L = ["views 0", "new 1"]
            for _ in range(3):
                L.append("bins 1 %d %d %d %d" % (n, r.randint(0, n), d, n))
                for _ in range(4):
                    L += ["brem 1 %d %d %d %d" % (r.randint(1, n // 2), r.randint(0, n), r.choice([1, n - 1, 2, 13]), n), "view",
                          "bins 1 %d %d %d %d" % (r.randint(1, n // 4), r.randint(0, n), r.choice([1, n - 1, 2, 13]), n)]
                L += ["view", "bfind 1 200 %d 11 %d" % (r.randint(0, n), 2 * n)]
            out.append(Script(v, L, k, m))
    return out


def c08(ctx):
    ms = {k: tree_model(ctx, "bst-" + k, False, BSTM, {1}, set(range(1, ctx.pick(6, 7))) if k != "un" else {1, 2, 11, 3}, k) for k in ("lt", "un")}
    ma = ord_mc(ctx, "set-laws", ["new", "del", "ins", "insdup", "rem", "era", "clr"], {1}, {1, 2, 11, 3, 4}, "un", {0})
    def sc():
        out = owalks(ctx, ms["lt"], "lt", 3500, ["bst.int"], "lt") + owalks(ctx, ms["lt"], "lt2", 1500, ["bst.tok"], "gt")
        out += owalks(ctx, ms["un"], "un", 1500, ["bst.int", "bstd.int"], "un")
        for v, k in (("bst.int", "lt"), ("bst.tok", "lt"), ("bst.int", "gt"), ("bstd.tok", "gt"), ("bst.int", "un"), ("bstd.tok", "un")):
            out += rord(ctx, "r", v, BSTV, (5, 60), (50, 120), k)
            out += filldrain(ctx, [(v, k)], "fd") if k != "un" else []
            out += rord(ctx, "l", v, BSTV, (1, 300), (6, 1200), k, views=False, phase=80, w={"clr": 0.01, "del": 0.01}, keys=range(0, 400))
        return out + vast(ctx, "c08", "bst.int", "lt")
    nm = [node_model(ctx, "bst-nodes", False, set(range(1, ctx.pick(7, 8))), "gt", True), node_model(ctx, "bst-nodes-un", False, {1, 2, 11, 3, 12, 4}, "un", True)]
    return list(ms.values()) + [ma] + nm, [Suite("bst", "ord.cpp", "OrdTrace", sc, ["FAM=1"]),
        Suite("bst-elx", "ord.cpp", "OrdTrace", lambda: ordx(ctx, [("bst", "lt"), ("bst", "gt"), ("bstd", "un")], BSTV, ELT), ["FAM=1", "ELX"])]


def c09(ctx):
    ms = {k: tree_model(ctx, "avl-" + k, True, AVLM, {1}, set(range(1, ctx.pick(7, 8))) if k != "un" else {1, 2, 11, 3, 4}, k) for k in ("lt", "un")}
    def sc():
        out = owalks(ctx, ms["lt"], "lt", 3500, ["avl.int"], "lt") + owalks(ctx, ms["lt"], "lt2", 1500, ["avl.tok"], "gt")
        out += owalks(ctx, ms["un"], "un", 1500, ["avl.int", "avld.int"], "un")
        for v, k in (("avl.int", "lt"), ("avl.tok", "lt"), ("avl.int", "gt"), ("avld.tok", "gt"), ("avl.int", "un"), ("avld.tok", "un")):
            out += rord(ctx, "r", v, AVLV, (5, 60), (50, 120), k, handles=(1, 2, 3))
            out += rord(ctx, "h", v, AVLV, (3, 60), (30, 120), k, handles=(1, 2, 3), keys=range(0, 10), w={"hold": 3, "at": 3, "step": 1, "erah": 1})
            out += filldrain(ctx, [(v, k)], "fd") if k != "un" else []
            out += rord(ctx, "l", v, AVLV, (1, 300), (6, 1200), k, views=False, phase=80, w={"clr": 0.01, "del": 0.01}, keys=range(0, 400), handles=(1, 2, 3))
        return out + vast(ctx, "c09", "avl.int", "lt")
    nm = [node_model(ctx, "avl-nodes", True, set(range(1, ctx.pick(9, 11))), "gt"), node_model(ctx, "avl-nodes-un", True, {1, 2, 11, 3, 12, 4}, "un")]
    return list(ms.values()) + nm, [Suite("avl", "ord.cpp", "OrdTrace", sc, ["FAM=2"]),
        Suite("avl-elx", "ord.cpp", "OrdTrace", lambda: ordx(ctx, [("avl", "lt"), ("avl", "gt"), ("avld", "un")], AVLV, ELT, handles=(1, 2, 3)), ["FAM=2", "ELX"])]


def c10(ctx):
    ms = {k: tree_model(ctx, "avl-" + k, True, AVLM, {1}, set(range(1, ctx.pick(8, 9))), k) for k in ("lt",)}
    OPS = ["new", "del", "ins", "rem", "era", "clr"]
    def sc():
        out = owalks(ctx, ms["lt"], "lt", 9000, ["avl.int"], "lt", 4, maxlen=40)
        for v, k in (("avl.int", "lt"), ("avl.int", "gt"), ("avld.int", "un"), ("avl.tok", "lt")):
            out += rord(ctx, "r", v, OPS, (6, 80), (60, 150), k, m=4)
            out += rord(ctx, "l", v, OPS, (2, 300), (10, 1500), k, m=4, views=False, every=8, phase=120, w={"clr": 0.004, "del": 0.004}, keys=range(0, 600))
        # one-sided growth and shrinkage
        r = ctx.rng("mono")
        for n in ctx.pick((40, 100), (40, 100, 400, 1500)):
            ks = list(range(n))
            for a in (ks, ks[::-1], r.sample(ks, n)):
                for b in (ks, ks[::-1], r.sample(ks, n)):
                    L = ["views 0", "new 1"]
                    for i, x in enumerate(a):
                        L.append("ins 1 %d" % x)
                        if i % max(1, n // 12) == 0:
                            L.append("view")
                    for i, x in enumerate(b):
                        L.append("%s 1 %d" % (r.choice(["rem", "era"]), x))
                        if i % max(1, n // 12) == 0:
                            L.append("view")
                    out.append(Script("avl.int", L, "lt", 4))
        return out + vast(ctx, "c10", "avl.int", "lt", 4)
    return list(ms.values()) + [node_model(ctx, "avl-nodes", True, set(range(1, ctx.pick(9, 12))))], [Suite("avl", "ord.cpp", "OrdTrace", sc, ["FAM=2"])]


def c11(ctx):
    ms = {k: tree_model(ctx, "map-" + k, True, MAPM, {1}, set(range(1, 5)) if k != "un" else {1, 2, 11}, k, {0, 1}) for k in ("lt", "un")}
    ma = ord_mc(ctx, "map-laws", MAPM, {1}, {1, 2, 11, 3}, "un", {0, 1})
    def sc():
        out = owalks(ctx, ms["lt"], "lt", 4000, ["map.int"], "lt") + owalks(ctx, ms["lt"], "lt2", 1500, ["map.tok"], "gt")
        out += owalks(ctx, ms["un"], "un", 1500, ["map.int"], "un")
        for v, k in (("map.int", "lt"), ("map.tok", "lt"), ("map.int", "gt"), ("map.tok", "un")):
            out += rord(ctx, "r", v, MAPV, (8, 60), (60, 120), k)
            out += filldrain(ctx, [(v, k)], "fd") if k != "un" else []
            out += rord(ctx, "l", v, MAPV, (1, 300), (6, 1200), k, views=False, phase=80, w={"clr": 0.01, "del": 0.01}, keys=range(0, 400))
        return out + vast(ctx, "c11", "map.int", "gt")
    return list(ms.values()) + [ma], [Suite("map", "ord.cpp", "OrdTrace", sc, ["FAM=4"]),
        Suite("map-elx", "ord.cpp", "OrdTrace", lambda: ordx(ctx, [("map", "lt"), ("map", "gt"), ("map", "un")], MAPV, ELM), ["FAM=4", "ELX"])]


def c21(ctx):
    mb = tree_model(ctx, "bst", False, ["new", "del", "ins", "rem"], {1}, set(range(1, ctx.pick(6, 7))))
    ma = tree_model(ctx, "avl", True, ["new", "del", "ins", "rem"], {1}, set(range(1, ctx.pick(7, 8))))
    def sc():
        r = ctx.rng("c21")
        out = owalks(ctx, mb, "b", 2500, ["bst.int"], "lt", 2) + owalks(ctx, ma, "a", 2500, ["avl.int"], "lt", 2)
        for v, k in (("bst.int", "lt"), ("bst.tok", "gt"), ("avl.int", "gt"), ("avl.tok", "lt"), ("bstd.int", "un"), ("avld.int", "un")):
            out += rord(ctx, "r", v, ["new", "del", "ins", "rem", "clr"], (6, 60), (60, 120), k, m=2)
            out += rord(ctx, "l", v, ["new", "ins", "rem"], (1, 200), (8, 800), k, m=2, views=False, every=40, phase=100, keys=range(0, 300))
        # degenerate and random trees of larger size
        for n in (1, 2, 3, 30, 120):
            for a in (list(range(n)), list(range(n))[::-1], [x for p in zip(range(n), range(2 * n, n, -1)) for x in p], r.sample(range(4 * n), n)):
                a = list(dict.fromkeys(a))
                for v in ("bst.int", "avl.int"):
                    out.append(Script(v, ["views 0", "new 1", "view"] + ["ins 1 %d" % x for x in a] + ["view"], "lt", 2))
        return out + vast(ctx, "c21", "avl.int", "lt", 2) + vast(ctx, "c21", "bst.int", "gt", 2)
    return [mb, ma], [Suite("trees", "ord.cpp", "OrdTrace", sc, ["FAM=3"])]


# ---------------------------------------------------------------- C12
def uf_model(ctx, name, n, slots={1}, ops=("new", "del", "con", "uni", "conn", "find"), dump=True):
    return Model(name, "UFImpl", dict(Slots=S(slots), N=S(n), Ops=S(ops)), inv=["Forest"], props=["RefAbs"], dump=dump)


def uf_scripts(rng, count, nops, nmax, ops=("con", "uni", "conn", "find"), slots=(1,), multi=(), views=True, var="uf"):
    out = []
    for _ in range(count):
        n = {o: None for o in slots}
        L = [] if views else ["views 0"]
        pat = rng.choice(["rand", "rand", "chain", "pair"])
        last = {}
        for i in range(nops):
            o = rng.choice(list(slots))
            if n[o] is None:
                live = [p for p in slots if n[p] is not None]
                c = [x for x in multi if x in ("cc", "mc")]
                if c and live and rng.random() < 0.6:
                    op, p = rng.choice(c), rng.choice(live)
                    n[o] = n[p]
                    if op == "mc":
                        n[p] = 0
                    L.append(line(op, o, p))
                else:
                    n[o] = rng.choice([1, 2, nmax, rng.randint(1, nmax)])
                    L.append(line("new", o, n[o]))
                continue
            if rng.random() < 0.02:
                n[o] = None
                L.append(line("del", o))
                continue
            a = [x for x in multi if x in ("ca", "ma")]
            if a and rng.random() < 0.12:
                live = [p for p in slots if n[p] is not None]
                op, p = rng.choice(a), rng.choice(live)
                if op == "ca":
                    n[o] = n[p]
                elif p != o:
                    n[o], n[p] = n[p], 0
                L.append(line(op, o, p))
                continue
            if not n[o]:
                if rng.random() < 0.3:
                    n[o] = None
                    L.append(line("del", o))
                continue
            op = rng.choice(list(ops))
            x, y = rng.randrange(n[o]), rng.randrange(n[o])
            if pat == "chain" and op in ("con", "uni"):
                x = last.get(o, 0) % n[o]
                y = (x + 1) % n[o]
                last[o] = y
                if rng.random() < 0.5:
                    x, y = y, x
            L.append(line(op, o, x, *([] if op == "find" else [y])))
            if not views and i % 15 == 14:
                L.append("view")
        if not views:
            L.append("view")
        out.append(Script(var, L, "lt", 0))
    return out


def c12(ctx):
    m1 = uf_model(ctx, "union-find", {1, 2, ctx.pick(4, 5)})
    m2 = Model("closure-law", "UFMC", dict(Slots=S({1}), N=S({ctx.pick(3, 4)}), Ops=S({"new", "con", "conn", "find"})),
               inv=["Closure", "CountLaw"], props=["Idle"], dump=False)
    def sc():
        w = walks(ctx, m1, "uf", 4000, 40)
        out = [Script("uf", [line(e["op"], e["o"], *e["a"]) for e in x], "lt", 0) for x in w]
        out += uf_scripts(ctx.rng("r"), ctx.pick(30, 400), 60, 8)
        out += uf_scripts(ctx.rng("b"), ctx.pick(6, 40), ctx.pick(200, 1000), ctx.pick(60, 300), views=False)
        # merge trees of equal rank, in both directions
        r = ctx.rng("tree")
        for lg in ctx.pick((3, 5), (3, 5, 7, 8)):
            n = 1 << lg
            for rev in (0, 1, 2):
                L = ["views 0", "new 1 %d" % n]
                s = 1
                while s < n:
                    for b in range(0, n, 2 * s):
                        x, y = b + r.randrange(s), b + s + r.randrange(s)
                        if rev == 1 or (rev == 2 and r.random() < 0.5):
                            x, y = y, x
                        L.append("con 1 %d %d" % (x, y))
                    L.append("view")
                    s *= 2
                out.append(Script("uf", L, "lt", 0))
        # far more elements than the call stack could follow one by one
        for mode in range(4):
            n = ctx.pick(120000, 400000)
            c = r.randint(n // 3, n // 2)
            L = ["views 0", "new 1 %d" % n, "run 1 %d 0 %d" % (mode, c), "view", "conn 1 0 %d" % (c - 1), "conn 1 0 %d" % c,
                 "run 1 %d %d %d" % (mode ^ 1, c, n - c), "find 1 %d" % (n - 1), "conn 1 %d %d" % (c - 1, c), "view",
                 "con 1 %d %d" % (c - 1, c), "conn 1 0 %d" % (n - 1), "find 1 0", "find 1 %d" % (n - 1), "view"]
            out.append(Script("uf", L, "lt", 0))
        return out
    return [m1, m2], [Suite("uf", "uf.cpp", "UFTrace", sc)]


PLANS = {"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C21": c21}
