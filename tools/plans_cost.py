"""What operations cost (C29): element copies, comparisons, allocations."""
from lib import Suite, Script
from gen import walk_scripts
from plans_seq import VEC, LST, DEQ, HEP, XST, CHARS, walks, rnd, vec_model, deq_model, list_model, heap_model, xs_model
from plans_ord import tree_model, owalks, rord, uf_scripts
from plans_mem import saw, CM


def waves(r, var, sizes, rounds, kind):
    """large contents in rising, falling and scattered order, taken out again in part, copied and handed over"""
    L, n = ["views 0", "new 1"], {1: 0, 2: None, 3: None}
    for _ in range(rounds):
        o = r.choice([p for p in n if n[p] is not None])
        x = r.random()
        if x < 0.45:
            k = r.choice(sizes)
            m = r.choice([1021, 4093])
            d = r.choice([1, m - 1, 7, 389, 0])
            L.append("bsc %d %d %d %d %d" % (o, k, r.randint(0, 50), d, m))
            n[o] += k
        elif x < 0.75 and n[o]:
            k = r.choice([n[o], n[o] // 2, r.randint(0, n[o]), 1])
            L.append("%s %d %d" % ("bpopx" if "heap" in var else "bpopb", o, k))
            n[o] -= k
        else:
            p = r.choice([1, 2, 3])
            if p == o:
                continue
            w = r.choice(["cc", "mc"] if n[p] is None else ["ca", "ma"])
            L.append("%s %d %d" % (w, p, o))
            n[p] = n[o]
            if w[0] == "m":
                n[o] = 0
    return Script(var, L, kind)


def forest(r, var, k, big, rounds):
    """large search trees: keys rising, falling, scattered, removed in part, searched for, copied and handed over"""
    L, n = ["views 0", "new 1"], {1: 0, 2: None, 3: None}
    for _ in range(rounds):
        o = r.choice([p for p in n if n[p] is not None])
        x = r.random()
        m = r.choice([big, big + 1, 2 * big + 1])
        d = r.choice([1, 1, m - 1, m - 1, 2, m // 2, 7, 89])
        c = r.choice([big, big // 2, r.randint(1, big)])
        if x < 0.4:
            L.append("bins %d %d %d %d %d" % (o, c, r.choice([0, 0, r.randint(0, big)]), d, m))
            n[o] = 1
        elif x < 0.6:
            L.append("brem %d %d %d %d %d" % (o, c, r.randint(0, big), d, m))
        elif x < 0.8:
            L.append("bfind %d %d %d %d %d" % (o, min(c, 200), r.randint(0, 2 * big), d, m))
        else:
            p = r.choice([1, 2, 3])
            if p == o:
                continue
            w = r.choice(["cc", "mc"] if n[p] is None else ["ca", "ma"])
            L.append("%s %d %d" % (w, p, o))
            n[p] = n[o]
    for o in n:
        if n[o] is not None:
            L.append("bfind %d 200 0 %d %d" % (o, max(1, big // 100), big))
    return Script(var, L, k)


def edge(r, var, push, pop, kind):
    """a few insertions and removals in turn, again and again, wherever growth or shrinkage has just happened or is about to"""
    L, n = ["views 0", "new 1"], r.choice([256, 512, 1024, 2048, r.randint(100, 2500)]) + r.choice([-2, -1, 0, 1, 2])
    L.append("%s 1 %d 0" % (push, n))
    if r.random() < 0.7:
        m = r.choice([n // 2, n // 3, n // 4, (2 * n) // 3, n // 6, r.randint(2, n)]) + r.choice([-2, -1, 0, 1, 2])
        m = min(max(m, 8), n)
        L.append("%s 1 %d" % (pop, n - m))
    for d in (1, 2, 3, 7):
        up, down = "%s 1 %d 5" % (push, d), "%s 1 %d" % (pop, d)
        L += ([up, down] if r.random() < 0.5 else [down, up]) * 50
    return Script(var, L, kind)


def c29(ctx):
    q = ctx.pick
    mods = {
        "vec": vec_model(ctx, "vector", ["new", "newn", "del", "pb", "popb", "clr"], {1}, q(20, 40), values={1}, bounded=True),
        "vec2": vec_model(ctx, "vector-2", ["new", "newn", "pb", "pbi", "popb", "rs", "rsf"] + CM, {1, 2}, q(3, 4), values={1}),
        "deq1": deq_model(ctx, "deque-1", DEQ, {1}, q(12, 20), 1, values={1}),
        "deq2": deq_model(ctx, "deque-2", DEQ, {1}, q(16, 24), 2, values={1}),
        "deq3": deq_model(ctx, "deque-3", DEQ, {1}, q(20, 28), 3, values={1}),
        "sll": list_model(ctx, "singly", LST, {1}, 3, False, 3),
        "dll": list_model(ctx, "doubly", LST, {1}, 3, True, 3),
        "heap": heap_model(ctx, "heap", HEP, {1}, q(6, 8), "lt", values={1, 2, 3}),
        "xs": xs_model(ctx, "xstack", XST, {1}, 4, "lt"),
        "avl": tree_model(ctx, "avl", True, ["new", "ins", "rem", "era"], {1}, set(range(1, q(8, 9)))),
    }
    for m in ("vec", "vec2", "deq1", "deq2", "deq3"):
        mods[m].props = mods[m].props + ["Amortised"]
    mods["heap"].inv = mods["heap"].inv + ["Quick"]
    mods["avl"].inv = mods["avl"].inv + ["Shallow"]
    algo = heap_model(ctx, "heap-build", [], {1}, q(6, 8), "lt", values={1, 2, 3}, dump=False)
    algo.inv, algo.props, algo.init = ["QuickBuild"], [], "SpecA"
    N = q(1, 12)
    big = q(3000, 12000)

    def seq(fams):
        def sc():
            r = ctx.rng("c29/%s" % fams[0])
            out = []
            both = ("bpb", "bpf", "bpopb", "bpopf", "slide", "slideb", "churn")
            for fam, v, ops in (("vec", "vec", ("bpb", "bpopb", "churn")), ("deq", "deq1", both), ("deq", "deq2", both), ("deq", "deq3", both),
                                ("deq", "deq", both), ("ad", "que", ("bpb", "bpopf", "slide")), ("ad", "que1", ("bpb", "bpopf", "slide")),
                                ("ad", "stk", ("bpb", "bpopb", "churn")), ("ad", "stkd", ("bpb", "bpopb", "churn")), ("ad", "stkl", ("bpb", "bpopb", "churn")),
                                ("list", "sll", both + ("slow",)), ("list", "dll", both), ("ad", "quel", ("bpb", "bpopf", "slide")),
                                ("xs", "xmin", ("bpb", "bpopb", "churn")), ("xs", "xmax", ("bpb", "bpopb", "churn"))):
                if fam not in fams:
                    continue
                k = "gt" if v == "xmax" else "lt"
                for _ in range(3 * N):
                    s = saw(r, v + ".led", 0, ops, 300 if "slow" in ops else big)
                    s.kind = k
                    out.append(s)
                if fam in ("vec", "deq", "ad", "xs"):
                    out += [edge(r, v + ".led", r.choice([x for x in ("bpb", "bpf") if x in ops]), r.choice([x for x in ("bpopb", "bpopf") if x in ops]), k)
                            for _ in range(12 * N if v in ("vec", "deq2", "deq") else 4 * N)]
                if "slow" not in ops:
                    B = "bpopb" if "bpopb" in ops else "bpopf"
                    out.append(Script(v + ".led", ["views 0", "new 1", "bpb 1 20000 0", "cc 2 1", "mc 3 2", "%s 1 19990" % B, "bpb 1 20000 5", "ma 1 3", "%s 1 20000" % B], k))
                    if "bpf" in ops:
                        out.append(Script(v + ".led", ["views 0", "new 1", "bpf 1 20000 0", "mc 3 1", "bpopf 3 19990", "bpb 3 20000 5"], k))
                # a queue or stack worked at a constant length, at every length around the powers of two
                w = [x for x in ("slide", "slideb", "churn") if x in ops and not ("slow" in ops and x != "slide")]
                L = ["views 0", "new 1"]
                have = 0
                for n in sorted(set([0, 1, 2, 3, 5, 9, 10, 11, 21, 22, 37] + [p + d for p in (16, 32, 64, 128) for d in (-1, 0, 1)] + [r.randint(0, 300) for _ in range(10)])):
                    L += ["bpb 1 %d 0" % (n - have)] + ["%s 1 300 7" % x for x in w]
                    have = n
                while have > 0:
                    d = min(have, r.choice([1, 2, 7, 40]))
                    L += ["%s 1 %d" % ("bpopb" if "bpopb" in ops and "slow" not in ops else "bpopf", d)] + ["%s 1 200 7" % x for x in w]
                    have -= d
                out.append(Script(v + ".led", L, k))
                if v in ("vec", "deq2", "deq", "sll", "dll"):
                    voc = {"vec": VEC, "sll": LST, "dll": LST}.get(v, DEQ)
                    out.extend(rnd(ctx, "r", v + ".led", voc + CM, (4, 60), (60, 120), slots=(1, 2, 3), views=False))
                    out.extend(rnd(ctx, "s", v + ".led", voc, (2, 100), (20, 800), w={"del": 0.05, "clr": 0.1}, views=False, phase=150, fill=12))
            quiet = lambda mo, vs: [Script(s.var, ["views 0"] + [l for l in s.lines if not l.startswith("view")], s.kind, 0)
                                    for s in walk_scripts(r, walks(ctx, mods[mo], mo, 800), vs)]
            if "vec" in fams:
                out += quiet("vec", ["vec.led"]) + quiet("vec2", ["vec.led"])
                V = ["new", "newl", "del", "pb", "apc", "as", "set", "clr", "aps", "cat", "ncat", "catc", "ccat", "apown", "asown"]
                out.extend(rnd(ctx, "r", "str", V + CM, (4, 40), (60, 200), slots=(1, 2, 3), charset=CHARS, negset=False, maxlen=600, textlen=60, views=False))
                for n in (1, 100, 1000, 20000):
                    out.append(Script("str", ["views 0", "new 1", "bsc 1 %d 97 7 26" % n, "cc 2 1", "bsc 2 %d 97 3 26" % n, "mc 3 2", "bsc 3 %d 97 1 20" % n]))
            if "deq" in fams:
                out += quiet("deq1", ["deq1.led"]) + quiet("deq2", ["deq2.led"]) + quiet("deq3", ["deq3.led"])
            if "list" in fams:
                out += quiet("sll", ["sll.led"]) + quiet("dll", ["dll.led"])
            if "xs" in fams:
                out += quiet("xs", ["xmin.led"])
                for v, k in (("xmin", "lt"), ("xmax", "gt")):
                    out += [waves(r, v + ".led", [1, 30, 500, big], 14, k) for _ in range(N)]
                for v, k in (("heapmin", "lt"), ("heapmax", "gt"), ("heappq", "lt")):
                    out += quiet("heap", [v + ".led"]) if v == "heapmin" else []
                    out += [waves(r, v + ".led", [1, 30, 500, 1023, 1024, big // 2], 16, k) for _ in range(2 * N)]
                    out.extend(rnd(ctx, "h", v + ".led", HEP, (1, 100), (80, 800), kind=k, views=False, phase=200, w={"del": 0.02}))
                for v in ("hamin.led", "hamax.led"):
                    for n in (0, 1, 2, 31, 32, 500, q(1500, 3000)):
                        for vals in ([i for i in range(n)], [n - i for i in range(n)], [r.randint(0, n) for _ in range(n)], [5] * n):
                            L = ["%s %s" % (op, " ".join(map(str, vals))) for op in ("sort", "build", "ctor")]
                            if n >= 31:
                                L.append("sortr 3 %d %s" % (n - 9, " ".join(map(str, vals))))
                            if n:
                                out.append(Script(v, L, "gt" if v == "hamax.led" else "lt"))
            return out
        return sc

    def ordv(fams):
        def sc():
            r = ctx.rng("c29/o/%s" % fams[0])
            out = []
            T = ["new", "del", "ins", "rem", "era", "clr", "find"] + CM
            for fam, voc in (("bst", T + ["newr", "insdup"]), ("avl", T), ("map", ["new", "del", "insm", "put", "get", "cget", "rem", "era", "clr", "find"] + CM)):
                if fam not in fams:
                    continue
                for k in ("lt", "gt"):
                    B = big if fam != "bst" else 300
                    out += [forest(r, fam + ".led", k, x, 14) for x in [B, 500, 100][:q(3, 3)] for _ in range(N)]
                    for d in (1, B - 1):       # rising and falling keys, then the halves removed from either end
                        out.append(Script(fam + ".led", ["views 0", "new 1", "bins 1 %d 0 %d %d" % (B, d, B), "bfind 1 200 0 7 %d" % B,
                                                         "brem 1 %d 0 1 %d" % (B // 2, B), "bfind 1 200 0 7 %d" % B, "brem 1 %d %d 1 %d" % (B // 2, B - B // 4, B),
                                                         "bfind 1 200 0 7 %d" % B, "bins 1 %d 0 %d %d" % (B, d, B), "brem 1 %d 0 2 %d" % (B // 2, B), "bfind 1 200 0 7 %d" % B], k, 1))
                    out += rord(ctx, "c29", fam + ".led", voc, (3, 80), (60, 150), k, slots=(1, 2, 3), w={"del": 0.4, "clr": 0.3}, views=False)
                    out += rord(ctx, "c29s", fam + ".led", voc, (2, 100), (40, 600), k, w={"del": 0.05, "clr": 0.05}, phase=80, keys=range(0, 200), views=False)
                if fam == "avl":
                    out += owalks(ctx, mods["avl"], "avl", 800, ["avl.led"], "lt", 1)
            for s in out:
                s.lines = ["views 0"] + [l for l in s.lines if not l.startswith("view")]
            return out
        return sc

    def uf():
        out = uf_scripts(ctx.rng("c29u"), q(10, 100), 60, 12, slots=(1, 2, 3), multi=CM, views=False)
        for n in (1, 1000, 20000):
            out.append(Script("uf", ["views 0", "new 1 %d" % n, "run 1 1 0 %d" % n, "cc 2 1", "mc 3 1", "ma 2 3", "ca 3 2", "ma 3 3", "find 2 %d" % (n - 1), "conn 3 0 %d" % (n - 1)]))
        for s in out:
            s.lines = [l for l in s.lines if l != "view"]
        return out

    def su(name, drv, spec, sc, fam):
        return Suite(name, drv, spec, sc, ["LED", "COST", "MEMONLY", "FAM=%d" % fam])
    return list(mods.values()) + [algo], [
        su("vecstr", "seq.cpp", "SeqCost", seq(["vec"]), 1), su("list", "seq.cpp", "SeqCost", seq(["list"]), 2),
        su("deq", "seq.cpp", "SeqCost", seq(["deq"]), 4), su("adapters", "seq.cpp", "SeqCost", seq(["ad"]), 8),
        su("xsheap", "seq.cpp", "SeqCost", seq(["xs"]), 48), su("bst", "ord.cpp", "OrdCost", ordv(["bst"]), 1), su("avlmap", "ord.cpp", "OrdCost", ordv(["avl", "map"]), 6), su("uf", "uf.cpp", "UFCost", uf, 1)]


PLANS = {"C29": c29}
