"""Element and memory ledgers (C18, C19)."""
from lib import Model, Suite, Script, line
from gen import walk_scripts
from plans_seq import (S, VEC, LST, DEQ, QUE, STK, XST, HEP, CHARS, walks, rnd, chars, vec_model, deq_model, list_model, xs_model,
                       heap_model, str_model)
from plans_ord import tree_model, owalks, rord, uf_model, uf_scripts
from plans_val import M

CM = ["cc", "ca", "mc", "ma"]


def thin(scripts, every):
    """views only every so many operations"""
    out = []
    for s in scripts:
        L = ["views 0"]
        for i, l in enumerate(s.lines):
            if l.startswith("view"):
                continue
            L.append(l)
            if i % every == every - 1:
                L.append("view")
        out.append(Script(s.var, L + ["view"], s.kind, s.m))
    return out


def ledger(ctx, pid):
    q = ctx.pick
    mode = "1" if pid == "C18" else "2"
    mods = {
        "vec": vec_model(ctx, "vector", M["vec"] + CM + ["pbi", "rsf"], {1, 2}, q(2, 3), values={1}),
        "vec1": vec_model(ctx, "vector-1", VEC + ["pbi", "rsi"], {1}, q(4, 6), values={1}),
        "sll": list_model(ctx, "singly", M["list"] + CM, {1, 2}, 2, False, q(3, 4)),
        "dll": list_model(ctx, "doubly", M["list"] + CM, {1, 2}, 2, True, q(3, 4)),
        "deq": deq_model(ctx, "deque", M["deq"] + CM, {1, 2}, q(4, 6), 2, values={1}),
        "deq1": deq_model(ctx, "deque-1", DEQ, {1}, q(10, 14), 1, values={1}),
        "xs": xs_model(ctx, "xstack", M["xs"] + CM, {1, 2}, q(3, 4), "lt", values={1, 2}),
        "heap": heap_model(ctx, "heap", M["heap"] + CM, {1, 2}, q(3, 4), "lt", values={1, 2}),
        "bst": tree_model(ctx, "bst", False, M["bst"] + CM + ["era"], {1, 2}, {1, 2, 3}),
        "bst1": tree_model(ctx, "bst-1", False, ["new", "ins", "rem", "era"], {1}, set(range(1, q(6, 7)))),
        "avl": tree_model(ctx, "avl", True, M["bst"] + CM + ["era"], {1, 2}, {1, 2, 3}),
        "avl1": tree_model(ctx, "avl-1", True, ["new", "ins", "rem", "era"], {1}, set(range(1, q(7, 8)))),
        "map": tree_model(ctx, "map", True, M["map"] + CM + ["era"], {1, 2}, {1, 2}, vals={1, 2}),
    }
    if pid == "C19":
        mods["str"] = str_model(ctx, "string", M["str"] + CM + ["cat"], {1, 2}, q(2, 3), values={1})
        mods["uf"] = uf_model(ctx, "uf", {1, q(2, 3)}, {1, 2}, M["uf"] + CM)
    B = 1200
    w8 = {"del": 0.4, "cc": 1, "ca": 1, "mc": 1, "ma": 1, "clr": 0.3}

    def seq(fams):
        def sc():
            r = ctx.rng("led/%s" % "-".join(fams))
            out = []
            def both(models, names, vocab, **kw):
                for mo in models:
                    out.extend(walk_scripts(r, walks(ctx, mods[mo], mo, B), [names[0] + ".led"]))
                for n in names:
                    v = n + ".led"
                    out.extend(rnd(ctx, "r", v, vocab, (4, 50), (60, 100), slots=(1, 2, 3), w=w8, **kw))
                    out.extend(rnd(ctx, "s", v, vocab, (2, 80), (20, 300), w={"del": 0.05, "clr": 0.1}, phase=40, fill=12, **kw))
            if "vec" in fams:
                both(["vec", "vec1"], ["vec"], VEC + CM + ["pbi", "rsi", "seti"], maxlen=300)
                if pid == "C19":
                    out.extend(Script("str", L) for L in chars(r, walks(ctx, mods["str"], "str", B)))
                    V = ["new", "newl", "del", "pb", "apc", "as", "set", "clr", "aps", "cat", "ncat", "catc", "ccat", "apown", "asown", "eqc"]
                    out.extend(rnd(ctx, "r", "str", V + CM, (12, 60), (80, 120), slots=(1, 2, 3), charset=CHARS, negset=False, w=w8, maxlen=200))
            if "list" in fams:
                both(["sll"], ["sll"], LST + CM + ["pbi", "pfi"])
                both(["dll"], ["dll"], LST + CM + ["pbi", "pfi"])
            if "deq" in fams:
                both(["deq"], ["deq2"], DEQ + CM + ["pbi", "pfi"])
                both(["deq1"], ["deq1", "deq3", "deq"], DEQ + CM + ["pbi", "pfi"])
            if "ad" in fams:
                both([], ["que", "quel", "ques", "que1"], QUE + CM + ["pbi"])
                both([], ["stk", "stkd", "stkl"], STK + CM + ["pbi"])
            if "xs" in fams:
                both(["xs"], ["xmin"], XST + CM + ["pbi"])
                both([], ["xmax"], XST + CM + ["pbi"], kind="gt")
                both(["heap"], ["heapmin", "heappq"], HEP + CM + ["pbx"])
                both([], ["heapmax"], HEP + CM + ["pbx"], kind="gt")
            if "arr" in fams:
                for n in (1, 3, 32):
                    out.extend(rnd(ctx, "a", "arr%d.led" % n, ["newx", "del", "set", "setit", "seti", "cc", "ca"], (3, 40), (20, 120),
                                   slots=(1, 2, 3), fixed=n, m=n, w=w8))
            return thin(out, 4)
        return sc

    def ordv(fams):
        def sc():
            out = []
            T = ["new", "del", "ins", "rem", "era", "clr", "find", "remown"] + CM
            for fam, voc in (("bst", T + ["newr", "insdup", "insown"]), ("avl", T),
                             ("map", ["new", "del", "insm", "put", "get", "cget", "rem", "era", "clr", "putown", "putval", "remown"] + CM)):
                if fam not in fams:
                    continue
                for mo in (fam, fam + "1"):
                    if mo in mods:
                        out += owalks(ctx, mods[mo], mo, B, [fam + ".led"], "lt", 1)
                d = [] if fam == "map" else [(fam + "d.led", "un")]
                for v, k in [(fam + ".led", "lt"), (fam + ".led", "gt"), (fam + ".led", "un")] + d:
                    kw = dict(keys=range(0, 100) if k == "un" else range(0, 24))
                    out += rord(ctx, "r", v, voc, (4, 50), (60, 100), k, slots=(1, 2, 3), w=w8, **kw)
                    out += rord(ctx, "s", v, voc, (2, 80), (20, 300), k, w={"del": 0.05, "clr": 0.05}, phase=50, **kw)
            return thin(out, 5)
        return sc

    def uf():
        ws = walks(ctx, mods["uf"], "uf", B)
        out = [Script("uf", [line(e["op"], e["o"], *e["a"]) for e in x]) for x in ws]
        return thin(out + uf_scripts(ctx.rng("u"), q(12, 200), 60, 8, slots=(1, 2, 3), multi=CM), 4)

    def su(name, drv, spec, sc, fam):
        return Suite(name, drv, spec, sc, ["LED", "COUNT_LIBC", "FAM=%d" % fam], tenv={"MODE": mode})
    out = [su("vecstr", "seq.cpp", "SeqLedger", seq(["vec"]), 1), su("list", "seq.cpp", "SeqLedger", seq(["list"]), 2),
           su("deq", "seq.cpp", "SeqLedger", seq(["deq"]), 4), su("adapters", "seq.cpp", "SeqLedger", seq(["ad"]), 8),
           su("xsheap", "seq.cpp", "SeqLedger", seq(["xs"]), 48),
           su("bst", "ord.cpp", "OrdLedger", ordv(["bst"]), 1), su("avlmap", "ord.cpp", "OrdLedger", ordv(["avl", "map"]), 6)]
    if pid == "C18":
        out.append(su("arr", "seq.cpp", "SeqLedger", seq(["arr"]), 64))
    else:
        out.append(su("uf", "uf.cpp", "UFLedger", uf, 1))
    return list(mods.values()), out



# ---------------------------------------------------------------- C28
def saw(r, var, m, ops, big, rounds=8):
    """contents that come and go in large and small waves, long runs of a queue or stack of constant length, copies and moves"""
    L, n = ["views 0", "new 1"], {1: 0, 2: None, 3: None}
    push = [o for o in ("bpb", "bpf") if o in ops]
    pop = [o for o in ("bpopb", "bpopf") if o in ops]
    for _ in range(rounds):
        o = r.choice([p for p in n if n[p] is not None])
        x = r.random()
        if x < 0.3:
            k = r.choice([1, 2, 3, r.randint(1, 70), r.randint(1, big)])
            L.append("%s %d %d %d" % (r.choice(push), o, k, r.randint(0, 99)))
            n[o] += k
        elif x < 0.5 and n[o]:
            k = r.choice([n[o], n[o] - 1, n[o] // 2, n[o] - n[o] // 10, r.randint(0, n[o])])
            L.append("%s %d %d" % (r.choice(pop), o, k))
            n[o] -= k
        elif x < 0.75:
            c = [w for w in ("slide", "slideb", "churn") if w in ops]
            k = r.choice([r.randint(1, 100), r.randint(100, big), big])
            if "slow" in ops:      # the last element of a singly linked list is found by walking
                k = min(k, 200)
            L.append("%s %d %d %d" % (r.choice(c), o, k, r.randint(0, 99)))
        else:
            p = r.choice([1, 2, 3])
            w = r.choice(["cc", "mc"] if n[p] is None else ["ca", "ma", "ma"])
            if p == o or (w in ("cc", "ca") and n[o] > 3000):
                continue
            L.append("%s %d %d" % (w, p, o))
            n[p] = n[o]
            if w[0] == "m":
                n[o] = 0
            if r.random() < 0.3:
                L.append("del %d" % o)
                n[o] = None
    return Script(var, L + ["view"], "lt", m)


def c28(ctx):
    q = ctx.pick
    mods = {
        "vec": vec_model(ctx, "vector", ["new", "newn", "del", "pb", "popb", "clr"], {1}, q(20, 40), values={1}, bounded=True),
        "vec2": vec_model(ctx, "vector-2", ["new", "newn", "del", "pb", "popb", "rsf"] + CM, {1, 2}, q(3, 5), values={1}, bounded=True),
        "deq1": deq_model(ctx, "deque-1", DEQ, {1}, q(12, 20), 1, values={1}),
        "deq2": deq_model(ctx, "deque-2", DEQ, {1}, q(16, 24), 2, values={1}),
        "deq3": deq_model(ctx, "deque-3", DEQ, {1}, q(20, 28), 3, values={1}),
        "deqc": deq_model(ctx, "deque-c", M["deq"] + CM, {1, 2}, q(4, 6), 2, values={1}),
        "sll": list_model(ctx, "singly", M["list"] + CM, {1, 2}, 2, False, q(3, 4)),
        "dll": list_model(ctx, "doubly", M["list"] + CM, {1, 2}, 2, True, q(3, 4)),
    }
    N = q(2, 25)
    big = q(4000, 20000)

    def seq(fams):
        def sc():
            r = ctx.rng("c28/%s" % fams[0])
            out = []
            both = ("bpb", "bpf", "bpopb", "bpopf", "slide", "slideb", "churn")
            for fam, v, m, ops in (("vec", "vec", 0, ("bpb", "bpopb", "churn")), ("deq", "deq1", 1, both), ("deq", "deq2", 2, both), ("deq", "deq3", 3, both),
                                   ("deq", "deq", 32, both), ("ad", "que", 32, ("bpb", "bpopf", "slide")), ("ad", "que1", 1, ("bpb", "bpopf", "slide")),
                                   ("ad", "stk", 2, ("bpb", "bpopb", "churn")), ("ad", "stkd", 3, ("bpb", "bpopb", "churn")),
                                   ("list", "sll", -1, both + ("slow",)), ("list", "dll", -1, both), ("ad", "quel", -1, ("bpb", "bpopf", "slide")),
                                   ("xs", "xmin", 2, ("bpb", "bpopb", "churn")), ("xs", "xmax", 2, ("bpb", "bpopb", "churn"))):
                if fam in fams:
                    k = "gt" if v == "xmax" else "lt"
                    for _ in range(4 * N):
                        s = saw(r, v + ".led", m, ops, 300 if "slow" in ops else big)
                        s.kind = k
                        out.append(s)
                    # a queue or stack of constant length, worked for long
                    for n in (0, 1, 2, 5, 37):
                        for w in ("slide", "slideb", "churn"):
                            if w in ops and not ("slow" in ops and w != "slide"):
                                out.append(Script(v + ".led", ["views 0", "new 1", "bpb 1 %d 0" % n, "%s 1 %d 7" % (w, big), "view"], k, m))
                    if v in ("vec", "deq2", "deq", "sll", "dll", "deq3"):
                        voc = {"vec": VEC, "sll": LST, "dll": LST}.get(v, DEQ)
                        out.extend(rnd(ctx, "r", v + ".led", voc + CM, (6, 60), (80, 120), slots=(1, 2, 3), m=m, views=False))
                        out.extend(rnd(ctx, "s", v + ".led", voc, (3, 300), (30, 800), w={"del": 0.05, "clr": 0.1}, m=m, views=False, phase=150, fill=12))
            if "deq" in fams:
                for v, mo in (("deq1", "deq1"), ("deq2", "deq2"), ("deq3", "deq3"), ("deq2", "deqc")):
                    out += [Script(s.var, ["views 0"] + s.lines + ["view"], s.kind, int(v[3])) for s in walk_scripts(r, walks(ctx, mods[mo], mo, 1500), [v + ".led"])]
            if "list" in fams:
                for v in ("sll", "dll"):
                    out += [Script(s.var, ["views 0"] + s.lines + ["view"], s.kind, -1) for s in walk_scripts(r, walks(ctx, mods[v], v, 1000), [v + ".led"])]
            if "vec" in fams:
                for mo in ("vec", "vec2"):
                    out += [Script(s.var, ["views 0"] + s.lines + ["view"], s.kind, 0) for s in walk_scripts(r, walks(ctx, mods[mo], mo, 1000), ["vec.led"])]
                V = ["new", "newl", "del", "pb", "apc", "as", "set", "clr", "aps", "cat", "ncat", "catc", "ccat", "apown", "asown"]
                out.extend(rnd(ctx, "r", "str", V + CM, (12, 80), (100, 200), slots=(1, 2, 3), charset=CHARS, negset=False, maxlen=600, textlen=60, views=False))
                out.extend(rnd(ctx, "s", "str", V, (6, 200), (40, 500), slots=(1,), charset=CHARS, negset=False, maxlen=3000, textlen=200, views=False,
                               w={"clr": 0.5, "as": 2, "asown": 2, "del": 0.1}))
            if "xs" in fams:
                for v, k in (("heapmin", "lt"), ("heapmax", "gt"), ("heappq", "lt")):
                    out.extend(rnd(ctx, "h", v + ".led", HEP, (4, 400), (40, 1500), kind=k, m=2, views=False, phase=200, w={"del": 0.02}))
            return out
        return sc

    def ordv():
        out = []
        T = ["new", "del", "ins", "rem", "era", "clr"] + CM
        for fam, voc in (("bst", T + ["newr", "insdup"]), ("avl", T), ("map", ["new", "del", "insm", "put", "get", "cget", "rem", "era", "clr"] + CM)):
            for k in ("lt", "gt"):
                out += rord(ctx, "c28", fam + ".led", voc, (4, 80), (60, 150), k, slots=(1, 2, 3), w={"del": 0.4, "clr": 0.3}, keys=range(0, 24))
                out += rord(ctx, "c28s", fam + ".led", voc, (2, 200), (30, 600), k, w={"del": 0.05, "clr": 0.05}, phase=80, keys=range(0, 200))
        return thin(out, 40)

    def uf():
        return thin(uf_scripts(ctx.rng("c28u"), q(20, 300), 60, 12, slots=(1, 2, 3), multi=CM), 40)

    def su(name, drv, spec, sc, fam):
        return Suite(name, drv, spec, sc, ["LED", "MEMONLY", "COUNT_LIBC", "FAM=%d" % fam], tenv={"MODE": "3"})
    return list(mods.values()), [
        su("vecstr", "seq.cpp", "SeqLedger", seq(["vec"]), 1), su("list", "seq.cpp", "SeqLedger", seq(["list"]), 2),
        su("deq", "seq.cpp", "SeqLedger", seq(["deq"]), 4), su("adapters", "seq.cpp", "SeqLedger", seq(["ad"]), 8),
        su("xsheap", "seq.cpp", "SeqLedger", seq(["xs"]), 48), su("ord", "ord.cpp", "OrdLedger", ordv, 7), su("uf", "uf.cpp", "UFLedger", uf, 1)]


PLANS = {"C28": c28, "C18": lambda ctx: ledger(ctx, "C18"), "C19": lambda ctx: ledger(ctx, "C19")}
