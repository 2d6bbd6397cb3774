"""Value semantics: copies (C16), moves (C17), aliased arguments (C25), over every container."""
from lib import Model, Suite, Script, line
from gen import walk_scripts
from plans_seq import (S, VEC, LST, DEQ, QUE, STK, XST, HEP, CHARS, walks, rnd, chars, vec_model, deq_model, list_model, xs_model,
                       heap_model, str_model, seq_mc, elx)
from plans_ord import tree_model, ord_mc, owalks, rord, ordx, ELT, ELM, uf_model, uf_scripts

# small mutating vocabularies for the multi-object models
M = {"vec": ["new", "del", "pb", "popb", "set", "rs", "clr"], "list": ["new", "del", "pb", "pf", "popb", "popf", "clr"],
     "deq": ["new", "del", "pb", "pf", "popf", "popb", "clr"], "str": ["new", "newl", "del", "pb", "apc", "clr"],
     "xs": ["new", "del", "pb", "popb", "clr"], "heap": ["new", "del", "pb", "popx"],
     "bst": ["new", "del", "ins", "rem", "clr"], "map": ["new", "del", "put", "rem", "clr"], "uf": ["new", "del", "con", "find"]}


def grand(r, variants, ops, fill, cut, kind="lt", m=0):
    """very large contents copied or handed over, changed on either side, and copied or handed over onto filled objects"""
    make, onto = ops
    out = []
    for v in variants:
        N = r.randint(66000, 70000)
        n = r.choice([300, 1000, 5000])
        L = ["views 0"] + ([] if v[:3] in ("bst", "avl", "map", "str") else ["lite 1"]) + ["new 1", fill(1, N), "%s 2 1" % make, "view", fill(1, 3), cut(2, N - n), "view",
             "new 3", fill(3, 700), "%s 3 2" % onto, "%s 2 1" % onto, "view", cut(3, n // 2), cut(2, 2), "%s 3 2" % onto, "view", "del 2", cut(3, 1), "view"]
        out.append(Script(v, L, kind, m))
    return out


def pair_plan(ctx, pid, ops):
    """two-object models of every container with copy / move operations, walks and random histories on 2-3 objects"""
    q = ctx.pick
    mods = {
        "vec": vec_model(ctx, "vector", M["vec"] + ops, {1, 2}, q(2, 3), values={1, 2}),
        "sll": list_model(ctx, "singly", M["list"] + ops, {1, 2}, 2, False, q(3, 4), values={1, 2}),
        "dll": list_model(ctx, "doubly", M["list"] + ops, {1, 2}, 2, True, q(3, 4), values={1, 2}),
        "deq": deq_model(ctx, "deque", M["deq"] + ops, {1, 2}, q(4, 6), 2, values={1}),
        "str": str_model(ctx, "string", M["str"] + ops, {1, 2}, q(2, 3), values={1}),
        "xs": xs_model(ctx, "xstack", M["xs"] + ops, {1, 2}, q(3, 4), "lt", values={1, 2}),
        "heap": heap_model(ctx, "heap", M["heap"] + ops, {1, 2}, q(3, 4), "lt", values={1, 2}),
        "bst": tree_model(ctx, "bst", False, M["bst"] + ops, {1, 2}, {1, 2, 3}),
        "avl": tree_model(ctx, "avl", True, M["bst"] + ops, {1, 2}, set(range(1, q(4, 5)))),
        "map": tree_model(ctx, "map", True, M["map"] + ops, {1, 2}, {1, 2}, vals={1, 2}),
        "uf": uf_model(ctx, "uf", {1, q(2, 3)}, {1, 2}, M["uf"] + ops),
    }
    B = 1600

    def seq(fams):
        def sc():
            r = ctx.rng("pair/%s" % "-".join(fams))
            out = []
            w8 = {"del": 0.6, "cc": 1.5, "ca": 1.5, "mc": 1.5, "ma": 1.5}
            def both(fam, model, names, vocab, els=("int", "tok"), **kw):
                ws = walks(ctx, mods[model], model, B) if model else []
                for n in names:
                    for i, el in enumerate(els):
                        v = n + "." + el if el else n
                        if ws:
                            out.extend(walk_scripts(r, ws[i::2] if len(els) > 1 else ws, [v]))
                        out.extend(rnd(ctx, "r", v, vocab + ops, (4, 60), (40, 120), slots=(1, 2, 3), w=w8, **kw))
                        out.extend(rnd(ctx, "l", v, vocab + ops, (1, 150), (6, 800), slots=(1, 2), views=False, every=10, phase=60,
                                       w={"del": 0.1, "clr": 0.05}, **kw))
            if "vec" in fams:
                both("vec", "vec", ["vec"], VEC)
            if "list" in fams:
                both("list", "sll", ["sll"], LST)
                both("list", "dll", ["dll"], LST)
            if "deq" in fams:
                both("deq", "deq", ["deq2"], DEQ)
                both("deq", None, ["deq1", "deq3", "deq"], DEQ)
            if "ad" in fams:
                both("que", None, ["que", "quel", "ques", "que3"], QUE)
                both("stk", None, ["stk", "stkd", "stkl"], STK)
            if "xs" in fams:
                both("xs", "xs", ["xmin"], XST)
            if "heap" in fams:
                both("heap", "heap", ["heapmin"], HEP)
            if "str" in fams:
                ws = walks(ctx, mods["str"], "str", B)
                out.extend(Script("str", L) for L in chars(r, ws))
                V = ["new", "newl", "del", "pb", "apc", "as", "set", "clr", "apso"]
                out.extend(rnd(ctx, "r", "str", V + ops, (12, 60), (80, 150), slots=(1, 2, 3), charset=CHARS, negset=False, w=w8, maxlen=500))
            # variants with another order, or a comparator carrying its order as state
            if "xs" in fams:
                for v, k in (("xmax.int", "gt"), ("xmax.tok", "gt"), ("xu", "un"), ("xsd", "lt"), ("xd.int", "gt"), ("xd.tok", "un"), ("xd.int", "lt")):
                    out.extend(rnd(ctx, "k", v, XST + ops, (3, 60), (20, 120), slots=(1, 2, 3), kind=k, w=w8, **(dict(lo=0, hi=80) if k == "un" else {})))
            if "heap" in fams:
                for v, k in (("heapmax.int", "gt"), ("heapmax.tok", "gt"), ("heapd.int", "gt"), ("heapd.tok", "lt"), ("heapu", "un"), ("heapd.int", "un"), ("heappq.int", "lt")):
                    out.extend(rnd(ctx, "k", v, HEP + ops, (3, 60), (20, 120), slots=(1, 2, 3), kind=k, w=w8, **(dict(lo=0, hi=80) if k == "un" else {})))
            bf = lambda o, k: "bsc %d %d 5 389 70001" % (o, k)
            G = {"vec": ["vec.int"], "list": ["sll.int", "dll.int"], "deq": ["deq1.int", "deq.int"], "ad": ["que.int", "stk.int"], "xs": ["xmin.int"], "heap": ["heapmin.int"]}
            for f in fams:
                for v in G.get(f, []):
                    b = "bpopf" if v[:3] in ("sll", "que") else "bpopx" if f == "heap" else "bpopb"
                    out.extend(grand(r, [v], ops, bf, lambda o, k, b=b: "%s %d %d" % (b, o, k)))
            if "vec" in fams:
                out.extend(grand(r, ["str"], ops, lambda o, k: "bsc %d %d 33 389 90" % (o, k), lambda o, k: "as %d %s" % (o, " ".join(str(r.randint(1, 255)) for _ in range(k % 400)))))
            if "arr" in fams:
                for n in (1, 2, 3, 32):
                    for el in ("int", "tok", "big"):
                        out.extend(rnd(ctx, "a", "arr%d.%s" % (n, el), ["newx", "del", "set", "setit", "seti", "cc", "ca"], (2, 40), (20, 120),
                                       slots=(1, 2, 3), fixed=n, m=n, w=w8))
            return out
        return sc

    def ordv(fams):
        def sc():
            out = []
            T = ["new", "del", "ins", "rem", "era", "clr", "find"] + ops
            w8 = {"del": 0.5, "cc": 1.5, "ca": 1.5, "mc": 1.5, "ma": 1.5}
            for fam, voc in (("bst", T + ["newr", "insdup"]), ("avl", T), ("map", ["new", "del", "insm", "put", "get", "rem", "era", "clr"] + ops)):
                if fam not in fams:
                    continue
                mm = {"bst": 3, "avl": 7, "map": 1}[fam]
                out += owalks(ctx, mods[fam], fam, B, [fam + ".int"], "lt", mm) + owalks(ctx, mods[fam], fam + "2", B // 2, [fam + ".tok"], "gt", mm)
                out += grand(ctx.rng("grand/" + fam), [fam + ".int"], ops, lambda o, k: "bins %d %d 5 26729 72019" % (o, k), lambda o, k: "brem %d %d 5 26729 72019" % (o, k), "gt" if fam == "avl" else "lt", 4 if fam == "avl" else 0)
                d = [] if fam == "map" else [(fam + "d.int", "gt"), (fam + "d.tok", "un")]
                for v, k in [(fam + ".int", "lt"), (fam + ".tok", "lt"), (fam + ".tok", "gt"), (fam + ".int", "un")] + d:
                    out += rord(ctx, "r", v, voc, (4, 50), (40, 120), k, m=mm, slots=(1, 2, 3), keys=range(0, 100) if k == "un" else range(0, 24), w=w8)
            return out
        return sc

    def uf():
        ws = walks(ctx, mods["uf"], "uf", B)
        out = [Script("uf", [line(e["op"], e["o"], *e["a"]) for e in x]) for x in ws]
        return out + uf_scripts(ctx.rng("u"), ctx.pick(12, 200), 80, 8, slots=(1, 2, 3), multi=ops)

    def eseq():
        w8 = {"del": 0.6, "cc": 1.5, "ca": 1.5, "mc": 1.5, "ma": 1.5}
        return w8
    def ordx_():
        w8 = eseq()
        T = ["new", "del", "ins", "rem", "era", "clr", "find"] + ops
        out = ordx(ctx, [("bst", "lt"), ("bstd", "gt")], T + ["newr"], ELT[:-1], q=(1, 60), m=3, big=False, slots=(1, 2, 3), w=w8, tag="ex")
        out += ordx(ctx, [("avl", "gt"), ("avld", "un")], T, ELT[:-1], q=(1, 60), m=7, big=False, slots=(1, 2, 3), w=w8, tag="ex")
        return out + ordx(ctx, [("map", "lt")], ["new", "del", "insm", "put", "get", "rem", "era", "clr"] + ops, ELM, q=(2, 60), m=1, big=False, slots=(1, 2, 3), w=w8, tag="ex")
    def ex(fam, names, vocab, **kw):
        return elx(ctx, names, vocab + ops, fam, "ex", q=(1, 60), big=False, slots=(1, 2, 3), w=eseq(), **kw)
    exs = [ex(1, ["vec"], VEC), ex(2, ["sll", "dll"], LST), ex(4, ["deq2", "deq"], DEQ),
           ex(16, ["xmin", ("xd", "gt")], XST), ex(32, ["heapmin", ("heapd", "gt")], HEP), Suite("ordx", "ord.cpp", "OrdTrace", ordx_, ["FAM=7", "ELX"])]

    laws = [seq_mc(ctx, "value-laws", M["vec"] + ["cc", "ca", "mc", "ma"], {1, 2, 3}, 1, dump=False),
            ord_mc(ctx, "value-laws-ord", M["map"] + ["cc", "ca", "mc", "ma"], {1, 2}, {1, 2, 11}, "un", {0, 1})]
    su = [Suite("vecstr", "seq.cpp", "SeqTrace", seq(["vec", "str"]), ["FAM=1"]),
          Suite("list", "seq.cpp", "SeqTrace", seq(["list"]), ["FAM=2"]),
          Suite("deq", "seq.cpp", "SeqTrace", seq(["deq"]), ["FAM=4"]),
          Suite("adapters", "seq.cpp", "SeqTrace", seq(["ad"]), ["FAM=8"]),
          Suite("xs", "seq.cpp", "SeqTrace", seq(["xs"]), ["FAM=16"]),
          Suite("heap", "seq.cpp", "SeqTrace", seq(["heap"]), ["FAM=32"]),
          Suite("bst", "ord.cpp", "OrdTrace", ordv(["bst"]), ["FAM=1"]),
          Suite("avlmap", "ord.cpp", "OrdTrace", ordv(["avl", "map"]), ["FAM=6"]),
          Suite("uf", "uf.cpp", "UFTrace", uf)]
    if pid == "C16":
        su.append(Suite("arr", "seq.cpp", "SeqTrace", seq(["arr"]), ["FAM=64"]))
    return list(mods.values()) + laws, su + exs


def c16(ctx):
    return pair_plan(ctx, "C16", ["cc", "ca"])


def c17(ctx):
    return pair_plan(ctx, "C17", ["mc", "ma"])


def c25(ctx):
    q = ctx.pick
    mods = {
        "vec": vec_model(ctx, "vector", ["new", "del", "pb", "pbi", "rsi", "seti", "popb", "rs"], {1}, q(4, 5)),
        "sll": list_model(ctx, "singly", ["new", "del", "pb", "pbi", "pfi", "popf"], {1}, 4, False, 4, values={1, 2}),
        "dll": list_model(ctx, "doubly", ["new", "del", "pb", "pbi", "pfi", "popf", "popb"], {1}, 4, True, 4, values={1, 2}),
        "deq": deq_model(ctx, "deque", ["new", "del", "pb", "pf", "pbi", "pfi", "popf", "popb"], {1}, q(5, 7), 2, values={1, 2}),
        "str": str_model(ctx, "string", ["new", "newl", "del", "pb", "pbi", "apown", "asown", "aps", "cat", "ca"], {1, 2}, q(2, 3), values={1, 2}),
        "xs": xs_model(ctx, "xstack", ["new", "del", "pb", "pbi", "popb"], {1}, q(4, 5), "lt"),
        "heap": heap_model(ctx, "heap", ["new", "del", "pb", "pbx", "popx"], {1}, q(4, 5), "lt"),
        "bst": tree_model(ctx, "bst", False, ["new", "del", "ins", "insown", "remown"], {1}, {1, 2, 3, 4, 5}),
        "avl": tree_model(ctx, "avl", True, ["new", "del", "ins", "remown"], {1}, set(range(1, q(6, 7)))),
        "map": tree_model(ctx, "map", True, ["new", "del", "ins", "put", "putown", "putval", "remown"], {1}, {1, 2, 3}, vals={1, 2}),
        "uf": uf_model(ctx, "uf", {2, q(3, 4)}, {1}, ["new", "con", "conrep", "unirep"]),
    }
    al = {"pbi": 3, "pbx": 3, "pfi": 3, "rsi": 2, "seti": 1.5, "apown": 2, "asown": 1, "aps": 2, "cat": 1, "del": 0.05, "clr": 0.05}

    def seq(fams):
        def sc():
            r = ctx.rng("c25/%s" % "-".join(fams))
            out = []
            def both(model, names, vocab, els=("int", "tok", "big"), B=1600, kind="lt", **kw):
                ws = walks(ctx, mods[model], model, B) if model else []
                for n in names:
                    for i, el in enumerate(els):
                        v = n + "." + el
                        if ws:
                            out.extend(walk_scripts(r, ws[i::len(els)], [v]))
                        out.extend(rnd(ctx, "r", v, vocab, (5, 60), (40, 120), w=al, kind=kind, **kw))
                        out.extend(rnd(ctx, "l", v, vocab, (1, 200), (6, 800), w=al, views=False, every=10, phase=80, kind=kind, **kw))
            if "vec" in fams:
                both("vec", ["vec"], VEC + ["pbi", "rsi", "seti"], maxlen=5000)
                V = ["new", "newl", "del", "pb", "pbi", "apc", "as", "set", "clr", "aps", "apown", "asown", "cat", "ncat", "ca"]
                out.extend(Script("str", L) for L in chars(r, walks(ctx, mods["str"], "str", 4000)))
                out.extend(rnd(ctx, "r", "str", V, (14, 60), (100, 150), slots=(1, 2), charset=CHARS, negset=False, w=al, maxlen=600))
            if "list" in fams:
                both("sll", ["sll"], LST + ["pbi", "pfi"])
                both("dll", ["dll"], LST + ["pbi", "pfi"])
            if "deq" in fams:
                both("deq", ["deq2"], DEQ + ["pbi", "pfi"])
                both(None, ["deq1", "deq3", "deq"], DEQ + ["pbi", "pfi"])
            if "ad" in fams:
                both(None, ["que", "quel", "ques", "que1"], QUE + ["pbi"])
                both(None, ["stk", "stkd", "stkl"], STK + ["pbi"])
            if "xs" in fams:
                both("xs", ["xmin"], XST + ["pbi"])
                both(None, ["xmax"], XST + ["pbi"], kind="gt")
            if "heap" in fams:
                both("heap", ["heapmin", "heappq"], HEP + ["pbx"])
                both(None, ["heapmax"], HEP + ["pbx"], kind="gt")
            if "arr" in fams:
                for n in (1, 3, 7):
                    out.extend(rnd(ctx, "a", "arr%d.tok" % n, ["newx", "del", "set", "seti"], (3, 40), (20, 120), fixed=n, m=n, w=al))
            return out
        return sc

    def ordv():
        out = []
        w8 = {"del": 0.05, "clr": 0.05, "insown": 1.5, "remown": 2, "putown": 2, "putval": 2}
        for fam, voc in (("bst", ["new", "del", "ins", "insdup", "insown", "rem", "remown", "era"]),
                         ("avl", ["new", "del", "ins", "rem", "remown", "era"]),
                         ("map", ["new", "del", "insm", "put", "putown", "putval", "get", "rem", "remown"])):
            out += owalks(ctx, mods[fam], fam, 1600, [fam + ".int"], "lt") + owalks(ctx, mods[fam], fam + "2", 1600, [fam + ".tok"], "gt")
            for v, k in [(fam + ".int", "lt"), (fam + ".tok", "lt"), (fam + ".tok", "gt"), (fam + ".tok", "un")]:
                out += rord(ctx, "r", v, voc, (5, 60), (50, 120), k, keys=range(0, 100) if k == "un" else range(0, 24), w=w8)
        return out

    def uf():
        ws = walks(ctx, mods["uf"], "uf", 1200)
        out = [Script("uf", [line(e["op"], e["o"], *e["a"]) for e in x]) for x in ws]
        return out + uf_scripts(ctx.rng("u"), ctx.pick(10, 200), 60, 12, ops=("con", "conrep", "unirep", "find"))

    def ex(fam, names, vocab, **kw):
        return elx(ctx, names, vocab, fam, "ex", q=(1, 60), big=False, w=al, **kw)
    exs = [ex(1, ["vec"], VEC + ["pbi", "rsi", "seti"]), ex(2, ["sll", "dll"], LST + ["pbi", "pfi"]), ex(4, ["deq2", "deq"], DEQ + ["pbi", "pfi"]),
           Suite("ordx", "ord.cpp", "OrdTrace", lambda: ordx(ctx, [("map", "lt")], ["new", "del", "insm", "put", "putown", "putval", "get", "rem", "remown"],
                                                             ELM, q=(2, 60), m=1, big=False, w={"putown": 2, "putval": 2, "remown": 2, "del": 0.05}), ["FAM=4", "ELX"])]
    return list(mods.values()), exs + [
        Suite("vecstr", "seq.cpp", "SeqTrace", seq(["vec"]), ["FAM=1"]), Suite("list", "seq.cpp", "SeqTrace", seq(["list"]), ["FAM=2"]),
        Suite("deq", "seq.cpp", "SeqTrace", seq(["deq"]), ["FAM=4"]), Suite("adapters", "seq.cpp", "SeqTrace", seq(["ad"]), ["FAM=8"]),
        Suite("xs", "seq.cpp", "SeqTrace", seq(["xs"]), ["FAM=16"]), Suite("heap", "seq.cpp", "SeqTrace", seq(["heap"]), ["FAM=32"]),
        Suite("arr", "seq.cpp", "SeqTrace", seq(["arr"]), ["FAM=64"]),
        Suite("ord", "ord.cpp", "OrdTrace", ordv, ["FAM=7"]), Suite("uf", "uf.cpp", "UFTrace", uf)]


PLANS = {"C16": c16, "C17": c17, "C25": c25}
