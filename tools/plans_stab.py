"""References, pointers and iterators that must stay valid (C27)."""
from lib import Model, Suite, Script, line
from gen import SeqSim, walk_scripts
from plans_seq import S, LST, DEQ, walks, list_model
from plans_ord import OrdSim, node_model, owalks, rord, AVLV, MAPV

CM = ["cc", "ca", "mc", "ma"]
HV = ["take", "rd", "wr", "nx", "pv"]


class StabSim(SeqSim):
    """histories with handles; where[g] = (object, position) as the specification's Where has it"""

    def __init__(self, rng, vocab, handles=(1, 2, 3), **kw):
        SeqSim.__init__(self, rng, vocab, **kw)
        self.at = {g: None for g in handles}

    def make(self, op, o):
        r = self.rng
        if op in HV:
            n = self.n[o]
            if n is None:
                return None
            if op == "take":
                if n == 0:
                    return None
                g, i = r.choice(list(self.at)), self.idx(n, False)
                self.at[g] = (o, i)
                return line(op, o, g, i)
            hs = [g for g in self.at if self.at[g] and self.at[g][0] == o]
            if not hs:
                return None
            return line(op, o, r.choice(hs), *([self.v()] if op == "wr" else []))
        before = dict(self.n)
        l = SeqSim.make(self, op, o)
        if l is None:
            return None
        p = l.split()
        op, a = p[0], [int(x) for x in p[2:]]
        for g, w in self.at.items():
            if not w:
                continue
            q, i = w
            n = before[q]
            if op in ("mc", "ma") and a[0] != o:
                self.at[g] = (o, i) if q == a[0] else None if q == o else w
            elif q != o:
                pass
            elif op in ("del", "clr"):
                self.at[g] = None
            elif op == "ca":
                self.at[g] = w if a[0] == o else None
            elif op in ("pf", "gpf", "pfi"):
                self.at[g] = (q, i + 1)
            elif op in ("popf", "gof"):
                self.at[g] = (q, i - 1) if i > 0 else None
            elif op in ("popb", "gob"):
                self.at[g] = None if i == n - 1 else w
        return l


def rstab(ctx, tag, var, vocab, q, t, kind="lt", views=True, every=30, w=None, phase=None, **kw):
    c, n = ctx.pick(q, t)
    r = ctx.rng("stab/%s/%s" % (tag, var))
    out = []
    for _ in range(c):
        ls = StabSim(r, vocab, **kw).run(n, w, phase)
        if not views:
            o = ["views 0"]
            for i, l in enumerate(ls):
                o.append(l)
                if i % every == every - 1:
                    o.append("view")
            ls = o + ["view"]
        out.append(Script(var, ls, kind))
    return out


def longheld(r, var, n, back):
    """a handle on every kind of place while the container grows and shrinks around it a hundredfold"""
    out = []
    for _ in range(n):
        L, lo, hi = ["views 0", "new 1"], 0, 0          # elements lo..hi-1 around position 0
        k = r.choice([1, 2, 3, 40])
        L.append("bpb 1 %d 0" % k)
        pos = [r.randrange(k) for _ in range(3)]
        L += ["take 1 %d %d" % (g + 1, p) for g, p in enumerate(pos)]
        m = k
        for _ in range(10):
            j = r.choice([1, 5, 33, 64, 400])
            x = r.random()
            if x < 0.35:
                L.append("bpb 1 %d %d" % (j, r.randint(0, 99)))
                m += j
            elif x < 0.6:
                L.append("bpf 1 %d %d" % (j, r.randint(0, 99)))
                m += j
                pos = [p + j for p in pos]
            elif x < 0.8:
                j = min(j, min(pos))
                L.append("bpopf 1 %d" % j)
                m -= j
                pos = [p - j for p in pos]
            else:
                j = min(j, m - 1 - max(pos)) if back else 0
                L.append("bpopb 1 %d" % j)
                m -= j
            L += ["rd 1 %d" % g for g in (1, 2, 3)]
            if not var.startswith("deq"):
                L += ["nx 1 %d" % r.randint(1, 3), "wr 1 %d %d" % (r.randint(1, 3), r.randint(0, 99))]
        out.append(Script(var, L + ["view"], "lt"))
    return out


def c27(ctx):
    q = ctx.pick
    SL = ["new", "del", "pb", "pf", "popb", "popf", "clr"]

    def smc(name, ops, slots, maxlen, hn):
        return Model(name, "StableMC", dict(Slots=S(slots), Values=S({1}), MaxLen=maxlen, Ops=S(ops), Hn=S(hn)), inv=["Follows", "Valid"], dump=True)

    def slist(name, ops, slots, maxlen, dbl, nodes, hn, vals=(1,)):
        return Model(name, "StableList", dict(Slots=S(slots), Values=S(vals), MaxLen=maxlen, Ops=S(ops), Doubly=dbl, Nodes=S(range(1, nodes + 1)), Hn=S(hn)),
                     inv=["Rings", "NoLeak", "Stable"], props=["WriteLaw"], view="SView", init="SSpec")

    def sord(name, ops, slots, keys, kind, vals, hn, hops):
        return Model(name, "StableOrd", dict(Slots=S(slots), K=S(keys), Vals=S(vals), Kind=kind, Ops=S(ops), Hn=S(hn), HOps=S(hops)),
                     inv=["Exists"], props=["Keeps"], dump=True)
    mods = {
        "list": smc("list", SL + ["rd", "wr", "nx", "pv"], {1}, q(4, 5), {1, 2}),
        "lists": smc("lists", ["new", "del", "pb", "pf", "popf", "clr", "rd", "nx"] + CM, {1, 2}, q(2, 3), {1}),
        "sl": slist("singly-nodes", SL + ["newn"], {1}, q(4, 5), False, q(4, 5), {1, 2}, (1, 2)),
        "dl": slist("doubly-nodes", SL + ["newn"], {1}, q(4, 5), True, q(4, 5), {1, 2}, (1, 2)),
        "sl2": slist("singly-nodes-2", SL + CM, {1, 2}, 2, False, q(3, 4), {1}),
        "dl2": slist("doubly-nodes-2", SL + CM, {1, 2}, 2, True, q(3, 4), {1}),
        "avl": sord("avl", ["new", "ins", "rem", "era", "clr"], {1}, {1, 2, 3, 4, 5}, "lt", {0}, {1, 2}, ["at", "rdr", "step", "erah"]),
        "map": sord("map", ["new", "ins", "put", "rem", "era"], {1}, {1, 2, 3}, "lt", {0, 1}, {1, 2}, ["at", "rdr", "wrr", "erah"]),
        "two": sord("two", ["new", "del", "ins", "rem"] + CM, {1, 2}, {1, 2}, "gt", {0}, {1}, ["at", "rdr", "step", "erah"]),
    }

    def seq():
        r = ctx.rng("c27")
        out = []
        both = {"sll": (["rd", "wr", "nx"], LST), "dll": (["rd", "wr", "nx", "pv"], LST), "deq": (["rd"], DEQ)}

        W, W2 = walks(ctx, mods["list"], "l", 4000), walks(ctx, mods["lists"], "l2", 3000)
        for v, fam in (("sll.int", "sll"), ("dll.tok", "dll"), ("deq2.int", "deq"), ("deq1.tok", "deq")):
            hv, voc = both[fam]
            ws = [[e for e in w if e["op"] not in HV or e["op"] in hv or e["op"] == "take"] for w in W + W2]
            out += walk_scripts(r, ws, [v])
        for fam, vs in (("sll", ["sll.int", "sll.tok"]), ("dll", ["dll.int", "dll.tok", "dll.big"]),
                        ("deq", ["deq1.int", "deq2.tok", "deq3.int", "deq5.big", "deq.int", "deq.tok"])):
            hv, voc = both[fam]
            for v in vs:
                w = {"take": 2, "rd": 3, "wr": 2, "nx": 2, "pv": 2, "del": 0.1, "clr": 0.1}
                out += rstab(ctx, "r", v, voc + ["take"] + hv, (6, 60), (80, 200), w=w, views=False, every=12, phase=15)
                out += rstab(ctx, "c", v, voc + CM + ["take"] + hv, (6, 60), (80, 150), w=dict(w, cc=0.4, ca=0.4, mc=0.6, ma=0.6), slots=(1, 2, 3), views=False, every=12)
                out += longheld(r, v, q(6, 60), fam != "sll")
        return out

    def ordv():
        r = ctx.rng("c27o")
        out = owalks(ctx, mods["avl"], "a", 5000, ["avl.int"], "lt") + owalks(ctx, mods["map"], "m", 5000, ["map.int"], "lt")
        out += owalks(ctx, mods["two"], "t", 3000, ["avl.tok", "map.tok"], "gt")
        w = {"hold": 3, "at": 2, "rdr": 3, "wrr": 2, "step": 1, "erah": 0.7, "del": 0.1, "clr": 0.1}
        H = ["hold", "at", "step", "erah", "rdr"]
        for v, k, voc in (("avl.int", "lt", AVLV + ["rdr"]), ("avl.tok", "gt", AVLV + ["rdr"]), ("avld.int", "un", AVLV + ["rdr"]),
                          ("map.int", "lt", MAPV + H + ["wrr"]), ("map.tok", "gt", MAPV + H + ["wrr"]), ("map.int", "un", MAPV + H + ["wrr"])):
            ks = range(0, 100) if k == "un" else range(0, 16)
            for tag, kk, ph in (("s", ks, 25), ("b", range(0, 100) if k == "un" else range(0, 60), 60)):
                out += rord(ctx, "c27" + tag, v, voc, (5, 80), (80, 200), k, handles=(1, 2, 3), keys=kk, w=w, phase=ph, views=False)
            out += rord(ctx, "c27c", v, voc + CM, (5, 80), (80, 150), k, handles=(1, 2, 3), slots=(1, 2, 3), keys=ks, w=dict(w, cc=0.4, ca=0.4, mc=0.7, ma=0.7), views=False)
        return out
    return list(mods.values()) + [node_model(ctx, "avl-nodes", True, set(range(1, q(8, 10))))], [Suite("seq", "seq.cpp", "StableTrace", seq, ["FAM=6"]), Suite("ord", "ord.cpp", "OrdTrace", ordv, ["FAM=6"])]


PLANS = {"C27": c27}
