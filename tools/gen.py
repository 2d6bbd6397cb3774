"""Script generation: specification walks made concrete, and seeded random histories."""
from lib import Script, line, ev_line

VALARGS = {  # which arguments of an operation are element values
    "pb": [0], "pf": [0], "gpb": [0], "gpf": [0], "newn": [1], "newx": [0], "set": [1], "setit": [1], "rsf": [1],
    "newl": "all", "as": "all", "apc": "all", "eqc": "all", "catc": "tail", "ccat": "tail",
    "ins": [0], "insdup": [0], "insown": [0], "rem": [0], "remown": [0], "era": [0], "put": [0], "get": [0],
    "cget": [0], "find": [0], "newr": "all", "wr": [1], "hold": [1], "putown": [0], "putval": "all", "pushall": "all",
}


def submap(rng, kind, values, lo, hi):
    """order-preserving (for kind 'un': units-preserving) concrete values for the model's values"""
    vs = sorted(values)
    if kind == "un":
        units = sorted(rng.sample(range(10), len(vs)))
        return lambda v: units[vs.index(v)] + 10 * rng.randrange(0, 50)
    c = sorted(rng.sample(range(lo, hi), len(vs)))
    m = dict(zip(vs, c))
    return lambda v: m[v]


def concretize(rng, walk, kind="lt", lo=-500, hi=500, values=None):
    if values is None:
        values = set()
        for e in walk:
            va = VALARGS.get(e["op"], [])
            for i, x in enumerate(e["a"]):
                if va == "all" or (va == "tail" and i > 0) or (isinstance(va, list) and i in va):
                    values.add(x)
    if not values:
        return [ev_line(e) for e in walk]
    f = submap(rng, kind, values, lo, hi)
    out = []
    for e in walk:
        va = VALARGS.get(e["op"], [])
        a = [f(x) if (va == "all" or (va == "tail" and i > 0) or (isinstance(va, list) and i in va)) else x
             for i, x in enumerate(e["a"])]
        out.append(line(e["op"], e["o"], *a))
    return out


GROW = {"pbx", "pb", "pf", "gpb", "gpf", "pbi", "pfi", "apc", "apown"}
SHRINK = {"popb", "popf", "gof", "gob", "popx"}


class SeqSim:
    """Random histories of one or more sequence objects; tracks only lengths (enough for validity)."""

    def __init__(self, rng, vocab, slots=(1,), lo=-1000, hi=1000, fill=8, textlen=12, negset=True, maxlen=10 ** 9,
                 charset=None, fixed=None, samev=0.3):
        self.rng, self.vocab, self.slots = rng, list(vocab), list(slots)
        self.lo, self.hi, self.fill, self.textlen, self.negset = lo, hi, fill, textlen, negset
        self.n = {o: None for o in slots}
        self.maxlen, self.charset, self.fixed, self.samev = maxlen, charset, fixed, samev
        self.recent = []

    def v(self):
        r = self.rng
        if self.recent and r.random() < self.samev:
            return r.choice(self.recent)
        x = r.choice(self.charset) if self.charset else r.randint(self.lo, self.hi)
        self.recent = (self.recent + [x])[-6:]
        return x

    def text(self):
        r = self.rng
        k = r.choice([0, 1, 2, r.randint(0, self.textlen)])
        return [self.v() for _ in range(k)]

    def idx(self, n, neg=True):
        r = self.rng
        c = [0, n - 1, r.randrange(n)]
        if neg:
            c += [-1, -n, r.randrange(n) - n]
        return r.choice(c)

    def make(self, op, o):
        """one concrete event for op on slot o, or None if not enabled; applies the length effect"""
        r, n = self.rng, self.n[o]
        live = n is not None
        others = [p for p in self.slots if self.n[p] is not None]
        if op in ("new", "newl", "newn", "newx", "cc", "mc", "ncat"):
            if live:
                return None
        elif not live:
            return None
        a = None
        if op == "new":
            a, m = [], 0
        elif op == "newl":
            a = self.text()
            m = len(a)
        elif op == "newn":
            k = r.randint(1, self.fill)
            a, m = [k, self.v()], k
        elif op == "newx":
            a, m = [self.v()], self.fixed
        elif op == "del":
            a, m = [], None
        elif op in ("cc", "ca"):
            if not others:
                return None
            p = r.choice(others)
            a, m = [p], self.n[p]
        elif op in ("mc", "ma"):
            if not others:
                return None
            p = r.choice(others)
            a, m = [p], self.n[p]
            if p != o:
                self.n[p] = 0
        elif op in ("pb", "pf", "gpb", "gpf"):
            a, m = [self.v()], n + 1
        elif op in SHRINK:
            if n == 0:
                return None
            a, m = [], n - 1
        elif op in ("pbi", "pfi", "pbx"):
            if n == 0:
                return None
            a, m = [self.idx(n, False)], n + 1
        elif op in ("set", "setit"):
            if n == 0:
                return None
            a, m = [self.idx(n, self.negset and op == "set"), self.v()], n
        elif op == "seti":
            if n == 0:
                return None
            a, m = [self.idx(n, self.negset), self.idx(n, self.negset)], n
        elif op == "rs":
            k = r.choice([0, n, n + 1, max(0, n - 1), r.randint(0, n + self.fill)])
            a, m = [k], min(k, n)
        elif op == "rsf":
            k = r.choice([0, n, n + 1, max(0, n - 1), r.randint(0, n + self.fill)])
            a, m = [k, self.v()], k
        elif op == "rsi":
            if n == 0:
                return None
            k = r.choice([1, n, n + 1, r.randint(1, n + self.fill)])
            a, m = [k, self.idx(n, False)], k
        elif op == "clr":
            a, m = [], 0
        elif op == "as":
            a = self.text()
            m = len(a)
        elif op == "asown":
            i = r.randint(0, n)
            a, m = [i], n - i
        elif op == "apown":
            i = r.randint(0, n)
            a, m = [i], n + n - i
        elif op == "apc":
            a = self.text()
            m = n + len(a)
        elif op in ("aps",):
            p = r.choice(others)
            a, m = [p], n + self.n[p]
        elif op == "apso":      # append another object
            q = [p for p in others if p != o]
            if not q:
                return None
            p = r.choice(q)
            op, a, m = "aps", [p], n + self.n[p]
        elif op in ("cat", "ncat"):
            if not others:
                return None
            p, q = r.choice(others), r.choice(others)
            a, m = [p, q], self.n[p] + self.n[q]
        elif op in ("catc", "ccat"):
            p = r.choice(others)
            t = self.text()
            a, m = [p] + t, self.n[p] + len(t)
        elif op == "eqc":
            a, m = self.text(), n
        else:
            raise KeyError(op)
        if m is not None and m > self.maxlen:
            return None
        self.n[o] = m
        return line(op, o, *a)

    def run(self, nops, w=None, phase=None):
        """w: op -> weight; phases bias growth and shrinking"""
        r, out = self.rng, []
        w = dict(w or {})
        left, mode = 0, "mix"
        stall = 0
        while len(out) < nops:
            if left <= 0:
                mode = r.choice(["grow", "shrink", "mix", "grow"])
                left = r.randint(3, phase or 25)
            o = r.choice(self.slots)
            ws = []
            for op in self.vocab:
                x = w.get(op, 0.15 if op in ("del", "clr") else 1.0)
                if op in GROW:
                    x *= {"grow": 6, "shrink": 0.3, "mix": 2}[mode]
                elif op in SHRINK:
                    x *= {"grow": 0.3, "shrink": 6, "mix": 2}[mode]
                elif op == "rs":
                    x *= 0.5
                ws.append(x)
            op = r.choices(self.vocab, ws)[0]
            save = dict(self.n)
            l = self.make(op, o)
            if l is None:
                self.n = save
                stall += 1
                if stall > 2000:
                    break
                continue
            stall = 0
            left -= 1
            out.append(l)
        return out


def rand_scripts(rng, var, vocab, count, nops, kind="lt", m=0, views=True, every=40, w=None, phase=None, **kw):
    out = []
    for _ in range(count):
        sim = SeqSim(rng, vocab, **kw)
        ls = sim.run(nops, w, phase)
        if not views:
            o = ["views 0"]
            for i, l in enumerate(ls):
                o.append(l)
                if i % every == every - 1:
                    o.append("view")
            o.append("view")
            ls = o
        out.append(Script(var, ls, kind, m))
    return out


def walk_scripts(rng, walks, variants, kind="lt", m=0, **kw):
    """every walk on every variant (variant may be (name, kind, m))"""
    out = []
    for v in variants:
        name, kd, mm = v if isinstance(v, tuple) else (v, kind, m)
        for w in walks:
            out.append(Script(name, concretize(rng, w, kd, **kw), kd, mm))
    return out
