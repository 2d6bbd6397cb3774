"""Shared machinery: TLC runs, behaviour graphs and covering walks, driver builds, trace validation."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, threading
from collections import deque, defaultdict
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
REPO = os.environ.get("DSTRUCT_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery itself failed; no verdict."""


class Violation(Exception):
    def __init__(self, what, files):
        Exception.__init__(self, what)
        self.what, self.files = what, files          # files: {name: text}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix="dsverif-")
        self.n = 0
        self.lock = threading.Lock()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        samples=[], walks=0, edges_covered=0, edges_total=0, models=[], suites=[])

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def rng(self, salt):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, salt))

    def dir(self, tag):
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, "%03d-%s" % (self.n, tag))
        os.makedirs(d)
        return d

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


# ------------------------------------------------------------------ TLC
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def run_java(args, cwd, env=None, timeout=3000, xmx="4g", xss=None):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]
    if xss:
        cmd.append("-Xss" + xss)
    cmd += ["-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC"] + args
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def counts(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


class Model:
    """One bounded TLC run of a specification module."""

    def __init__(self, name, spec, consts, inv=(), props=(), view="View", constraint=None, dump=False,
                 workers=2, xmx="3g", init="Spec", subst=None, timeout=3000):
        self.__dict__.update(locals())
        self.graph = None

    def run(self, ctx):
        d = ctx.dir("model-" + self.name)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = ["SPECIFICATION " + self.init]
        if self.consts or self.subst:
            cfg.append("CONSTANTS")
            cfg += [" %s = %s" % (k, tla(v)) for k, v in self.consts.items()]
            cfg += [" %s <- %s" % (k, v) for k, v in (self.subst or {}).items()]
        cfg += ["INVARIANT " + i for i in self.inv] + ["PROPERTY " + p for p in self.props]
        if self.view:
            cfg.append("VIEW " + self.view)
        if self.constraint:
            cfg.append("CONSTRAINT " + self.constraint)
        if self.dump:
            cfg.append("ACTION_CONSTRAINT Edges")
        open(os.path.join(d, "m.cfg"), "w").write("\n".join(cfg) + "\n")
        t0 = time.time()
        rc, out = run_java(["-workers", str(self.workers), "-deadlock", "-noGenerateSpecTE", "-metadir",
                            os.path.join(d, "md"), "-config", "m.cfg", self.spec + ".tla"], d,
                           xmx=self.xmx, timeout=self.timeout)
        gen, dis = counts(out)
        if rc != 0 or "No error has been found" not in out:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"{'))[-3000:]
            raise ToolError("model %s (%s) not proved by TLC:\n%s" % (self.name, self.spec, tail))
        if self.dump:
            self.graph = Graph(out)
        with ctx.lock:
            ctx.cov["states"] += dis
            ctx.cov["transitions"] += gen
            ctx.cov["models"].append(dict(name=self.name, spec=self.spec, distinct=dis, generated=gen,
                                          inv=list(self.inv), props=list(self.props),
                                          consts={k: tla(v) for k, v in self.consts.items()},
                                          wall_s=round(time.time() - t0, 1)))
        return self


class Graph:
    """Labelled transition graph printed by the Edges action constraint of a model."""

    def __init__(self, out):
        ids, self.adj, self.edges = {}, defaultdict(list), []
        seen = set()

        def nid(x):
            k = json.dumps(x, sort_keys=True)
            if k not in ids:
                ids[k] = len(ids)
            return ids[k]
        tgt = set()
        for l in out.splitlines():
            if l.startswith('"{'):
                r = json.loads(json.loads(l))
                s, t, e = nid(r["s"]), nid(r["t"]), r["e"]
                k = (s, t, json.dumps(e, sort_keys=True))
                if k in seen:
                    continue
                seen.add(k)
                self.adj[s].append(len(self.edges))
                self.edges.append((s, t, e))
                if s != t:
                    tgt.add(t)
        if not self.edges:
            raise ToolError("empty behaviour graph")
        # TLC explores breadth first from the single initial state, so it is the first source printed
        self.init = self.edges[0][0] if not self._multi() else self._root(tgt)

    def _multi(self):
        return False

    def _root(self, tgt):
        return next(s for s in self.adj if s not in tgt)

    def walks(self, rng, maxlen=60, budget=None):
        """Walks from the initial state that together traverse every edge (or until `budget` edges in
        total have been walked).  Returns list of walks, each a list of events."""
        todo = {s: set(es) for s, es in self.adj.items()}
        left = len(self.edges)
        out, total = [], 0
        cover = 0

        def path_to_uncovered(src, limit):
            if todo.get(src):
                return []
            prev, q = {src: None}, deque([(src, 0)])
            while q:
                u, dd = q.popleft()
                if dd >= limit:
                    return None
                es = self.adj.get(u, [])
                for e in (es if len(es) < 4 else rng.sample(es, len(es))):
                    v = self.edges[e][1]
                    if v in prev:
                        continue
                    prev[v] = e
                    if todo.get(v):
                        p = [e]
                        x = u
                        while prev[x] is not None:
                            p.append(prev[x])
                            x = self.edges[prev[x]][0]
                        return p[::-1]
                    q.append((v, dd + 1))
            return None
        while left and (budget is None or total < budget):
            cur, w = self.init, []
            while len(w) < maxlen and left:
                p = path_to_uncovered(cur, maxlen if not w else maxlen - len(w))
                if p is None:
                    break
                for e in p:
                    w.append(e)
                    cur = self.edges[e][1]
                # take an uncovered edge, preferring one that changes state
                es = sorted(todo[cur])
                e = rng.choice(es)
                todo[cur].discard(e)
                left -= 1
                cover += 1
                w.append(e)
                cur = self.edges[e][1]
            if not w:
                break
            total += len(w)
            out.append([self.edges[e][2] for e in w])
        return out, cover


# ------------------------------------------------------------------ drivers
CXX = ["g++", "-std=c++17", "-w", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-pthread"]


def build(ctx, src, defs=(), asan=True, extra=()):
    """Compile a driver against the current working tree of the library."""
    d = ctx.dir("build-" + os.path.basename(src))
    exe = os.path.join(d, "drv")
    cxx = CXX if asan else [x for x in CXX if not x.startswith("-fsanitize")]
    cmd = cxx + ["-I", REPO, "-I", HARN] + ["-D" + x for x in defs] + list(extra) + \
        [os.path.join(HARN, src), "-o", exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode == 0:
        return exe
    err = p.stdout.decode("utf-8", "replace")
    # the library itself must compile alone for a broken instantiation to be its users' problem
    alone = os.path.join(d, "alone.cpp")
    open(alone, "w").write("#include <dstruct.hpp>\nint main() { return 0; }\n")
    q = subprocess.run(["g++", "-std=c++17", "-w", "-I", REPO, "-fsyntax-only", alone],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode != 0:
        raise ToolError("dstruct.hpp does not compile:\n" + q.stdout.decode("utf-8", "replace")[:2000])
    raise Violation("a public operation no longer compiles (driver %s %s)" % (src, " ".join(defs)),
                    {"compile.log": " ".join(cmd) + "\n\n" + err[:20000]})


class Script:
    """One conformance script: a variant and its operation lines."""
    __slots__ = ("var", "kind", "m", "lines")

    def __init__(self, var, lines, kind="lt", m=0):
        self.var, self.kind, self.m, self.lines = var, kind, m, lines

    def text(self, tid):
        return "T %d %s %s %d\n%s\n" % (tid, self.var, self.kind, self.m, "\n".join(self.lines))


def line(op, o, *a):
    return " ".join([op, str(o)] + [str(x) for x in a])


def ev_line(e):
    return line(e["op"], e["o"], *e["a"])


def run_driver(exe, scripts, d, tag, env=None):
    """Run scripts through a driver; returns (path of ndjson, stderr)."""
    sp, op = os.path.join(d, tag + ".txt"), os.path.join(d, tag + ".ndjson")
    with open(sp, "w") as f:
        for i, s in enumerate(scripts):
            f.write(s.text(i + 1))
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
    if env:
        e.update(env)
    p = subprocess.run([exe, sp, op], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=3000)
    if p.returncode != 0:
        raise ToolError("driver failed rc=%d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-1000:]))
    return op, p.stderr.decode("utf-8", "replace")


def validate(spec, path, d, workers=2, xmx="3g", timeout=3000, tenv=None):
    """TLC: is every recorded trace a behaviour of the trace specification?  Returns (ok, distinct, tid, l, out)."""
    for f in os.listdir(SPEC):
        if f.endswith(".tla") and not os.path.exists(os.path.join(d, f)):
            try:
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
            except FileExistsError:
                pass
    cfg = os.path.join(d, "trace.cfg")
    if not os.path.exists(cfg):
        open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\n")
    rc, out = run_java(["-workers", str(workers), "-noGenerateSpecTE", "-metadir", path + ".md", "-config", "trace.cfg",
                        spec + ".tla"], d, env=dict(tenv or {}, TRACE=path), xmx=xmx, timeout=timeout, xss="128m")
    shutil.rmtree(path + ".md", ignore_errors=True)
    _, dis = counts(out)
    if rc == 0 and "No error has been found" in out:
        return True, dis, None, None, out
    t = re.findall(r"tid = (\d+)", out)
    l = re.findall(r"\bl = (\d+)", out)
    if not t:
        raise ToolError("trace validation gave no verdict (rc=%d):\n%s" % (rc, out[-3000:]))
    return False, dis, int(t[-1]), int(l[-1]), out


class Suite:
    """Scripts run through one driver build and validated against one trace specification."""

    def __init__(self, name, driver, spec, scripts, defs=(), asan=True, shards=None, extra=(), env=None, tenv=None):
        self.name, self.driver, self.spec, self.scripts = name, driver, spec, scripts
        self.defs, self.asan, self.shards, self.extra, self.env = defs, asan, shards, extra, env
        self.tenv = tenv


def explain(tr, l):
    ev = tr["e"]
    lo = max(0, l - 12)
    txt = ["rejected event #%d of trace (variant %s, order %s)" % (l, tr["c"], tr["k"])]
    for i in range(lo, min(l, len(ev))):
        txt.append(("-> " if i == l - 1 else "   ") + json.dumps(ev[i])[:1500])
    return "\n".join(txt)


def judge(ctx, suite, exe, scripts, tag):
    """Run and validate one shard; raises Violation on a confirmed rejection."""
    d = ctx.dir("run-%s-%s" % (suite.name, tag))
    path, err = run_driver(exe, scripts, d, "t", suite.env)
    nev = nst = 0
    lens, first = [], []
    with open(path) as f:
        for ln in f:
            first.append(ln[:1500])
            n = json.loads(ln)["e"].__len__()
            lens.append(n)
    if len(lens) != len(scripts):
        raise ToolError("driver recorded %d traces for %d scripts" % (len(lens), len(scripts)))
    nev, nst = sum(lens), sum(lens) + len(lens)
    ok, dis, tid, l, out = validate(suite.spec, path, d, tenv=suite.tenv)
    if ok:
        if dis != nst:
            raise ToolError("validation of %s covered %d states, expected %d" % (suite.name, dis, nst))
        with ctx.lock:
            ctx.cov["traces_validated_against_impl"] += len(lens)
            ctx.cov["events_validated"] += nev
            if len(ctx.cov["samples"]) < 6:
                k = min(range(len(scripts)), key=lambda i: (len(scripts[i].lines) < 5, len(scripts[i].lines)))
                ctx.cov["samples"].append(dict(suite=suite.name, script=scripts[k].text(k + 1)[:1500], recorded=first[k][:1500]))
        shutil.rmtree(d, ignore_errors=True)
        return nev
    bad = scripts[tid - 1]
    with open(path) as f:
        for i, ln in enumerate(f):
            if i == tid - 1:
                tr = json.loads(ln)
    # confirm on a fresh run of that one script
    confirmed, last = False, None
    for k in range(3):
        d2 = ctx.dir("confirm")
        p2, err2 = run_driver(exe, [bad], d2, "t", suite.env)
        ok2, _, _, l2, out2 = validate(suite.spec, p2, d2, tenv=suite.tenv)
        if not ok2:
            confirmed = True
            tr2 = json.loads(open(p2).readline())
            last = (tr2, l2, err2, out2)
            break
    why = tr["e"][l - 1] if 0 < l <= len(tr["e"]) else {}
    if not confirmed and why.get("op") == "fault" and (why.get("why") == "hang" or why.get("code") == 9):
        # a time or memory limit hit once and not again says nothing about the library
        rest = scripts[:tid - 1] + scripts[tid:]
        return judge(ctx, suite, exe, rest, tag + "x") if rest else 0
    if last:
        tr, l, err, out = last
    tail = "\n".join(x for x in out.splitlines() if "Error" in x or "error" in x)[:2000]
    raise Violation("the recorded run is not a behaviour of %s (variant %s, event %d: %s)" %
                    (suite.spec, tr["c"], l, json.dumps(tr["e"][l - 1])[:300] if 0 < l <= len(tr["e"]) else "?"),
                    {"script.txt": bad.text(1), "trace.ndjson": json.dumps(tr) + "\n",
                     "explain.txt": explain(tr, l) + "\n\n" + tail + "\n\n" + err[:6000] +
                     "\n\ndriver: %s %s\nspecification: spec/%s.tla\n" % (suite.driver, " ".join(suite.defs), suite.spec)})


def run_suites(ctx, suites, par=4):
    """Build all drivers in parallel, then run + validate shards in parallel."""
    keys = {}
    for s in suites:
        keys.setdefault((s.driver, tuple(s.defs), s.asan, tuple(s.extra)), []).append(s)
    with ThreadPoolExecutor(8) as ex:
        fs = {k: ex.submit(build, ctx, k[0], k[1], k[2], k[3]) for k in keys}
        exes = {k: f.result() for k, f in fs.items()}
    jobs = []
    for k, ss in keys.items():
        for s in ss:
            sc = s.scripts() if callable(s.scripts) else s.scripts
            if not sc:
                raise ToolError("suite %s has no scripts" % s.name)
            weight = sum(len(x.lines) for x in sc)
            n = s.shards or max(1, min(8, weight // 6000))
            sh = [[] for _ in range(n)]
            for i, x in enumerate(sc):
                sh[i % n].append(x)
            for i, x in enumerate(sh):
                if x:
                    jobs.append((s, exes[k], x, "%d" % i))
            ctx.cov["suites"].append(dict(name=s.name, driver=s.driver, defs=list(s.defs), spec=s.spec,
                                          scripts=len(sc), ops=weight, variants=sorted({x.var for x in sc})))
    jobs.sort(key=lambda j: -sum(len(x.lines) for x in j[2]))
    with ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(judge, ctx, *j) for j in jobs]
        err = None
        for f in fs:
            try:
                f.result()
            except (Violation, ToolError, subprocess.TimeoutExpired) as e:
                if err is None or (isinstance(e, Violation) and not isinstance(err, Violation)):
                    err = e
        if err:
            raise err


def run_models(ctx, models, par=4):
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda m: m.run(ctx), models))
