#!/usr/bin/env python3
"""Development aid: small syntactic changes of the library that compile and pass the repository's tests, and whether
the checks of the properties they concern notice them.  Works on copies under /tmp/mut only.

  mutate.py gen  FILE...          list mutants that survive the repository's tests -> /tmp/mut/cand.jsonl (appends)
  mutate.py run  [start [end]]    run the checks on the candidates                  -> /tmp/mut/result.jsonl (appends)
"""
import glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = "/tmp/mut"
os.makedirs(OUT, exist_ok=True)
CHECKS = {
    "Vector.hpp": "C28 C01 C25 C16 C17 C18 C19 C22 C29", "Array.hpp": "C23 C16 C22 C18", "BasicString.hpp": "C02 C25 C16 C17 C19 C22 C29",
    "DoublyLinkedList.hpp": "C03 C27 C22 C16 C17 C18 C29", "SinglyLinkedList.hpp": "C03 C27 C22 C16 C17 C18 C29", "LinkedList.hpp": "C03 C27 C16 C17 C18 C25 C22 C29",
    "EmbeddedList.hpp": "C24 C03 C22", "DoubleEndedQueue.hpp": "C28 C04 C27 C22 C16 C17 C18 C19 C25 C29", "Queue.hpp": "C05 C22 C16", "Stack.hpp": "C05 C22 C16 C17",
    "XValueStack.hpp": "C06 C16 C17 C25 C22 C29", "Heap.hpp": "C07 C16 C17 C25 C22 C18 C19 C29", "BinarySearchTree.hpp": "C08 C09 C21 C16 C17 C25 C18 C19 C22 C29",
    "BinarySearchTreeBase.hpp": "C08 C21 C22", "BinaryTree.hpp": "C21 C08 C09 C22 C18 C19 C16", "EmbeddedBinaryTree.hpp": "C21 C08 C24 C09 C22",
    "tree-base.hpp": "C21 C08 C24 C22", "AVLTree.hpp": "C09 C27 C10 C11 C16 C17 C21 C18 C19 C25 C22 C29", "Map.hpp": "C11 C27 C16 C17 C25 C22 C29", "DisjointSet.hpp": "C12 C16 C17 C19 C29",
    "StaticMemAllocator.hpp": "C13 C14 C15 C20", "libc-dstruct-port.hpp": "C01 C26 C19", "sma-dstruct-port.hpp": "C20", "Iterator.hpp": "C22 C26 C01",
    "algorithm.hpp": "C22 C26", "common.hpp": "C26 C18 C01 C16 C17", "utils.hpp": "C26 C22 C07 C16",
}
SW = [("left", "right"), ("next", "prev"), ("begin", "end"), ("front", "back"), ("root1", "root2"), ("first", "second"), ("true", "false"),
      ("push_back", "push_front"), ("pop_back", "pop_front"), ("mBegin_d", "mEnd_d"), ("a", "b")]


def mutants(line):
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("#", "*", "/*", "template", "using", "typedef", "public", "private", "protected", "friend", "namespace")):
        return
    def rep(m, new):
        return line[:m.start()] + new + line[m.end():]
    for pat, news in ((r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r"==", ["!="]), (r"!=", ["=="]),
                      (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r"\+\+", ["--"]), (r"--", ["++"]),
                      (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
                      (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])3(?![\w.])", ["2"]), (r"!(?=[\w(])", [""]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "])):
        for m in re.finditer(pat, code):
            if pat in (r" < ", r" > ") and "template" in code:
                continue
            for n in news:
                yield rep(m, n)
    for a, b in SW:
        for x, y in ((a, b), (b, a)):
            for m in re.finditer(r"\b%s\b" % x, code):
                yield rep(m, y)
    m = re.match(r"^(\s*)(else )?if \((.*)\)(\s*\{)?(.*)$", code.rstrip())
    if m:
        for v in ("true", "false"):
            yield "%s%sif (%s)%s%s\n" % (m.group(1), m.group(2) or "", v, m.group(4) or "", m.group(5))
    s = code.strip()
    if s.endswith(";") and not s.startswith(("return", "const ", "}", "typename", "static", "auto", "int ", "bool ", "T ", "case", "default", "break")) and ("=" in s or "(" in s or "++" in s or "--" in s):
        yield re.sub(r"\S.*$", ";", code.rstrip()) + "\n"
    if s == "break;":
        yield code.replace("break;", ";")


def tests():
    t = ["tests/main.cpp"]
    for root, _, fs in os.walk("/repo/examples"):
        t += [os.path.relpath(os.path.join(root, f), "/repo") for f in fs if f.endswith(".cpp")]
    return t


def copy(tag):
    d = os.path.join(OUT, "w-%s" % tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
    return d


def passes(d, T):
    for t in T:
        exe = os.path.join(d, "t.exe")
        c = subprocess.run(["g++", "-std=c++11", "-w", "-O0", "-I", d, "-I", d + "/tests", os.path.join(d, t), "-o", exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if c.returncode:
            return False
        try:
            r = subprocess.run([exe], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=10)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True


def gen(files):
    T = sorted(tests(), key=lambda x: x != "tests/main.cpp")
    rng = random.Random(1)
    jobs = []
    for f in files:
        rel = os.path.relpath(os.path.abspath(f), "/repo")
        L = open(f).read().split("\n")
        seen = set()
        inc = False
        for i, l in enumerate(L):
            if "/*" in l:
                inc = True
            if "*/" in l:
                inc = False
                continue
            if inc:
                continue
            for n in mutants(l):
                n = n.rstrip("\n")
                if n != l and (i, n) not in seen:
                    seen.add((i, n))
                    jobs.append(dict(file=rel, line=i + 1, old=l, new=n))
    print(len(jobs), "mutants")
    def one(j):
        d = copy("g%d" % j["k"])
        L = open(os.path.join("/repo", j["file"])).read().split("\n")
        L[j["line"] - 1] = j["new"]
        open(os.path.join(d, j["file"]), "w").write("\n".join(L))
        ok = passes(d, T)
        shutil.rmtree(d, ignore_errors=True)
        return j if ok else None
    for k, j in enumerate(jobs):
        j["k"] = k
    n = 0
    with ThreadPoolExecutor(4) as ex, open(OUT + "/cand.jsonl", "a") as o:
        for r in ex.map(one, jobs):
            if r:
                n += 1
                o.write(json.dumps(r) + "\n")
                o.flush()
    print(n, "survive the tests")


def run(a, b):
    C = [json.loads(l) for l in open(OUT + "/cand.jsonl")]
    done = set()
    if os.path.exists(OUT + "/result.jsonl"):
        done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(OUT + "/result.jsonl"))}
    for j in C[a:b]:
        if (j["file"], j["line"], j["new"]) in done:
            continue
        d = copy("r%d" % os.getpid())
        L = open(os.path.join("/repo", j["file"])).read().split("\n")
        assert L[j["line"] - 1] == j["old"]
        L[j["line"] - 1] = j["new"]
        open(os.path.join(d, j["file"]), "w").write("\n".join(L))
        j["by"], j["other"] = None, []
        for c in CHECKS[os.path.basename(j["file"])].split():
            p = subprocess.run(["timeout", "600", "python3", VERIF + "/tools/check.py", c, "quick"], env=dict(os.environ, DSTRUCT_REPO=d),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 1:
                j["by"] = c
                break
            if p.returncode != 0:
                j["other"].append((c, p.returncode, p.stdout.decode("utf-8", "replace")[-300:]))
        shutil.rmtree(d, ignore_errors=True)
        with open(OUT + "/result.jsonl", "a") as o:
            o.write(json.dumps(j) + "\n")
        print(j["by"], j["file"], j["line"], j["new"].strip()[:100], [x[:2] for x in j["other"]], flush=True)


# ---- fast mode: the quick scripts are recorded once on the unchanged library; a mutant is run through the same
# drivers and only runs that differ are given to TLC
def prep(checks):
    import pickle
    sys.path.insert(0, VERIF + "/tools")
    import lib
    from plans import PLANS
    os.makedirs(OUT + "/prep", exist_ok=True)
    for c in checks:
        ctx = lib.Ctx(c, "quick", 1)
        models, suites = PLANS[c](ctx)
        lib.run_models(ctx, models)
        out = []
        for s in suites:
            sc = s.scripts() if callable(s.scripts) else s.scripts
            exe = lib.build(ctx, s.driver, s.defs, s.asan, s.extra)
            d = ctx.dir("prep")
            p, _ = lib.run_driver(exe, sc, d, "t", s.env)
            out.append(dict(name=s.name, driver=s.driver, defs=list(s.defs), extra=list(s.extra), asan=s.asan, env=s.env, tenv=s.tenv, spec=s.spec,
                            scripts=sc, clean=open(p).read().split("\n")))
            p, _ = lib.run_driver(exe, sc, ctx.dir("prep"), "t", s.env)
            again = open(p).read().split("\n")
            print(c, s.name, len(sc), "nondeterministic: %d" % sum(x != y for x, y in zip(again, out[-1]["clean"])))
        pickle.dump(out, open(OUT + "/prep/%s.pkl" % c, "wb"))
        ctx.close()


def fast1(j):
    import pickle
    sys.path.insert(0, VERIF + "/tools")
    import lib
    d = copy("f%d" % os.getpid())
    L = open(os.path.join(d, j["file"])).read().split("\n")
    if L[j["line"] - 1] != j["old"]:
        return None
    L[j["line"] - 1] = j["new"]
    open(os.path.join(d, j["file"]), "w").write("\n".join(L))
    lib.REPO = d
    ctx = lib.Ctx("M", "quick", 1)
    exes = {}
    j["by"], j["other"] = None, []
    try:
        for c in CHECKS[os.path.basename(j["file"])].split():
            f = OUT + "/prep/%s.pkl" % c
            if not os.path.exists(f):
                continue
            for s in pickle.load(open(f, "rb")):
                try:
                    k = (s["driver"], tuple(s["defs"]), s["asan"], tuple(s["extra"]))
                    if k not in exes:
                        exes[k] = lib.build(ctx, s["driver"], s["defs"], s["asan"], s["extra"])
                    w = ctx.dir("m")
                    p, _ = lib.run_driver(exes[k], s["scripts"], w, "t", s["env"])
                    got = open(p).read().split("\n")
                    diff = [i for i in range(len(s["scripts"])) if i >= len(got) or got[i] != s["clean"][i]]
                    if not diff:
                        continue
                    for i in sorted(diff, key=lambda i: len(got[i]))[:2] + diff[:2]:
                        q = os.path.join(w, "one%d.ndjson" % i)
                        open(q, "w").write(got[i] + "\n")
                        if not lib.validate(s["spec"], q, w, workers=1, tenv=s["tenv"])[0]:
                            j["by"] = c
                            break
                    else:
                        j["other"].append((c, s["name"], len(diff)))
                except lib.Violation:
                    j["by"] = c
                except Exception as e:
                    j["other"].append((c, s["name"], str(e)[:200]))
                if j["by"]:
                    break
            if j["by"]:
                break
    finally:
        ctx.close()
        shutil.rmtree(d, ignore_errors=True)
    return j


def fast(n, a, b):
    from multiprocessing import Pool
    C = [json.loads(l) for l in open(OUT + "/cand.jsonl")]
    done = set()
    if os.path.exists(OUT + "/result.jsonl"):
        done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(OUT + "/result.jsonl"))}
    C = [j for j in C[a:b] if (j["file"], j["line"], j["new"]) not in done]
    random.Random(5).shuffle(C)
    with Pool(n, maxtasksperchild=10) as p, open(OUT + "/result.jsonl", "a") as o:
        for j in p.imap_unordered(fast1, C):
            if j:
                o.write(json.dumps(j) + "\n")
                o.flush()
                print(j["by"], j["file"], j["line"], j["new"].strip()[:100], j["other"], flush=True)


if sys.argv[1] == "prep":
    prep(sys.argv[2:])
elif sys.argv[1] == "fast":
    fast(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0, int(sys.argv[4]) if len(sys.argv) > 4 else None)
elif sys.argv[1] == "gen":
    gen(sys.argv[2:])
else:
    run(int(sys.argv[2]) if len(sys.argv) > 2 else 0, int(sys.argv[3]) if len(sys.argv) > 3 else None)
