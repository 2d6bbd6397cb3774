#!/usr/bin/env python3
"""Development aid: turns the list in seeds_list.py into /verif/seeded/<id>/ after
confirming, with the change applied to /repo and undone afterwards, that it compiles,
passes the stable tests, and that the demonstration passes without it and fails with it.
No check uses this.   usage: mkseeds.py [id ...]   (env CHECKS=1: also run the checks)"""
import os, sys, json, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from seeds_list import SEEDS
REPO = "/repo"; OUT = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def restore(): sh("git -C /repo checkout -- .")
DEMO_SH = """#!/bin/bash
# cwd: the repository. Exit 0: the property held; nonzero: it was broken.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
g++ -std=c++17 -g -w %s -I . "$here/demo.cpp" -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
rc=$?
rm -f "$t/demo"; rmdir "$t"
exit $rc
"""
PRE = """#include <cstdio>
#include <cstdlib>
#include <vector>
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
"""
def main():
    ids = sys.argv[1:]
    assert not sh("git -C /repo status --short").stdout
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = os.path.join(OUT, s["id"])
        edits = s["edits"]
        try:
            for (f, old, new, *n) in edits:
                p = os.path.join(REPO, f); t = open(p).read(); n = n[0] if n else 1
                assert t.count(old) >= n, (s["id"], f, old, t.count(old))
                i = -1
                for _ in range(n): i = t.index(old, i + 1)
                open(p, "w").write(t[:i] + new + t[i+len(old):])
            patch = sh("git -C /repo diff").stdout.decode()
            blame_ok = True
            for (f, *_r) in edits:
                # removed lines must be lines of the original repository
                for l in sh(f"git -C /repo diff -U0 -- {f}").stdout.decode().splitlines():
                    if l.startswith("@@"):
                        a = l.split()[1][1:]; st, _, c = a.partition(","); c = int(c or 1)
                        for k in range(int(st), int(st)+c):
                            b = sh(f"git -C /repo blame -s -L{k},{k} HEAD -- {f}").stdout.decode()
                            if "caa7587" not in b.split()[0]: blame_ok = False; print("   not original:", b.strip())
            tests = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            res = json.load(open("/tmp/seed_out.json")) if os.path.exists("/tmp/seed_out.json") else {}
            failed = res.get("failed", []) or ([] if res else ["build"])
            okt = not failed and len(res.get("passed", [])) >= 20
            os.makedirs(d, exist_ok=True)
            open(d+"/patch.diff", "w").write(patch)
            open(d+"/demo.cpp", "w").write(PRE + s["demo"])
            open(d+"/demo.sh", "w").write(DEMO_SH % s.get("flags", "-fsanitize=address"))
            os.chmod(d+"/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d+"/meta.json", "w"), indent=1)
            bad = sh(f"cd /repo && bash {d}/demo.sh")
            caught = []
            if os.environ.get("CHECKS"):
                for c in [s["prop"]] + s.get("also", []):
                    r = sh(f"cd /verif && python3 tools/check.py {c} quick")
                    caught.append(f"{c}:{r.returncode}")
        finally:
            restore()
            if os.path.exists("/tmp/seed_out.json"): os.unlink("/tmp/seed_out.json")
        good = sh(f"cd /repo && bash {d}/demo.sh")
        ok = okt and blame_ok and bad.returncode != 0 and good.returncode == 0
        print(s["id"], s["prop"], "OK " if ok else "BAD", "tests", "pass" if okt else failed or tests.stdout.decode()[-300:], "demo clean", good.returncode, "patched", bad.returncode, bad.stdout.decode().strip().splitlines()[:1], caught, flush=True)
        if good.returncode: print(good.stdout.decode()[-600:])
        if not ok: shutil.rmtree(d)
    sh("bash /opt/vp/build.sh")
main()
