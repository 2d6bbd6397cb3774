#!/usr/bin/env python3
"""check.py <property id>: decide one property of DStruct on the working tree of /repo.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: it does not hold.
Exit 2: the machinery itself failed (no verdict)."""
import json, os, shutil, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import Ctx, ToolError, Violation, VERIF

from plans import PLANS

ASSUME = ["the models are exhaustive only within the bounds listed under coverage.models",
          "conformance covers the recorded histories: covering walks of the model graphs and seeded random histories",
          "calls respect the documented preconditions (no pop/front/back of an empty container, indices in range)"]


def evidence(ctx, level, wall, viol):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    c = ctx.cov
    if viol:
        c["violation_details"] = viol
    json.dump(dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=c,
                   wall_s=round(wall, 1), violations=len(viol),
                   assumptions=ASSUME),
              open(os.path.join(d, ctx.pid + ".json"), "w"), indent=1)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    t0 = time.time()
    viol = []
    rc = 0
    try:
        models, suites = PLANS[pid](ctx)
        try:
            lib.run_models(ctx, models)
            lib.run_suites(ctx, suites)
        except Violation as v:
            rp = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d" % (pid, tier, seed))
            shutil.rmtree(rp, ignore_errors=True)
            os.makedirs(rp)
            for n, txt in v.files.items():
                open(os.path.join(rp, n), "w").write(txt)
            open(os.path.join(rp, "what.txt"), "w").write(v.what + "\n")
            print(v.what)
            if "explain.txt" in v.files:
                print(v.files["explain.txt"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            viol.append(dict(what=v.what, replay=rp))
            rc = 1
        evidence(ctx, "model_checking", time.time() - t0, viol)
        if rc == 0:
            c = ctx.cov
            print("%s held: %d model states, %d traces / %d events of the real code accepted, %.1fs" %
                  (pid, c["states"], c["traces_validated_against_impl"], c["events_validated"], time.time() - t0))
    except (ToolError, subprocess.TimeoutExpired) as e:
        print("NO VERDICT for %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("NO VERDICT for %s: the machinery failed" % pid)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.work)
        else:
            ctx.close()
    sys.exit(rc)


main()
