#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property from the current source of /repo.  Exit 0: every
obligation holds (known findings excepted); exit 1: a VIOLATION line names the
construct; other exits: the analysis itself is broken (vanished anchor)."""
import sys, os, json, time, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
sys.setrecursionlimit(20000)

from core import Ctx, Anchor          # noqa: E402
from ir import AnalysisError          # noqa: E402
import registry                       # noqa: E402


def known():
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding: "):
            head, _, what = line[9:].partition(" :: ")
            f = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
            r.append((f["property"], f["key"], what))
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    verbose = "--verbose" in sys.argv
    status = 0
    for pid in args or sorted(registry.PROPS):
        status = max(status, run(pid, tier, verbose))
    return status


def run(pid, tier, verbose):
    t0 = time.time()
    ctx = Ctx(tier)
    obs, undecided, broken = [], [], []
    for rule in registry.PROPS[pid]:
        ctx.rule = rule.__name__
        n0 = len(obs)
        try:
            for ob in rule(ctx):
                ob.rule = rule.__doc__.strip().split("\n")[0] if rule.__doc__ else rule.__name__
                obs.append(ob)
        except Anchor as x:
            broken.append("%s: %s" % (rule.__name__, x))
        except AnalysisError as x:
            broken.append("%s: %s" % (rule.__name__, x))
            if verbose:
                traceback.print_exc()
        except Exception as x:
            broken.append("%s: outside the analysed fragment: %s: %s" % (rule.__name__, type(x).__name__, str(x)[:200]))
            if verbose:
                traceback.print_exc()
        if len(obs) == n0 and not broken:
            broken.append("%s: no instance found" % rule.__name__)
    bad = [o for o in obs if o.status == "violation"]
    und = [o for o in obs if o.status == "undecided"]
    kn = known()
    new, seen = [], []
    for o in bad:
        k = [w for p, key, w in kn if p == pid and key == o.key]
        (seen if k else new).append(o)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(pid + "-violation"):
            os.remove(os.path.join(ev, f))
    rules = {}
    for o in obs:
        r = rules.setdefault(o.rule, {"obligations": 0, "discharged": 0, "undecided": 0})
        r["obligations"] += 1
        r["discharged"] += o.status == "ok"
        r["undecided"] += o.status == "undecided"
    funcs = sorted(ctx.functions)
    wall = time.time() - t0
    cov = {
        "explanation": registry.LEVEL.get(pid, "static analysis of the compiled program representation; see DESIGN.md"),
        "obligations": len(obs), "discharged": sum(o.status == "ok" for o in obs), "undecided": len(und),
        "rules": rules, "functions_analysed": len(funcs), "functions": funcs[:400],
        "paths": ctx.paths, "sites": ctx.sites,
        "obligation_list": [{"what": o.what, "where": o.where, "status": o.status} for o in obs][:1500],
        "undecided_list": [{"what": o.what, "why": o.detail[:300]} for o in und][:100],
    }
    rec = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
           "coverage": cov, "wall_s": round(wall, 3), "violations": len(new),
           "assumptions": registry.ASSUME.get(pid, []) + ctx.assume}
    for i, o in enumerate(new):
        path = os.path.join(ev, "%s-violation-%d.json" % (pid, i))
        d = {"property": pid, "rule": o.rule, "construct": o.where, "what": o.what, "detail": o.detail, "key": o.key}
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        if i < 40:
            print("%s: %s: %s" % (o.where, o.what, o.detail[:600]))
        if i < 5:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        cov.setdefault("violation_list", []).append({"replay": path, "what": "%s: %s: %s" % (o.where, o.what, o.detail[:300])})
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
    for o in und[:20]:
        print("UNDECIDED: %s: %s: %s" % (o.where, o.what, o.detail[:200]))
    for b in broken:
        print("ANALYSIS-BROKEN: %s" % b)
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violations, %.1f s" % (
        pid, len(obs), cov["discharged"], len(und), len(seen), len(new), wall))
    if new:
        return 1
    # a rule whose anchor is gone leaves its part undecided; a text that is not a program has no answer
    return 2 if not cov["discharged"] and any("clang failed" in b for b in broken) else 0


if __name__ == "__main__":
    sys.exit(main())
