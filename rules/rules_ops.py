"""Rules over the run-time operations (Processor::call_opc): the transformer of
every operation, computed from the source for every combination of operand
types and locations, equals the reference operation table."""
import os, signal, sys, time, traceback
from multiprocessing import get_context
from core import *
from spec import *
from ops3 import OPS
from ops import UNSUPPORTED
from absint import Out

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
_SIM = None
END = time.time() + float(os.environ.get("VERIF_SECONDS", "540"))


def clock():
    """the time left for the run bounds the obligation that starts"""
    def late(*_):
        raise AnalysisError("out of time")
    left = END - time.time()
    if left < 1:
        late()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, left, 5)


def stopped():
    signal.setitimer(signal.ITIMER_REAL, 0)


def task(a):
    """analyse one partition of one operation (in a worker process)"""
    num, i = a
    o = OPS[num]
    part = o.partitions(_SIM)[i]
    r = {"num": num, "name": o.name, "part": part.name, "group": o.group, "paths": 0, "diffs": [], "err": None,
         "checks": [], "funcs": []}
    try:
        clock()
        it = _SIM.interp()
        it.check_enabled = True
        fn = _SIM.prog.one("Processor::call_opc")
        outs = it.run(fn, [ptr("M", _SIM.cpu), const(num, 32)], part.mk())
        d = []
        for x in outs:
            d += compare(_SIM, it, x, part.mk, lambda m: o.fn(m), [])
        r["paths"] = len(outs)
        r["diffs"] = sorted(set(d))[:5]
        r["checks"] = [(k, v[0], str(v[1])[:300]) for k, v in it.checks.items()]
        r["funcs"] = sorted(it.analysed)
    except AnalysisError as e:
        r["err"] = str(e)[:300]
    except RecursionError:
        r["err"] = "analysis too deep"
    except Exception as e:
        r["err"] = "outside the analysed fragment: %s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        stopped()
    if r["diffs"] and _SIM.vanished():
        r["err"] = "anchor vanished: " + ", ".join(_SIM.vanished()[:5])
    return r


def run_tasks(ctx, tasks, f=task):
    global _SIM
    _SIM = ctx.sim
    if JOBS <= 1 or len(tasks) < 4:
        return [f(t) for t in tasks]
    with get_context("fork").Pool(JOBS) as p:
        return p.map(f, tasks, chunksize=1)


def parts(ctx, groups):
    """results of all partitions of the operations in the groups; cached"""
    done = ctx.get("opparts", dict)
    todo = []
    nums = [n for n in sorted(OPS) if groups is None or OPS[n].group in groups or OPS[n].name in groups]
    for n in nums:
        if n not in done:
            todo += [(n, i) for i in range(len(OPS[n].partitions(ctx.sim)))]
            done[n] = []
    # long ones first
    heavy = {56: 0, 92: 1, 93: 1, 90: 2, 91: 2}
    todo.sort(key=lambda t: (heavy.get(t[0], 9), -t[1]))
    for r in run_tasks(ctx, todo):
        done[r["num"]].append(r)
        ctx.functions |= set(r["funcs"])
        ctx.paths += r["paths"]
    return [r for n in nums for r in done[n]]


def op_obligations(ctx, *groups):
    where = ctx.where(ctx.simprog, "Processor::call_opc")
    res = []
    for r in parts(ctx, groups):
        what = "operation %s (%d) %s" % (r["name"], r["num"], r["part"])
        if r["err"]:
            res.append(undecided(what, where, r["err"]))
        elif r["diffs"]:
            res.append(bad(what, case_loc(ctx, r["num"], where), r["diffs"][0], "op%d|%s" % (r["num"], r["part"])))
        else:
            res.append(ok("%s: %d paths" % (what, r["paths"]), where))
    return res


def case_loc(ctx, num, where):
    """source position of the switch case of an operation"""
    fn = ctx.simprog.one("Processor::call_opc")
    for b in fn.blocks.values():
        for I in b.ins:
            if I.op == "switch":
                for k, t in I.x[1]:
                    if k == num:
                        for J in fn.blocks[t].ins:
                            if J.loc and J.loc[1]:
                                return "%s (%s:%s)" % (fn.short, J.loc[0], J.loc[1])
    return where


def ops_rule(title, *groups):
    def rule(ctx):
        return op_obligations(ctx, *(groups or sorted({o.group for o in OPS.values()})))
    rule.__doc__ = title
    rule.__name__ = "ops_" + "_".join(groups)
    return rule


# sites whose safety rests on a data-structure invariant that the table states,
# not on a check in the same operation; (function, kind): reason
INVARIANT = {
    ("Virtual_Stack::get", "vector-index"): "the function result cell lies below the display block of a live frame, inside the stack",
    ("IND", "div-zero"): "strides in a storage function are products of positive extents and the element size",
    ("SPACE", "signed-overflow"): "the counter starts at an X1 integer and only decreases to zero",
}


def safety_rule(ctx):
    """no undefined arithmetic, shift or index in any run-time operation"""
    sites = {}
    for r in parts(ctx, None):
        if r["err"]:
            continue
        for k, good, detail in r["checks"]:
            s = sites.setdefault(k, [True, "", set()])
            if not good:
                s[0], s[1] = False, detail
                s[2].add(r["name"])
    res = []
    for (kind, file, line, fn), (good, detail, ops) in sorted(sites.items(), key=str):
        where = "%s (%s:%s)" % (fn, str(file).replace("/repo/", ""), line)
        what = "%s at %s" % (kind, where)
        ctx.sites += 1
        if good:
            res.append(ok(what, where))
        elif (fn, kind) in INVARIANT or all((o, kind) in INVARIANT for o in ops):
            why = INVARIANT.get((fn, kind)) or INVARIANT[(sorted(ops)[0], kind)]
            res.append(undecided(what, where, "relies on: " + why))
        else:
            res.append(bad(what, where, detail, "%s|%s" % (kind, fn)))
    return res
