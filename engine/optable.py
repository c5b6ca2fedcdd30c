"""Comparison of the operation transformers computed from the source with the
reference operation table."""
from ops3 import *
import ops as OPSMOD


def check_part(sim, num, part):
    o = OPS[num]
    it = sim.interp()
    it.check_enabled = True
    fn = sim.prog.one("Processor::call_opc")
    outs = it.run(fn, [ptr("M", sim.cpu), const(num, 32)], part.mk())
    diffs = []
    for x in outs:
        diffs += compare(sim, it, x, part.mk, lambda m: o.fn(m), [])
    return it, outs, diffs


if __name__ == "__main__":
    import sys, time
    sim = Sim()
    nums = [int(x) for x in sys.argv[1:]] or sorted(OPS)
    for n in nums:
        for part in OPS[n].partitions(sim):
            t0 = time.time()
            try:
                it, outs, diffs = check_part(sim, n, part)
                print(n, OPS[n].name, part.name, len(outs), "paths", "%.2f" % (time.time() - t0), "OK" if not diffs else "DIFF")
                for d in sorted(set(diffs))[:6]:
                    print("     ", d)
                for k, v in it.checks.items():
                    if not v[0] and len(sys.argv) > 1:
                        print("     !!", k, v)
            except AnalysisError as e:
                print(n, OPS[n].name, part.name, "ANALYSIS ERROR", e)
