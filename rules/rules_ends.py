"""How the compiler ends: success exactly for a complete translation, written out."""
from rules_comp import *

PHASES = ("read_until_next_delimiter", "prescan", "main_scan", "program_loader")


def prints(ev, o, after=None):
    r, on = [], after is None
    for e in o.st.events:
        if on and e[0] == "print":
            r.append((e[1],) + tuple(sgn_(ev(x), x.w) if isinstance(x, T) and isinstance(x.w, int) else x for x in e[2]))
        if e[0] == after:
            on = True
    return r


def main_check(comp):
    tables(comp)
    it, outs, full = comp._main
    s = Summary(comp, it, outs, "in", None)
    diffs, n = [], 0
    for argc, optind in ((1, 1), (2, 1), (3, 1), (3, 2), (2, 2)):
        for opened in (0, 1):
            for flush, ferr in ((0, 0), (-1, 0), (0, 1), (1, 0), (-1, 1)):
                for words, nk in ((0, 0), (1, 0), (3, 0), (2, 2), (1, 3)):
                    v = {"argc": argc, "optind": optind, ("opened", 0): opened, "rnsb": 2000, "plib": 6000, "mcpe": 9000, "rlib": 9000, "rlsc": words, "klsc": nk,
                         "has directory": 0}
                    st = {9000 + k: 31337 + k for k in range(8)}
                    ev, ps = s.paths(Situation(v, {"store": st}, {"flush": [flush] * 4, "ferror": [ferr] * 4}))
                    n += 1
                    if not ps:
                        raise NoPath("main")
                    source = argc == optind or opened
                    good = source and not flush and not ferr
                    for o in ps:
                        e = ending(ev, o)
                        kinds = [x[0] for x in o.st.events]
                        d = None
                        if good != (e == ("exit", "success")):
                            d = "ends with %s" % (e,)
                        elif source and [k for k in kinds if k in PHASES] != list(PHASES):
                            d = "the phases are %s" % [k for k in kinds if k in PHASES]
                        elif not source and any(k in PHASES for k in kinds):
                            d = "a missing source is compiled"
                        elif source and argc != optind and kinds.count("fopen") != 1:
                            d = "the source is not opened"
                        elif good:
                            w = [p[1:] for p in prints(ev, o, "program_loader") if p[0] == "%5d%10d\n"]
                            if w != [(9000 + k, 31337 + k) for k in range(words + nk)]:
                                d = "an object program of %d words and %d constants is written as %s" % (words, nk, w)
                            elif "flush" not in kinds:
                                d = "reports success before the output is known to be written"
                            elif kinds.index("flush") < max(k for k, x in enumerate(o.st.events) if x[0] == "print"):
                                d = "output is written after the test for failure"
                        if not good and d is None and not any(k in ("perror", "print", "fprint") for k in kinds[-3:]):
                            d = "ends without a message"
                        if d:
                            diffs.append("%d further arguments, source %s, flush %d, write error %d: %s" % (argc - optind, "opened" if opened else "missing", flush, ferr, d))
        if len(diffs) > 4:
            break
    return diffs, n, len(outs), it.analysed


def source_check(comp):
    """options before the source"""
    it = comp.interp()
    it.cut = 4
    it.models["PASCAL_MAIN"] = lambda it, I, args, st, fn: [Out("exit", ("begin", const(0, 32)), st, I.loc)]
    outs = it.run(comp.prog.one("main"), [sym("argc", 32), ptr("argv", 0)], State())
    s = Summary(comp, it, outs, "in", None)
    diffs, n = [], 0
    for opts in ([], ["b"], ["v"], ["b", "v"], ["v", "b"], ["h"], ["b", "h"], ["b", "b"]):
        sit = Situation({"argc": 2, "optind": 1, ("opened", 0): 1, "binary_lib_tape": 0, "verbose_tape": 0}, {}, {"getopt": [ord(c) for c in opts] + [-1]})
        ev, ps = s.paths(sit)
        n += 1
        if not ps:
            raise NoPath("options")
        for o in ps:
            g, arr = outcome(comp, ev, o)
            e = ending(ev, o)
            began = o.kind == "exit" and o.val[0] == "begin"
            d = None
            if "h" in opts:
                if began or e != ("exit", "success") or not prints(ev, o):
                    d = "does not print the usage and end with success"
            elif not began:
                d = "the source is not compiled"
            elif (g.get("binary_lib_tape", 0), g.get("verbose_tape", 0)) != (int("b" in opts), int("v" in opts)):
                d = "binary %s, verbose %s" % (g.get("binary_lib_tape", 0), g.get("verbose_tape", 0))
            if d:
                diffs.append("options %s: %s" % (opts, d))
    return diffs, n, len(outs), it.analysed


def stop_check(comp):
    it = comp.interp()
    del it.models["stop"]
    it.cut = 4
    outs = it.run(comp.prog.one("stop"), [sym("n", 32), ptr("text", 0)], State())
    s = Summary(comp, it, outs, "in", None)
    diffs, n = [], 0
    for num in (0, 3, 25, 99, 108):
        for eof in (0, 1):
            ev, ps = s.paths(Situation({"n": num, ("eof", 0): eof}, {}, {}))
            n += 1
            if not ps:
                raise NoPath("stop")
            for o in ps:
                e = ending(ev, o)
                if e != ("exit", "failure"):
                    diffs.append("an error ends with %s" % (e,))
                elif not any(x[0] in ("print", "fprint") for x in o.st.events):
                    diffs.append("an error ends without a message")
    return diffs, n, len(outs), it.analysed


EXITS = ("exit", "_exit", "quick_exit", "abort")
SAYS = ("printf", "puts", "putchar", "perror", "fprintf", "stop", "list_undefined_references", "fputs", "fwrite")


def calls(f):
    for b in f.blocks.values():
        for I in b.ins:
            if I.op in ("call", "invoke"):
                yield b, I


def exits_check(comp):
    """every place that ends the compiler: status constant, success in the main program only, a message on every path to a failure"""
    diffs, n, fs = [], 0, set()
    says = set(SAYS)
    fns = list(comp.prog.repo_fns())
    for f in fns:
        sites = []
        for b, I in calls(f):
            sh = comp.prog.shortname(I.x[0].v) if I.x[0].k != "reg" else None
            if sh in EXITS:
                sites.append((b, I, sh))
        if not sites:
            continue
        fs.add(f.short)
        # blocks at whose beginning a message has been printed on every path
        def talks(b, upto=None):
            for I in b.ins:
                if I is upto:
                    return False
                if I.op in ("call", "invoke") and I.x[0].k != "reg" and comp.prog.shortname(I.x[0].v) in says:
                    return True
            return False
        said = {b: True for b in f.blocks}
        entry = next(iter(f.blocks))
        said[entry] = False
        changed = True
        while changed:
            changed = False
            for bn, b in f.blocks.items():
                if bn == entry:
                    continue
                v = all(said[p] or talks(f.blocks[p]) for p in b.pred)
                if v != said[bn]:
                    said[bn], changed = v, True
        name = {id(b): k for k, b in f.blocks.items()}
        for b, I, sh in sites:
            n += 1
            a = I.ops[0] if I.ops else None
            c = a.v if a is not None and a.k in ("int", "const") else None
            where = "%s:%s" % (f.short, I.loc[1] if I.loc else "?")
            if sh != "abort" and not isinstance(c, int):
                diffs.append("%s ends with a computed status" % where)
            elif sh != "abort" and c & 255 == 0:
                if f.short != "main":
                    diffs.append("%s ends the compiler with success" % where)
            elif not said[name[id(b)]] and not talks(b, I):
                diffs.append("%s ends the compiler without a message" % where)
    if not n:
        raise AnalysisError("no place that ends the compiler")
    return diffs, n, n, fs


@group("ends")
def _(comp):
    return [Check("main program: success only for a complete translation", "main", main_check), Check("main program: options", "main", source_check),
            Check("errors end the compiler with failure and a message", "stop", stop_check), Check("all places that end the compiler", "main", exits_check)]
