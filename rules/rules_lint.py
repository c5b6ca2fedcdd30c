"""Whole-program rules over the simulator: which functions may have which
outside effect, which exceptions exist and where they are caught, what the
trace option influences, and that a new machine is fully initialised."""
import re
from core import *
from spec import *
from sim import *
from host import Host, catches, ename, BASE, EFFECTS
from rules_prim import find


# ------------------------------------------------------------- call graph
def calls(prog, f):
    for b in f.blocks.values():
        for I in b.ins:
            if I.op in ("call", "invoke") and I.x[0].k == "glob" and not I.x[0].v.startswith("llvm."):
                yield I, I.x[0].v


def mentioned_fns(prog, f):
    """functions of the repository called or whose address is taken"""
    r = set()
    for b in f.blocks.values():
        for I in b.ins:
            vs = list(I.ops)
            if I.op in ("call", "invoke"):
                vs.append(I.x[0])
            for v in vs:
                if getattr(v, "k", None) == "glob":
                    g = prog.lookup(f.mod, v.v)
                    if g is not None:
                        r.add(g)
    return r


def callers(ctx):
    def make():
        prog = ctx.simprog
        r = {}
        for f in prog.fns.values():
            for g in mentioned_fns(prog, f):
                r.setdefault(g, set()).add(f)
        return r
    return ctx.get("callers", make)


def helper_of(ctx, f, allowed, seen=()):
    """f is one of the allowed functions or only called from them"""
    if f.short in allowed:
        return True
    if f in seen:
        return True
    cs = callers(ctx).get(f, set()) - {f}
    return bool(cs) and all(helper_of(ctx, c, allowed, seen + (f,)) for c in cs)


NONDET = [
    ("reads the time of day", r"^(time|gettimeofday|clock_gettime|localtime\w*|gmtime\w*|ftime|std::chrono::_V2::system_clock::now)$", ("Machine::mem_load",)),
    ("reads a running clock", r"^(clock|times|getrusage|std::chrono::_V2::(steady_clock|high_resolution_clock)::now|__rdtsc)$", ("Machine::show_progress", "Machine::Machine")),
    ("draws from an unseeded source", r"^(rand|random|drand48|lrand48|rand_r|getrandom|getentropy|arc4random\w*|srand|srandom)$|^std::random_device::", ()),
    ("depends on the process or host", r"^(getpid|getppid|gethostname|getuid|getcwd|uname|getlogin|pthread_self|sysconf|getrusage|ttyname)$", ()),
    ("depends on the environment", r"^(getenv|secure_getenv)$", ("Machine::find_default_library",)),
]


def effect_rule(table, doc):
    def rule(ctx):
        prog = ctx.simprog
        sites = {}
        for f in prog.repo_fns():
            ctx.functions.add(f.short)
            for I, nm in calls(prog, f):
                sh = prog.shortname(nm)
                for what, pat, allowed in table:
                    if re.match(pat, sh) and not (re.search(r"::basic_\w+$", sh) and len(I.ops) < 2):
                        sites.setdefault((what, sh, f), []).append(I)
        res = []
        for what, pat, allowed in table:
            mine = [(sh, f, I) for (w, sh, f), I in sites.items() if w == what]
            ctx.sites += len(mine)
            for sh, f, I in sorted(mine, key=lambda x: (x[0], x[1].short)):
                where = "%s (%s:%s)" % (f.short, str(I[0].loc[0]).replace("/repo/", ""), I[0].loc[1])
                res.append(verdict(helper_of(ctx, f, allowed), "%s: %s" % (what, sh), where,
                                   "this call %s; only %s may" % (what, ", ".join(allowed) or "no function"), "%s|%s|%s" % (what, sh, f.short)))
            if not mine:
                res.append(ok("%s: no call in the simulator" % what, "simulator"))
        return res
    rule.__doc__ = doc
    rule.__name__ = "effects"
    return rule


outside_effects = effect_rule(EFFECTS, "only the documented routines touch files, processes and the environment")
nondeterminism = effect_rule(NONDET, "only the documented routines read clocks, generators and the environment")


# ------------------------------------------------------------- exceptions
def thrown_types(ctx):
    """every exception thrown is one the command line reports"""
    prog = ctx.simprog
    res = []
    for f in sorted(prog.repo_fns(), key=lambda f: f.short):
        for I, nm in calls(prog, f):
            if nm == "__cxa_throw":
                t = str(getattr(I.ops[1], "v", ""))
                where = "%s (%s:%s)" % (f.short, str(I.loc[0]).replace("/repo/", ""), I.loc[1])
                e = ename(t)
                ctx.sites += 1
                if e in BASE:
                    res.append(ok("throws std::%s" % e, where))
                elif re.match(r"_ZTI[a-zPK]{1,3}$", t) or (t.startswith("_ZTI") and e is None and not derived(prog, t)):
                    res.append(bad("throws %s" % t, where, "an exception that is not a std::exception ends the simulator without a message", "throw|%s" % f.short))
                else:
                    res.append(ok("throws %s" % t, where))
    return res


def derived(prog, t):
    """does the typeinfo of a class of the repository lead to a std exception"""
    seen = set()
    while t and t not in seen:
        seen.add(t)
        if ename(t) in BASE:
            return True
        g = prog.globals.get(t)
        s = repr(g[1]) if g else ""
        m = [x for x in re.findall(r"_ZTI\w+", s) if x != t]
        t = m[0] if m else None
    return False


def handlers(ctx):
    """no handler but the outermost one swallows an error"""
    prog = ctx.simprog
    res = []
    for f in sorted(prog.repo_fns(), key=lambda f: f.short):
        for b in f.blocks.values():
            for I in b.ins:
                if I.op != "landingpad" or not any(c[0] == "catch" for c in I.x):
                    continue
                where = "%s (%s:%s)" % (f.short, str(I.loc[0]).replace("/repo/", ""), I.loc[1])
                ctx.sites += 1
                # terminate handlers of destructors
                if all(getattr(c[1], "k", "") in ("null",) for c in I.x if c[0] == "catch") and calls_only_terminate(f, b):
                    continue
                if f.short in ("main", "Machine::read_console_switches"):
                    res.append(ok("handler", where))
                    continue
                swallow = returns_from(f, b)
                main = prog.one("main")
                near = f.loc and main.loc and f.loc[0] == main.loc[0] and helper_of(ctx, f, ("main",))
                res.append(verdict(not swallow or near or helper_of(ctx, f, ("Machine::read_console_switches",)), "handler", where,
                                   "the handler continues execution after an error of the program", "catch|%s" % f.short))
    if not any(o.where.startswith("main ") for o in res):
        res.append(bad("handler of the command line", ctx.where(prog, "main"), "no handler reports the error message", "catch|main"))
    return res


def calls_only_terminate(f, b):
    return any(I.op in ("call", "invoke") and str(I.x[0].v) in ("__clang_call_terminate", "_ZSt9terminatev") for I in b.ins)


def returns_from(f, b):
    """can control reach a return from the block without throwing again"""
    seen, work = set(), [b.name]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        blk = f.blocks[n]
        for I in blk.ins:
            if I.op in ("call", "invoke") and str(I.x[0].v) in ("__cxa_rethrow", "__cxa_throw", "exit", "abort"):
                break
            if I.op == "ret":
                return True
        else:
            work += [s for s in blk.succ]
    return False


# ------------------------------------------------------------------- trace
FLAG = "debug_flag"


def is_flag(v):
    return getattr(v, "k", "") == "glob" and FLAG in str(v.v) and "_ZN7Machine" in str(v.v)


def flag_returning(ctx):
    """functions whose result is the trace flag"""
    r = set()
    for f in ctx.simprog.repo_fns():
        src = flag_values(f, r)
        for b in f.blocks.values():
            for I in b.ins:
                if I.op == "ret" and I.ops and I.ops[0].k == "reg" and I.ops[0].v in src:
                    r.add(f)
    return r


def flag_values(f, ret_fns, names=()):
    """registers that carry the trace flag"""
    src = set()
    short = {g.short for g in ret_fns}
    changed = True
    while changed:
        changed = False
        for b in f.blocks.values():
            for I in b.ins:
                if I.res is None or I.res in src:
                    continue
                hit = I.op == "load" and is_flag(I.ops[0])
                if I.op in ("trunc", "zext", "icmp", "and", "xor", "or", "freeze") and any(o.k == "reg" and o.v in src for o in I.ops):
                    hit = True
                if I.op in ("call", "invoke") and I.x[0].k == "glob" and f.mod and any(g.name == I.x[0].v for g in ret_fns):
                    hit = True
                if hit:
                    src.add(I.res)
                    changed = True
    return src


def reach(f, start, stop):
    seen, work = set(), [start]
    while work:
        n = work.pop()
        if n in seen or n in stop:
            continue
        seen.add(n)
        work += f.blocks[n].succ
    return seen


def trace_regions(ctx):
    """what the trace flag controls is tracing only"""
    prog = ctx.simprog
    ret = flag_returning(ctx)
    res, sinks = [], {}
    for f in sorted(prog.repo_fns(), key=lambda f: f.short):
        src = flag_values(f, ret)
        if not src:
            continue
        ctx.functions.add(f.short)
        for b in f.blocks.values():
            for I in b.ins:
                if not any(o.k == "reg" and o.v in src for o in I.ops if hasattr(o, "k")):
                    continue
                where = "%s (%s:%s)" % (f.short, str(I.loc[0]).replace("/repo/", ""), I.loc[1])
                if I.op in ("trunc", "zext", "icmp", "and", "xor", "or", "freeze"):
                    continue
                ctx.sites += 1
                if I.op == "ret" and f in ret:
                    continue
                if I.op == "store" and is_flag(I.ops[1]):
                    continue
                if I.op in ("call", "invoke"):
                    g = prog.lookup(f.mod, I.x[0].v)
                    if g is not None and g.short in ("Machine::redirect_trace", "Machine::enable_trace"):
                        continue
                if I.op == "br":
                    a, c = I.x[0], I.x[1]
                    ra, rc = reach(f, a, ()), reach(f, c, ())
                    # blocks on one side only; the tracing side may be either edge
                    only_a, only_c = reach(f, a, {c}) - rc, reach(f, c, {a}) - ra
                    why = None
                    for side in (only_a, only_c):
                        why = region_problem(prog, f, side, sinks) if side else None
                        if why is None and side and not (other_trivial(f, only_c if side is only_a else only_a)):
                            why = None
                        if why is None:
                            continue
                        break
                    # one side traces, the other does nothing
                    pa, pc = (region_problem(prog, f, s, {}) for s in (only_a, only_c))
                    if pa and other_trivial(f, only_c) or pc and other_trivial(f, only_a) or pa or pc:
                        why = pa or pc
                        res.append(bad("branch on the trace flag", where, why, "trace|%s" % f.short))
                    else:
                        for s in (only_a, only_c):
                            region_problem(prog, f, s, sinks)
                        res.append(ok("branch on the trace flag", where))
                    continue
                res.append(bad("use of the trace flag", where, "the trace flag flows into %s" % I.op, "trace|%s" % f.short))
    if not sinks:
        raise Anchor("no routine depends on the trace flag")
    for g in sorted(sinks.values(), key=lambda g: g.short):
        res.append(pure_trace(ctx, g))
    res.append(stream_choice(ctx))
    return res


def stream_choice(ctx):
    """asking for the trace stream has no effect"""
    sim, g = ctx.sim, ctx.simprog.one("Machine::get_trace_stream")
    what, where = "choosing the trace stream has no effect", "%s (%s)" % (g.short, fnloc(g))
    it = sim.interp()
    it.models.pop("Machine::get_trace_stream", None)
    Host(sim).install(it)
    try:
        for o in it.run(g, [], sim.init_state(frame=None)):
            if o.kind != "ret" or o.st.events:
                return bad(what, where, "%s %s" % (o.kind, o.st.events[:1]), "trace|stream")
        return ok(what, where)
    except AnalysisError as e:
        return undecided(what, where, e)


def other_trivial(f, side):
    return all(I.op in ("br", "ret") for n in side for I in f.blocks[n].ins)


def local_ptr(f, v, depth=0):
    if getattr(v, "k", "") != "reg" or depth > 20:
        return False
    for b in f.blocks.values():
        for I in b.ins:
            if I.res == v.v:
                if I.op == "alloca":
                    return True
                if I.op in ("getelementptr", "bitcast"):
                    return local_ptr(f, I.ops[0], depth + 1)
                return False
    return False


def region_problem(prog, f, side, sinks):
    """why the blocks of one side are more than tracing; collects the routines called"""
    for n in side:
        for I in f.blocks[n].ins:
            if I.op == "store" and not local_ptr(f, I.ops[1]):
                return "a variable is assigned only when tracing is %s" % "on or off"
            if I.op in ("call", "invoke"):
                if I.x[0].k != "glob":
                    return "an indirect call depends on the trace flag"
                nm = I.x[0].v
                if nm.startswith("llvm."):
                    continue
                g = prog.lookup(f.mod, nm)
                if nm in ("__cxa_throw", "exit", "abort"):
                    return "the program ends depending on the trace flag"
                if any(getattr(o, "k", "") == "glob" and o.v in ("_ZSt4cout", "_ZSt3cin") for o in I.ops):
                    return "the program's own output or input depends on the trace flag"
                if g is not None and prog.is_repo(g):
                    if g.short == "Machine::get_trace_stream":
                        continue
                    sinks[g.name] = g
            if I.op in ("ret",) and I.ops and I.ops[0].k not in ("undef",):
                if I.ops[0].k != "reg":
                    return "the result depends on the trace flag"
    return None


def trace_fields(ctx):
    return ctx.get("tracefields", set)


def stream_flags(it, I, args, st, fn):
    """the format flags: reading them yields their state, 0 = as at the start"""
    cur = 0
    for e in st.events:
        if e[0] == "flags":
            cur = e[1]
        elif e[0] == "out" and e[2] == "manip" and "setw" not in str(e[3]):
            cur = 1
    if len(args) > 1:
        st.events += (("flags", cval(args[1]) if is_c(args[1]) else 1),)
    return [Out("ret", const(cur, 32), st)]


def pure_trace(ctx, g):
    """a trace routine writes to the trace stream and to trace state only"""
    sim = ctx.sim
    where = "%s (%s)" % (g.short, fnloc(g))
    what = "trace routine %s has no other effect" % g.short
    try:
      for frame in (False, True):
        it = sim.interp()
        it.models["Machine::get_trace_stream"] = lambda it, I, a, st, fn: [Out("ret", ptr("tracestream", 0), st)]
        it.models["std::ios_base::flags"] = stream_flags
        args = []
        for i, (nm, ty) in enumerate(g.params):
            if i == 0 and ty.k == "ptr" and "Machine::" in g.short and nm == "this":
                args.append(ptr("M", 0))
            elif i == 0 and ty.k == "ptr" and "Processor::" in g.short:
                args.append(ptr("M", sim.cpu))
            elif ty.k == "ptr":
                args.append(ptr("param%d" % i, 0))
            elif ty.k == "int":
                args.append(sym("param%d" % i, ty.a))
            else:
                args.append(sym("param%d" % i, "fp"))
        outs = it.run(g, args, sim.init_state(frame=frame))
        ctx.count(it, outs)
        st0 = sim.init_state(frame=frame)
        for o in outs:
            if o.kind == "throw" and not (o.val and o.val[-1] in ("display", "Bad block level")):
                return bad(what, where, "tracing can stop the program: %s" % (o.val,), "trace|%s" % g.short)
            if o.kind in ("exit",):
                return bad(what, where, "tracing ends the program", "trace|%s" % g.short)
            dirty = False
            for e in o.st.events:
                if e[0] == "flags":
                    dirty = e[1] != 0
                    continue
                if e[0] == "out" and e[2] == "manip" and re.search("3octR|3hexR|5fixedR|10scientificR|7showposR|8showbaseR|9boolalphaR|8hexfloatR", str(e[3])):
                    dirty = True
                if e[0] != "out" or e[1] != ("tracestream", 0):
                    return bad(what, where, "effect besides the trace text: %s %s" % (e[0], str(e[1])[:80]), "trace|%s" % g.short)
            if o.kind == "ret" and dirty:
                return bad(what, where, "the number base of the stream, which may also carry the program's output, stays changed", "trace|%s" % g.short)
            for off, (sz, v) in o.st.mem.get("M", {}).items():
                if not isinstance(off, int):
                    if str(v).find("display") < 0 and not (isinstance(v, T) and v.op == "sym"):
                        return bad(what, where, "an array of the machine is changed", "trace|%s" % g.short)
                    continue
                ini = it.load(st0, ptr("M", off), sz, Ty("int", 8 * sz)) if sz <= 8 else v
                if v is not ini:
                    trace_fields(ctx).add((off, g.short))
            if o.st.vecs.get(sim.stackkey) != st0.vecs.get(sim.stackkey):
                return bad(what, where, "the stack is changed", "trace|%s" % g.short)
      return ok(what, where)
    except AnalysisError as e:
        return undecided(what, where, e)
    except Exception as e:
        return undecided(what, where, "%s: %s" % (type(e).__name__, e))


def trace_state(ctx):
    """what tracing remembers is used by tracing only"""
    sim, prog = ctx.sim, ctx.simprog
    fields = trace_fields(ctx)
    sinks = {s for _, s in fields}
    res = []
    pf = sorted((o, n, s) for n, (o, s) in sim.pf.items())
    mf = sorted((o, n, s) for n, (o, s) in sim.mf.items())

    def field_of(off):
        for o, n, s in (pf if off >= sim.cpu else mf):
            b = sim.cpu if off >= sim.cpu else 0
            if b + o <= off < b + o + s:
                return ("Processor" if b else "Machine", n, o)
        return None
    want = {field_of(o) for o, _ in fields} - {None}
    users = {}
    for f in prog.repo_fns():
        for b in f.blocks.values():
            for I in b.ins:
                for x in [I] + [v for v in I.ops if getattr(v, "k", "") == "gep"]:
                    if getattr(x, "op", None) == "getelementptr" and len(x.ops) >= 3 and x.ops[2].k == "int":
                        m = re.search(r"(Processor|Machine)\"?$", str(x.x.a)) if x.x.k == "named" else None
                        if m:
                            offs, _ = prog.layout.offsets(x.x)
                            if x.ops[2].v < len(offs):
                                users.setdefault((m.group(1), offs[x.ops[2].v]), set()).add(f)
    for cls, n, o in sorted(want):
        us = {f for f in users.get((cls, o), ()) if f.short not in (cls + "::" + cls, "Machine::Machine")}
        badf = [f for f in us if not helper_of(ctx, f, sinks)]
        ctx.sites += len(us)
        if badf:
            f = badf[0]
            res.append(bad("trace state %s::%s" % (cls, n), "%s (%s)" % (f.short, fnloc(f)), "written by the trace routine %s, used by the simulation" % ", ".join(sorted(sinks)), "tracestate|%s|%s" % (n, f.short)))
        else:
            res.append(ok("trace state %s::%s used by %s" % (cls, n, ", ".join(sorted(f.short for f in us))), "simulator/processor.h"))
    return res or [ok("tracing keeps no state", "simulator/trace.cpp")]


# ------------------------------------------------------- initial machine
def initial_machine(ctx):
    """every field of a new machine has a fixed initial value"""
    sim = ctx.sim
    where = ctx.where(ctx.simprog, "Machine::Machine")
    it = sim.interp()
    h = Host(sim)
    h.install(it)
    seeds = []

    def gen(it, I, args, st, fn):
        st.tags[("generator", args[0].a)] = args[1] if len(args) > 1 else None
        return [Out("ret", None, st)]
    it.models["std::mersenne_twister_engine::mersenne_twister_engine"] = gen
    it.cut = 40
    outs = it.run(ctx.simprog.one("Machine::Machine"), [ptr("NEW", 0)], sim.init_state(frame=None))
    ctx.count(it, outs)
    res = []
    rets = [o for o in outs if o.kind == "ret"]
    if not rets:
        return [undecided("new machine", where, "no path through the constructor")]
    scal = [(n, o, s) for n, (o, s) in sim.mf.items() if s in (1, 2, 4, 8) and n not in ("cpu",)]
    scal += [("cpu." + n, sim.cpu + o, s) for n, (o, s) in sim.pf.items() if s in (1, 2, 4, 8) and n != "machine"]
    for n in ("core", "prev"):
        if n in sim.pf:
            scal += [("cpu.%s.%s" % (n, f), sim.cpu + sim.pf[n][0] + o, s) for f, (o, s) in sim.cf.items()]
    arrays = [("memory",) + sim.mf["memory"], ("cpu.display", sim.cpu + sim.pf["display"][0], sim.pf["display"][1])]
    for n, off, s in scal:
        fixed = True
        for o in rets:
            m = o.st.mem.get("NEW", {})
            v = next((v for k, (z, v) in m.items() if isinstance(k, int) and k <= off < k + z), None)
            z = o.st.tags.get(("zeroed", "NEW"))
            if v is None and z and z[0] <= off < z[0] + z[1]:
                continue
            if v is None or not (isinstance(v, T) and (is_c(v) or v.op == "ptr")):
                fixed = v
                break
        if n == "progress_time_last":
            continue
        ctx.sites += 1
        res.append(verdict(fixed is True, "initial value of %s" % n, where, "the field %s" % ("is not initialised" if fixed is None else "depends on %s" % fixed), "init|" + n))
    for n, off, s in arrays:
        st = rets[0].st
        m = st.mem.get("NEW", {})
        got = sum(z for k, (z, v) in m.items() if isinstance(k, int) and off <= k < off + s)
        z = st.tags.get(("zeroed", "NEW"))
        good = got >= s or (z and z[0] <= off and off + s <= z[0] + z[1])
        loop = any(not isinstance(k, int) or off <= k < off + s for k in m)
        res.append(ok("initial value of %s" % n, where) if good else
                   undecided("initial value of %s" % n, where, "filled by a loop") if loop else bad("initial value of %s" % n, where, "the array is not initialised", "init|" + n))
    if "random_generator" in sim.mf:
        off = sim.mf["random_generator"][0]
        g = rets[0].st.tags.get(("generator", ("NEW", off)), False)
        res.append(verdict(g is None or (isinstance(g, T) and is_c(g)), "initial state of the random generator", where, "the generator is seeded with %s" % (g,), "init|generator"))
    return res
