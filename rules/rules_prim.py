"""Rules over the routines the operations are built from.  The operation table
is computed with these routines summarised; here each summary is established
from the routine's own source."""
from multiprocessing import get_context
from core import *
from spec import *
from sim import *
from ops import Part
import ops2
import evalt
from fractions import Fraction
import rules_ops
from rules_ops import JOBS


class Prim:
    """one routine compared with its reference on one partition of its inputs"""

    def __init__(self, short, name, args, spec, mk=None, drop=(), cut=0, result=True, models=None, setup=None, regs=OBS,
                 prog=None, mem_opaque=True, skip=(), points=None, custom=None, runner=None, events=None, bounded=False):
        self.short, self.name, self.args, self.spec, self.mk = short, name, args, spec, mk
        self.drop, self.cut, self.result, self.models = (short,) + tuple(drop), cut, result, models or {}
        self.events, self.bounded = events, bounded
        self.setup, self.regs, self.mem_opaque, self.skip, self.points, self.custom, self.runner = setup, regs, mem_opaque, skip, points, custom, runner


PRIMS = {}


def group(name):
    def d(f):
        cache = []

        def g(sim):
            if not cache:
                cache.append(f(sim))
            return cache[0]
        PRIMS[name] = g
        return f
    return d


def find(prog, short):
    """the function; name/type selects the overload by its first parameter,
    name/#n by its number of parameters"""
    short, _, sel = short.partition("/")
    c = prog.by_short(short, required=False)
    if sel.startswith("#"):
        c = [f for f in c if len(f.params) == int(sel[1:])]
    elif sel:
        c = [f for f in c if f.params and sel in str(f.params[0][1])]
    if len(c) != 1:
        raise AnalysisError("no routine %s to analyse (%d candidates)" % (short, len(c)))
    return c[0]


def prim_task(a):
    g, i = a
    sim = rules_ops._SIM
    p = PRIMS[g](sim)[i]
    r = {"name": "%s %s" % (p.short, p.name), "short": p.short, "diffs": [], "err": None, "paths": 0, "funcs": [], "checks": [], "key": "%s|%s" % (p.short, p.name)}
    try:
        rules_ops.clock()
        it = sim.interp(mem_opaque=p.mem_opaque)
        it.check_enabled = True
        for m in p.drop:
            it.models.pop(m.split("/")[0], None)
        it.models.update(p.models)
        it.cut = p.cut
        it.event_filter = p.events
        if p.setup:
            p.setup(it)
        fn = find(sim.prog, p.short)
        r["where"] = "%s (%s)" % (fn.short, fnloc(fn))
        if p.runner:
            d, r["paths"] = p.runner(sim, it, fn)
            r["diffs"] = sorted(set(d))[:5]
            r["checks"] = [(k, v[0], str(v[1])[:300]) for k, v in it.checks.items()]
            r["funcs"] = sorted(it.analysed)
            return r
        mk_ = p.mk or (lambda: sim.init_state(frame=None))
        st = mk_()
        outs = it.run(fn, p.args(sim) if callable(p.args) else p.args, st)
        d = []
        for x in outs if not p.custom else ():
            d += compare(sim, it, x, mk_, p.spec, [], p.result, p.regs, p.skip)
        if p.custom:
            d = p.custom(sim, it, outs)
        if d and p.points:
            w = separate(sim, it, mk_, p, outs)
            if w:
                d = ["%s (%s)" % (w, d[0])]
            else:
                r["err"], d = "normal forms differ, no separating argument: " + d[0][:200], []
        r["paths"] = len(outs)
        r["diffs"] = sorted(set(d))[:5]
        r["checks"] = [(k, v[0], str(v[1])[:300]) for k, v in it.checks.items()]
        r["funcs"] = sorted(it.analysed)
        if p.cut > 4 and it.dropped and not p.bounded and not r["diffs"]:
            r["err"] = "a loop does not end within %d iterations" % p.cut
        if not outs:
            r["err"] = "no path explored"
    except AnalysisError as e:
        r["err"] = str(e)[:300]
    except RecursionError:
        r["err"] = "analysis too deep"
    except Exception as e:
        r["err"] = "outside the analysed fragment: %s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        rules_ops.stopped()
    if r["diffs"] and sim.vanished():
        r["err"] = "anchor vanished: " + ", ".join(sim.vanished()[:5])
    return r


def separate(sim, it, mk_, p, outs):
    """an argument at which code and reference give different results"""
    st = mk_()
    refs = run_spec(sim, it, mk_, p.spec, [], st.facts, st.preds)
    for env in p.points:
        ev = evalt.Ev(env)
        try:
            a = [(o.kind, value(ev, o.kind, o.val), rendered(o.st, ev)) for o in outs if evalt.holds(o.st, ev) and not (o.kind == "throw" and o.val and o.val[1] == "display")]
            b = [(k, value(ev, k, v), rendered(s, ev)) for k, v, s in refs if k != "unspec" and evalt.holds(s, ev)]
        except evalt.NoValue:
            continue
        if len(a) == 1 and len(b) == 1 and a != b:
            return "for %s the outcome is %s, expected %s" % (", ".join("%s = %s" % (k, pv(v)) for k, v in env.items()), ov(a[0]), ov(b[0]))
    return None


def value(ev, kind, v):
    return ev(v) if kind == "ret" and v is not None else None


def rendered(st, ev):
    """the output of the path as text, and its other effects in order"""
    r = []
    for e in st.events:
        if e[0] == "out":
            k, v = e[2:4]
            if k == "text":
                t = v
            elif k == "char":
                t = chr(ev(v) & 255)
            elif k in ("int", "long", "short", "long long"):
                t = str(sgn(ev(v), v.w))
            elif k.startswith("unsigned") and k != "unsigned char":
                t = str(ev(v))
            else:
                raise evalt.NoValue("output of " + k)
            if r and r[-1][0] == e[1] and r[-1][1] == "text":
                r[-1] = (e[1], "text", r[-1][2] + t)
            else:
                r.append((e[1], "text", t))
        else:
            r.append(tuple(ev(x) if isinstance(x, T) and x.op not in ("ptr", "fn") else x for x in e))
    return tuple(r)


def pv(v):
    return str(float(v)) if isinstance(v, Fraction) and abs(v) < 10 ** 300 else str(v)


def ov(a):
    return "an error" if a[0] == "throw" else " ".join([str(pv(a[1]))] * (a[1] is not None) + ["output %s" % ",".join(repr(e[-1]) for e in a[2])] * bool(a[2]))


def prims(ctx, *groups):
    done = ctx.get("prims", dict)
    todo = [(g, i) for g in groups if g not in done for i in range(len(PRIMS[g](ctx.sim)))]
    for g in groups:
        done.setdefault(g, [])
    for (g, i), r in zip(todo, rules_ops.run_tasks(ctx, todo, prim_task)):
        done[g].append(r)
        ctx.functions |= set(r["funcs"])
        ctx.paths += r["paths"]
    return [r for g in groups for r in done[g]]


def prim_obligations(ctx, *groups):
    res = []
    for r in prims(ctx, *groups):
        w = r.get("where", "simulator")
        if r["err"]:
            res.append(undecided(r["name"], w, r["err"]))
        elif r["diffs"]:
            res.append(bad(r["name"], w, r["diffs"][0], r["key"]))
        else:
            res.append(ok("%s: %d paths" % (r["name"], r["paths"]), w))
    return res


def prim_rule(title, *groups):
    def rule(ctx):
        return prim_obligations(ctx, *groups)
    rule.__doc__ = title
    rule.__name__ = "prim_" + "_".join(groups)
    return rule


def S32(name, lo=None, hi=None):
    return sym(name, 32) if lo is None else sym(name, 32, lo, hi)


def W27(n="w"):
    return sym(n, 32, 0, M27)


def R54(n="r"):
    return sym(n, 64, 0, M54)


# --------------------------------------------------------------- integers
@group("intconv")
def _(sim):
    x = sym("x", 32)
    w = W27()

    def i2x_spec(lo, hi):
        pass

    def pos(m):
        return m.x

    def fixed(v):
        return lambda m: v

    def thr(m):
        m.throw()

    def srange(lo, hi):
        """state where the argument lies in [lo, hi]"""
        def mk_():
            st = sim.init_state(frame=None)
            st.facts[x] = from_s(lo, hi, 32)
            return st
        return mk_
    P = lambda n, lo, hi, f: Prim("integer_to_x1", n, [x], f, srange(lo, hi))
    wneg = bit("xor", [neg32(x), const(M27, 32)], {x: from_s(-M26, -1, 32)})
    r = [P("non-negative", 0, M26, fixed(x)), P("negative", -M26, -1, lambda m: xorw(m, sub(const(0, 32), x))),
         P("too large", M26 + 1, (1 << 31) - 1, thr), P("too small", -(1 << 31), -M26 - 1, thr)]

    def wrange(lo, hi):
        def mk_():
            st = sim.init_state(frame=None)
            st.facts[w] = norm((lo, hi, lo, hi), 32)
            return st
        return mk_
    r += [Prim("x1_to_integer", "sign bit 0", [w], fixed(w), wrange(0, M26)),
          Prim("x1_to_integer", "sign bit 1", [w], lambda m: sub(const(0, 32), xorw(m, w)), wrange(M26 + 1, M27)),
          Prim("x1_negate_int", "word", [w], lambda m: xorw(m, w), wrange(0, M27)),
          Prim("x1_abs_int", "sign bit 0", [w], fixed(w), wrange(0, M26)),
          Prim("x1_abs_int", "sign bit 1", [w], lambda m: xorw(m, w), wrange(M26 + 1, M27))]
    v = R54()

    def rr(lo, hi):
        def mk_():
            st = sim.init_state(frame=None)
            st.facts[v] = norm((lo, hi, lo, hi), 64)
            return st
        return mk_
    xr = lambda m: bit("xor", [v, const(M54, 64)], m.st.facts)
    r += [Prim("x1_negate_real", "real", [v], xr, rr(0, M54)),
          Prim("x1_abs_real", "sign bit 0", [v], fixed(v), rr(0, M54 >> 1)),
          Prim("x1_abs_real", "sign bit 1", [v], xr, rr((M54 >> 1) + 1, M54))]
    hi, lo = W27("hi"), W27("lo")
    r += [Prim("x1_words_to_real", "two words", [hi, lo], lambda m: bit("or", [shl(zext(hi, 64, m.st.facts), const(27, 64), m.st.facts), zext(lo, 64, m.st.facts)], m.st.facts))]
    return r


def neg32(x):
    return sub(const(0, 32), x)


def xorw(m, w):
    return bit("xor", [w, const(M27, 32)], m.st.facts)


# ------------------------------------------------------------------ reals
def F(a, e=0):
    return Fraction(a) * Fraction(2) ** e


def real_points():
    r = ["-0", F(0), "inf", "-inf", "nan"]
    ms = [F(1), F(1, -1), F(3, -2), 1 - F(1, -40), 1 - F(1, -41), 1 - F(1, -42), 1 - F(3, -42), F(1, -1) + F(1, -41), F(1, -1) + F(1, -40),
          F(1, -1) + F(1, -42), F(0b1011001110001111, -16), F(0xabcdef12345, -44), F(0x89abcdef01234567, -64), 1 - F(1, -64),
          F(1, -1) + F(1, -26), F(1, -1) + F(1, -27), F(1, -1) + F(1, -25), F(1, -1) + F(0x3fff, -40), F(1, -1) + F(0x3fff, -41)]
    for m in ms:
        for e in (0, 1, 2, 13, 14, 15, 25, 26, 27, 39, 40, 41, 63, 64, 65, -1, -2, -40, -41, 2046, 2047, 2048, 2049, 3000, 16380, -2047, -2048, -2049, -2050, -3000, -16000):
            r += [m * F(1, e), -m * F(1, e)]
    for k in range(-6, 7):
        r += [F(k), F(k) / 2, F(k) / 4, F(k) + F(1, -30), F(k) + F(1, 26), F(k, -1) + F(1, 26), F(k, -1) - F(1, 26), F(k, -1) + F(1, 25), F(k, -1) + F(1, 31)]
    return r


def word_points():
    r = set()
    for h in (0, 1, 2, 0x2000000, 0x3ffffff, 0x1555555, 0x2aaaaaa):
        for l in (0, 1, 4095, 4096, 0x7ffffff, 0x3ffffff, 0x4000000, 2048, 2047, 2049, 0x555555, 0x2aaaaaa, 0x4000800, 0x7000123):
            v = h << 27 | l
            r |= {v, v ^ M54}
    return sorted(r)


def fits(x):
    pass


@group("f2i")
def _(sim):
    x = sym("x", "fp")
    return [Prim("ieee_to_integer", "any value", [x], lambda m: m.rounded(x), points=[{x: p} for p in real_points()])]


@group("r2x")
def _(sim):
    x = sym("x", "fp")

    def spec(m):
        """sign and magnitude, 40-bit mantissa rounded to nearest, exponent
        -2048..2047, the smaller vanish, the larger are an error"""
        F = m.st.facts
        neg = m.test(mk("signbit", (x,), 1))
        a = fneg(x) if neg else x
        if not m.test(mk("fpclass", (a, 504), 1)):
            m.throw()
        zero = const(M54 if neg else 0, 64)
        fm, e = mk("fmant", (a,), "fp"), mk("fexp", (a,), 32)
        if m.test(fcmp("oeq", fm, fconst(0), F)):
            return zero
        v = mk("ldexp", (fm, const(40, 32)), "fp")
        n = mk("fptoui", (v,), 64)
        if not m.test(fcmp("olt", fop("fsub", v, itof(n, False, F)), fconst(Fraction(1, 2)), F)):
            n = addc(n, 1)
            if m.test(icmp("eq", n, const(1 << 40, 64), F)):
                n = lshr(n, const(1, 64), F)
                e = addc(e, 1)
        if m.test(icmp("sgt", e, const(2047, 32), F)):
            m.throw()
        if m.test(icmp("slt", e, const(-2048, 32), F)):
            return zero
        hi = shl(lshr(n, const(14, 64), F), const(27, 64), F)
        lo = shl(bit("and", [n, const(0x3fff, 64)], F), const(12, 64), F)
        r = bit("or", [hi, lo, sext(addc(e, 2048), 64, F)], F)
        return bit("xor", [r, const(M54, 64)], F) if neg else r
    return [Prim("ieee_to_x1", "any value", [x], spec, points=[{x: p} for p in real_points()])]


@group("x2r")
def _(sim):
    r = R54()

    def rr(lo, hi):
        def mk_():
            st = sim.init_state(frame=None)
            st.facts[r] = norm((lo, hi, lo, hi), 64)
            return st
        return mk_

    def spec(neg):
        def f(m):
            F = m.st.facts
            v = bit("xor", [r, const(M54, 64)], F) if neg else r
            hi = shl(lshr(v, const(27, 64), F), const(37, 64), F)
            lo = shl(bit("and", [lshr(v, const(12, 64), F), const(0x3fff, 64)], F), const(23, 64), F)
            e = bit("and", [trunc(v, 32, F), const(4095, 32)], F)
            y = mk("ldexp", (mk("sitofp", (bit("or", [hi, lo], F),), "fp"), addc(e, -2048 - 63)), "fp")
            return fneg(y) if neg else y
        return f
    pt = [{r: p} for p in word_points()]
    return [Prim("x1_to_ieee", "sign bit 0", [r], spec(False), rr(0, M54 >> 1), points=[p for p in pt if not p[r] >> 53]),
            Prim("x1_to_ieee", "sign bit 1", [r], spec(True), rr((M54 >> 1) + 1, M54), points=[p for p in pt if p[r] >> 53])]


# ------------------------------------------------------------------ power
def iroot(n):
    """largest b with b^n <= M26"""
    if n >= 26:
        return 1
    lo, hi = 1, M26
    while lo < hi:
        b = (lo + hi + 1) // 2
        lo, hi = (b, hi) if b ** n <= M26 else (lo, b - 1)
    return lo


EXPONENTS = tuple(range(0, 34)) + (63, 64, 65, 100, 127, 1000, 1 << 20, (1 << 20) + 1, M26 - 1, M26)


@group("power")
def _(sim):
    x = sym("x", 32)

    def rr(lo, hi):
        def mk_():
            st = sim.init_state(frame=None)
            st.facts[x] = from_s(lo, hi, 32)
            return st
        return mk_
    r = []

    def thr(m):
        m.throw()

    y = sym("y", "fp")

    def degree(t, memo):
        if t is y or t is x:
            return 1
        if t.op in ("fc", "c") and t.a[0] == 1:
            return 0
        if t.op in ("sext", "trunc"):
            return degree(t.a[0], memo)
        if t in memo:
            return memo[t]
        if t.op in ("fmul", "fdiv", "mul"):
            a, c = degree(t.a[0], memo), degree(t.a[1], memo)
            d = None if a is None or c is None else a + c if t.op != "fdiv" else a - c
        else:
            d = None
        memo[t] = d
        return d

    def check(n):
        def f(sim, it, outs):
            d = []
            for o in outs:
                if o.kind != "ret":
                    d.append("ends with %s" % o.kind)
                else:
                    k = degree(o.val, {})
                    if k is None:
                        raise AnalysisError("power is not a product of its argument: %s" % o.val)
                    if k != n:
                        d.append("the argument is raised to %d instead of %d" % (k, n))
            return d
        return f
    for n in EXPONENTS:
        if n <= 1:
            r.append(Prim("power/i32", "integer^%d" % n, [x, const(n, 32)], None, rr(-M26, M26), custom=check(n)))
            continue
        b = iroot(n)
        if b > 1:
            for lo, hi in ((2, b), (-b, -2)):
                r.append(Prim("power/i32", "integer^%d fits, %s" % (n, "positive" if lo > 0 else "negative"), [x, const(n, 32)], None, rr(lo, hi), custom=check(n)))
        for v in (-1, 0, 1):
            r.append(Prim("power/i32", "(%d)^%d" % (v, n), [const(v % (1 << 32), 32), const(n, 32)], lambda m, c=v ** (n if n < 100 else 2 + n % 2): const(c % (1 << 32), 32), rr(0, 0)))
        r.append(Prim("power/i32", "integer^%d too large" % n, [x, const(n, 32)], thr, rr(b + 1, M26)))
        r.append(Prim("power/i32", "negative integer^%d too large" % n, [x, const(n, 32)], thr, rr(-M26, -b - 1)))
    for n in EXPONENTS:
        r.append(Prim("power/fp", "real^%d" % n, [y, const(n, 32)], None, lambda: sim.init_state(frame=None), custom=check(n)))
    return r


# ---------------------------------------------------------------- frames
DISP = ("arr", "M", "display")


def set_display(m, lvl, fp):
    F = m.st.facts
    if m.eq(lvl, const(0, 32)):
        return
    if not m.lt(lvl, const(32, 32)):
        m.throw()
    if DISP not in m.st.vecs:
        m.st.vecs[DISP] = Vec(("init", DISP), const(0, 64))
    m.it.cwrite(m.st, DISP, scale(zext(lvl, 64, F), 4), 0, 4, fp)


def cpu(sim):
    return ptr("M", sim.cpu)


def link(m, fp, k):
    """word of the frame at fp"""
    return m.addr(m.cell(m.at(addc(fp, k))))


@group("display")
def _(sim):
    lvl, val, fp = sym("level", 32), sym("value", 32), sym("fp", 32, 1, 1 << 17)
    c = cpu(sim)
    plain = lambda: sim.init_state(frame=None)
    r = [Prim("Processor::get_display", "any level", [c, lvl], lambda m: m.display(lvl)),
         Prim("Processor::set_display", "any level", [c, lvl, val], lambda m: set_display(m, lvl, val), result=False),
         Prim("Processor::get_block_level", "any state", [c], lambda m: m.block_level())]

    def unwind(k):
        def f(m):
            l, p = k, fp
            while l > 0:
                set_display(m, const(l, 32), p)
                l -= 1
                p = link(m, p, 4)
        return f
    for k in range(0, 32):
        r.append(Prim("Processor::update_display", "level %d" % k, [c, const(k, 32), fp], unwind(k), result=False))
    r.append(Prim("Processor::update_display", "level 32", [c, const(32, 32), fp], lambda m: m.throw(), result=False))
    return r


@group("rollback")
def _(sim):
    g = sym("goto_frame", 32)

    def spec(m):
        """drop frames up to the one created at the goto's frame"""
        fp = m.frame_ptr
        for _ in range(9):
            if not m.test(icmp("ugt", fp, const(0, 32), m.st.facts)):
                m.throw()
            prev = link(m, fp, 0)
            if m.eq(prev, g):
                m.set("frame_ptr", fp)
                m.release()
                m.pop()
                return
            fp = prev
        raise Unspec()
    return [Prim("Processor::roll_back", "up to six frames", [cpu(sim), g], spec, cut=6, result=False, bounded=True)]


def dyn_addr(m, d):
    return m.dyn(d)


@group("args")
def _(sim):
    c = cpu(sim)
    d = sym("dyn", 32, 0, M27)
    de = sym("descr", 32, 0, M27)
    n = sym("nret", 32)

    def descr(m):
        """the word of the call sequence describing the actual parameter"""
        F = m.st.facts
        ret = link(m, m.display(m.and_(d, 31)), 1)
        arg = lshr(addc(lshr(d, const(5, 32), F), -5), const(1, 32), F)
        return m.mload(addc(sub(ret, arg), -3))

    def instack(m):
        return m.dyn(d)
    r = [Prim("Processor::arg_descriptor", "any parameter", [c, d], descr),
         Prim("Processor::address_in_stack", "any address", [c, d], instack),
         Prim("Processor::get_formal_proc", "any parameter", [c, d], lambda m: proc(m))]

    def proc(m):
        w = descr(m)
        F = m.st.facts
        k = m.and_(lshr(w, const(15, 32), F), 63)
        if m.eq(k, const(0o40, 32)):
            return m.and_(w, 32767)
        m.throw()

    def caller(m):
        w = m.gint(m.cell(m.at(addc(m.dyn(d), 1))))
        return w

    def outparam(obj, f):
        def chk(sim, it, outs):
            res = []
            for o in outs:
                if o.kind == "ret":
                    o = Out("ret", it.load(o.st, ptr(obj, 0), 4, I32), o.st)
                res += compare(sim, it, o, lambda: sim.init_state(frame=None), f, [], True)
            return ["caller's %s: %s" % (obj, x) for x in res]
        return chk
    for obj, f in (("level", lambda m: lshr(caller(m), const(15, 32), m.st.facts)), ("frame", lambda m: m.and_(caller(m), 32767))):
        r.append(Prim("Processor::get_arg_display", obj, [c, d, ptr("level"), ptr("frame")], None, custom=outparam(obj, f)))

    def env(k, fp):
        """the parameter was passed by a frame at level k, address fp"""
        def f(it, I, args, st, fn):
            it.store(st, args[2], 4, const(k, 32))
            it.store(st, args[3], 4, fp)
            return [Out("ret", None, st)]
        return f

    def walk(k, fp):
        def f(m):
            F = m.st.facts
            p = fp
            for l in range(k, 0, -1):
                if m.eq(lshr(de, const(22, 32), F), const(l, 32)):
                    return add(p, m.and_(de, 32767))
                p = link(m, p, 4)
            m.throw()
        return f
    fp = sym("argfp", 32, 0, 32767)
    for k in range(0, 32):
        r.append(Prim("Processor::arg_address", "caller at level %d" % k, [c, d, de], walk(k, fp), cut=34, models={"Processor::get_arg_display": env(k, fp)}))
    return r


# ------------------------------------------------------------ formal parameters
IA, RA, IV, RV = 1, 2, 3, 4


@group("apply")
def _(sim):
    c = cpu(sim)
    a = sym("addr", 32, 0, 0o1000000)
    r = []

    def spec(op, t):
        def f(m):
            if op in (ops2.PUSH_ADDRESS, ops2.PUSH_STRING):
                m.push(t, a)
            elif op == ops2.REMOVE_ARG:
                m.throw()
            else:
                x = a
                if op >= ops2.PUSH_DEREF:
                    x = m.load_word(x)
                v = Cell(const(IV, 32), zext(m.load_word(x), 64, m.st.facts)) if t == IA else Cell(const(RV, 32), m.load_real(x))
                if op in (ops2.PUSH_VALUE, ops2.PUSH_DEREF):
                    m.push(v.t, v.v)
                else:
                    l = m.pop()
                    tt, vv = m.arith(ops2.FOP[op], l, v)
                    m.push(tt, vv)
            m.update_display(m.block_level(), m.frame_ptr)
        return f
    for op in range(13):
        for t in (IA, RA):
            for top in ((None,) if op in (0, 1, 2, 3, 8) else (IV, RV)):
                r.append(Prim("Processor::apply_operation/#4", "%s of a variable of type %s%s" % (ops2.FNAME[op], "integer" if t == IA else "real", "" if top is None else ", left operand " + ("integer" if top == IV else "real")),
                              [c, const(op, 32), a, const(t, 32)], spec(op, t), lambda top=top: sim.init_state((top,), frame=None, lo=1), result=False))
    D = {1: 1, 0: 8, 4: 9, 5: 10, 6: 11, 7: 12}
    for op in range(13):
        def dspec(m, op=op):
            if op not in D:
                m.throw()
            return const(D[op], 32)
        r.append(Prim("deref", ops2.FNAME[op], [const(op, 32)], dspec))
    return r


def argaddr(it, st, d, descr):
    v, e = st.vecs.get(DISP), st.vecs[it.sim.stackkey]
    return mk("argaddr", (d, descr, (v.base, v.log) if v else None, (e.base, e.log)), 32)


RANGES["argaddr"] = lambda t, f: (0, 1 << 18)


@group("takeformal")
def _(sim):
    c = cpu(sim)
    d = sym("dyn", 32, 0, M27)

    def p_argaddr(it, I, args, st, fn):
        s2 = st.copy()
        return [Out("ret", argaddr(it, st, args[1], args[2]), st), Out("throw", ("exc", "display", "arg_address"), s2, I.loc)]

    def p_apply(it, I, args, st, fn):
        st.events += (("apply",) + tuple(args[1:]),)
        return [Out("ret", None, st)]

    def spec(op0):
        def f(m):
            F = m.st.facts
            op, dd = op0, d
            for _ in range(2):
                descr = ops2.arg_descr(m, dd)
                k, a = ops2.kind(m, descr), m.and_(descr, 32767)

                def apply(addr, t):
                    m.event("apply", const(op, 32), addr, const(t, 32))
                for v, t in ((0, RA), (0o20, IA)):
                    if m.eq(k, const(v, 32)):
                        return apply(a, t)
                for v, t in ((2, RA), (0o22, IA)):
                    if m.eq(k, const(v, 32)):
                        return apply(addc(argaddr(m.it, m.st, dd, descr), STACK_BASE), t)
                thunk = m.eq(k, const(0o60, 32))
                if thunk:
                    D = {1: 1, 0: 8, 4: 9, 5: 10, 6: 11, 7: 12}
                    if op not in D:
                        m.throw()
                    op = D[op]
                if thunk or m.eq(k, const(0o40, 32)):
                    if op == ops2.PUSH_STRING:
                        return apply(a, IA)
                    w = m.gint(m.cell(m.at(addc(m.dyn(dd), 1))))
                    lvl, fr = lshr(w, const(15, 32), F), m.and_(w, 32767)
                    m.push(IV, const(0, 64))
                    m.frame(m.OT, const(0, 32))
                    if m.test(icmp("ugt", lvl, const(0, 32), F)):
                        m.set("frame_ptr", fr)
                        m.update_display(lvl, fr)
                    m.eis_set(m.stack_base, op)
                    m.set("OT", a)
                    return
                if not m.eq(k, const(6, 32)):
                    m.throw()
                w = m.gint(m.cell(m.at(addc(m.dyn(dd), 1))))
                m.update_display(lshr(w, const(15, 32), F), m.and_(w, 32767))
                dd = bit("or", [lshr(descr, const(22, 32), F), shl(a, const(5, 32), F)], F)
            raise Unspec()
        return f
    r = []
    for op in (0, 1, 2, 4, 5, 6, 7):
        r.append(Prim("Processor::take_formal", ops2.FNAME[op] + ", up to one indirection", [c, d, const(op, 32)], spec(op), cut=2, result=False,
                      models={"Processor::arg_address": p_argaddr, "Processor::apply_operation": p_apply}))
    return r


# ------------------------------------------------------------ memory and cells
MEMV = ("arr", "M", "memory")


def store_vec(m):
    if MEMV not in m.st.vecs:
        m.st.vecs[MEMV] = Vec(("init", MEMV), const(0, 64))
    return MEMV


def memword(m, a):
    off = scale(zext(a, 64, m.st.facts), 4)
    return m.it.cread(m.st, store_vec(m), off, 0, 4, I32)


CANON = sym("canonical", "fp")
CHAR = sym("char", 32, 0, 255)
TM = {n: sym("tm_" + n, 32, 0, 60) for n in ("sec", "min", "hour")}
USEC = sym("usec", 64, 0, 999999)


def p_canon(it, I, args, st, fn):
    st.events += (("generate", args[0]),)
    return [Out("ret", CANON, st)]


def p_seed(it, I, args, st, fn):
    st.events += (("seed", args[0], args[1]),)
    return [Out("ret", None, st)]


def p_char(it, I, args, st, fn):
    st.events += (("input char",),)
    return [Out("ret", CHAR, st), Out("throw", ("exc", "display", "input_char"), st.copy(), I.loc)]


def p_time(it, I, args, st, fn):
    it.store(st, args[0], 8, sym("seconds", 64, 0, 1 << 40))
    it.store(st, it_off(args[0], 8), 8, USEC)
    return [Out("ret", const(0, 32), st)]


def p_localtime(it, I, args, st, fn):
    for o, n in ((0, "sec"), (4, "min"), (8, "hour")):
        it.store(st, ptr("tm", o), 4, TM[n])
    return [Out("ret", ptr("tm", 0), st)]


def it_off(p, k):
    return ptr(p.a[0], p.a[1] + k)


CELL_MODELS = {"std::generate_canonical": p_canon, "std::mersenne_twister_engine::seed": p_seed, "Machine::input_char": p_char,
               "gettimeofday": p_time, "localtime": p_localtime}
PERIPH = (0o77771, 0o77772, 0o77773, 0o77774, 0o77775, 0o77776)


@group("memory")
def _(sim):
    mc = ptr("M", 0)
    a, v = sym("addr", 32), sym("val", 32)
    low = bit("and", [a, const(0o77777, 32)], {})

    def at(lo, hi):
        def mk_():
            st = sim.init_state(frame=None)
            st.facts[low] = norm((lo, hi, lo, hi), 32)
            return st
        return mk_
    K = dict(mem_opaque=False, models=CELL_MODELS, drop=("Machine::mem_fetch",))
    r = []

    def wr(m):
        off = scale(zext(low, 64, m.st.facts), 4)
        m.it.cwrite(m.st, store_vec(m), off, 0, 4, v)

    def rd(m):
        return m.and_(memword(m, low), M27)
    for nm, lo, hi in (("below the peripheral cells", 0, 0o77770), ("last word", 0o77777, 0o77777)):
        r.append(Prim("Machine::mem_store", nm, [mc, a, v], wr, at(lo, hi), result=False, **K))
        r.append(Prim("Machine::mem_load", nm, [mc, a], rd, at(lo, hi), **K))
    for c in (0o77774, 0o77775, 0o77776):
        r.append(Prim("Machine::mem_store", "input cell %o" % c, [mc, a, v], wr, at(c, c), result=False, **K))
    r.append(Prim("Machine::mem_load", "output cell 77773", [mc, a], rd, at(0o77773, 0o77773), **K))
    f = sym("fetch", 32, 0, 0o77777)
    r.append(Prim("Machine::mem_fetch", "any address", [mc, f], lambda m: m.and_(memword(m, f), M27), **K))
    return r


@group("cells")
def _(sim):
    mc = ptr("M", 0)
    plain = lambda: sim.init_state(frame=None)
    v, w = sym("val", 32), sym("val2", 32)
    K = dict(mem_opaque=False, models=CELL_MODELS)
    r = []

    def put(m):
        m.event("putc", v, ptr("@_ZSt4cout", 0))
    r.append(Prim("Machine::mem_store", "character output cell", [mc, const(0o77773, 32), v], None, plain, custom=cell_put(v), **K))

    def ch(m):
        m.event("input char")
        return m.and_(CHAR, M27)
    r.append(Prim("Machine::mem_load", "character input cell", [mc, const(0o77774, 32)], ch, plain, **K))
    for nm, c, val, pts in (("random number", 0o77771, lambda: CANON, None), ("time of day", 0o77775, None, None)):
        r.append(Prim("Machine::mem_load", nm + ", two words", [mc, const(c, 32)], None, plain, custom=cell_pair(sim, c, nm), **K))
    r.append(Prim("Machine::mem_store", "random seed, two words", [mc, const(0o77771, 32), v], None, plain, custom=cell_seed(sim, v, w), **K))
    return r


def quiet(o):
    """events other than flushing"""
    return tuple(e for e in o.st.events if e[0] not in ("out",) or "flush" not in str(e))


def cell_put(v):
    def f(sim, it, outs):
        d = []
        for o in outs:
            ev = [e for e in o.st.events if e[0] == "putc"]
            if o.kind != "ret":
                d.append("storing a character ends with %s" % o.kind)
            elif len(ev) != 1 or str(ev[0][1]).find("cout") < 0 or ev[0][2] is not v:
                d.append("storing a character to the output cell performs %s instead of printing it once" % (ev,))
        return d
    return f


def time_ok(x):
    """is the term the number of seconds since midnight"""
    pts = ((0, 0, 0, 0), (1, 2, 3, 4), (59, 59, 23, 999999), (0, 0, 12, 500000), (30, 15, 6, 1), (7, 0, 0, 0), (0, 7, 0, 0))
    for s, mi, h, us in pts:
        ev = evalt.Ev({TM["sec"]: s, TM["min"]: mi, TM["hour"]: h, USEC: us})
        try:
            r = ev(x)
        except evalt.NoValue:
            return None
        if abs(r - (h * 3600 + mi * 60 + s + Fraction(us, 1000000))) > Fraction(2, 1000):
            return "at %d:%d:%d.%06d the time of day is %s" % (h, mi, s, us, float(r))
    return ""


def cell_pair(sim, c, nm):
    def f(sim, it, outs):
        d = []
        fn = sim.prog.one("Machine::mem_load")
        for o in outs:
            if o.kind == "throw":
                continue
            hi = o.val
            n = len([e for e in o.st.events if e[0] == "generate"])
            if nm == "random number" and n != 1:
                d.append("%d numbers are drawn from the generator for one random number" % n)
            if nm == "random number" and CANON not in subterms(hi):
                d.append("the first word %s does not come from the number drawn" % hi)
            for q in it.run(fn, [ptr("M", 0), const(c + 1, 32)], o.st.copy()):
                F = q.st.facts
                words = [t for t in subterms(hi) if t.op == "r2x"]
                if q.kind != "ret" or len(words) != 1:
                    if d:
                        return d
                    raise AnalysisError("the %s is not one converted number: %s" % (nm, hi))
                v = words[0]
                eh = trunc(bit("and", [lshr(v, const(27, 64), F), const(M27, 64)], F), 32, F)
                el = bit("and", [trunc(v, 32, F), const(M27, 32)], F)
                if simp(hi, it, q.st) is not simp(eh, it, q.st):
                    d.append("first word of the %s is %s, expected %s" % (nm, hi, eh))
                if simp(q.val, it, q.st) is not simp(el, it, q.st):
                    d.append("second word of the %s is %s, expected %s" % (nm, q.val, el))
                if len([e for e in q.st.events if e[0] == "generate"]) != n:
                    d.append("reading the second word draws another number")
                if nm == "random number":
                    if v.a[0] is not CANON:
                        d.append("the random number is %s" % v.a[0])
                else:
                    t = time_ok(v.a[0])
                    if t is None:
                        raise AnalysisError("time of day not understood: %s" % v.a[0])
                    if t:
                        d.append(t)
        return d
    return f


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, T):
        if t not in seen:
            seen.add(t)
            for x in (t.a if isinstance(t.a, tuple) else ()):
                subterms(x, seen)
    elif isinstance(t, tuple):
        for x in t:
            subterms(x, seen)
    return seen


def cell_seed(sim, v, w):
    """the generator restarts as a function of the two words stored, alone"""
    def f(sim, it, outs):
        d = []
        fn = sim.prog.one("Machine::mem_store")
        for o in outs:
            if o.kind != "ret":
                d.append("storing the seed ends with %s" % o.kind)
                continue
            for q in it.run(fn, [ptr("M", 0), const(0o77772, 32), w], o.st.copy()):
                ev = [e for e in q.st.events if e[0] == "seed"]
                if q.kind != "ret" or len(ev) != 1:
                    d.append("the generator is seeded %d times" % len(ev))
                    continue
                free = {t for t in subterms(ev[0][2]) if t.op not in ("c",) and not isinstance(t.a, tuple) or t.op == "sym"}
                if not free <= {v, w} or not free or any(t.op in ("ptr", "ptrtoint", "ret") for t in subterms(ev[0][2])):
                    d.append("the seed %s does not depend on the stored words alone" % (ev[0][2],))
                elif free != {v, w}:
                    d.append("the seed %s ignores a stored word" % (ev[0][2],))
        return d
    return f


# ------------------------------------------------------------- instructions
ADDR = sym("address_part", 32, 0, 32767)
DONE = sym("done", 1)


def p_opc(it, I, args, st, fn):
    st.events += (("opc", args[1]),)
    return [Out("ret", DONE, st)]


def fetch_of(op):
    """instruction word with the given function part"""
    def f(it, I, args, st, fn):
        st.events += (("fetch", args[1]),)
        return [Out("ret", bit("or", [const(op << 15, 32), ADDR], st.facts), st)]
    return f


def signbit27(m, w):
    return icmp("ne", m.and_(w, 1 << 26), const(0, 32), m.st.facts)


def setbool(m, r, t):
    m.set(r, zext(t, 8, m.st.facts) if not is_c(t) else const(cval(t), 8))


def flag(m, r):
    return trunc(m.it.load(m.st, ptr("M", m.sim.reg[r][0]), 1, Ty("int", 8)), 1, m.st.facts)


def I_plain(reg, f):
    def g(m):
        m.set(reg, f(m))
    return g


def i_top_to_A(m):
    if not m.eq(ADDR, const(0o77774, 32)):
        m.throw()
    w = m.gint(m.top())
    m.set("A", w)
    neg = m.test(signbit27(m, w))
    m.set("C", const(0 if neg else 1, 8))
    m.set("L", const(1 if neg else 0, 8))


def i_type(m):
    if not m.eq(ADDR, const(0o77777, 32)):
        m.throw()
    t = m.typ(m.top(), (IVAL, IADDR, RVAL, RADDR, NUL))
    if t == NUL:
        m.throw()
    neg = t in (IADDR, RADDR)
    if t == IVAL:
        m.set("A", const(0, 32))
    elif t == RVAL:
        m.set("A", const(1, 32))
    else:
        # any negative word
        w = m.code_A
        if w is None or not is_c(w) or not (cval(w) >> 26) & 1:
            m.set("A", sym("a negative word", 32))
        else:
            m.set("A", w)
    m.set("C", const(int(t == IVAL), 8))
    m.set("L", const(int(neg), 8))


def i_stack(m):
    if m.eq(ADDR, const(0o61, 32)):
        m.fill(m.A, ((IV, const(0, 64)),))
    elif m.eq(ADDR, const(0o62, 32)):
        m.grow(m.A)
    else:
        m.throw()


def i_patch_top(m):
    if not m.eq(ADDR, const(0o77774, 32)):
        m.throw()
    c = m.top()
    m.settop(c.t, m.A)


def i_index_B(m):
    if m.eq(ADDR, const(5, 32)):
        ops2.take_formal(m, const(5 * 32 + 1, 32), ops2.PUSH_STRING)
        m.set("B", m.addr(m.pop()))
    else:
        m.set("B", m.mload(add(ADDR, m.B)))


def i_count(m):
    w = m.mload(const(0, 32))
    more = m.test(icmp("ugt", w, const(1, 32), m.st.facts))
    if more:
        m.mstore(const(0, 32), addc(w, -1))
        m.set("OT", ADDR)
    elif m.eq(w, const(1, 32)):
        m.mstore(const(0, 32), const(M27, 32))
    else:
        m.mstore(const(0, 32), const(M27 - 1, 32))


def shift(round_):
    def f(m):
        F = m.st.facts
        amount = m.and_(ADDR, 31)
        if m.test(icmp("ugt", amount, const(27, 32), F)):
            m.throw()
        which = lshr(ADDR, const(5, 32), F)
        if m.eq(which, const(0, 32)):
            r = "A"
        elif m.eq(which, const(1, 32)):
            r = "S"
        else:
            m.throw()
        w = getattr(m, r)
        fill = w if round_ else sub(const(0, 32), lshr(w, const(26, 32), F))
        F = m.st.facts
        v = bit("and", [bit("or", [lshr(w, amount, F), shl(fill, sub(const(27, 32), amount), F)], F), const(M27, 32)], F)
        m.set(r, v)
        if round_:
            neg = m.test(signbit27(m, v))
            last = m.test(flag(m, "L"))
            m.set("C", const(int(neg == last), 8))
            m.set("L", const(int(neg), 8))
    return f


def i_type_error(m):
    m.throw()


def i_and_S(m):
    m.set("S", bit("and", [m.S, ADDR], m.st.facts))


def i_eq_S(m):
    m.set("C", const(int(m.eq(m.S, ADDR)), 8))


def i_jump_back(m):
    m.set("OT", sub(addc(m.OT, -1), m.mload(ADDR)))


INSTR = {
    0: lambda m: m.event("opc", ADDR),
    0o0220: I_plain("A", lambda m: ADDR),
    0o0244: i_top_to_A,
    0o0320: I_plain("A", lambda m: bit("xor", [ADDR, const(M27, 32)], m.st.facts)),
    0o0350: i_type,
    0o0400: i_stack,
    0o0600: lambda m: m.mstore(ADDR, m.A),
    0o0640: i_patch_top,
    0o1200: I_plain("S", lambda m: m.mload(ADDR)),
    0o1220: I_plain("S", lambda m: ADDR),
    0o1240: I_plain("S", lambda m: m.mload(add(ADDR, m.B))),
    0o1600: lambda m: m.mstore(ADDR, m.S),
    0o3431: i_eq_S,
    0o3620: i_and_S,
    0o4020: I_plain("B", lambda m: add(m.B, ADDR)),
    0o4200: I_plain("B", lambda m: m.and_(m.mload(ADDR), 32767)),
    0o4220: I_plain("B", lambda m: ADDR),
    0o4240: i_index_B,
    0o4600: lambda m: m.mstore(ADDR, m.B),
    0o5100: i_jump_back,
    0o5220: I_plain("OT", lambda m: ADDR),
    0o5404: i_count,
    0o6700: i_type_error,
    0o6714: shift(True),
    0o7700: shift(False),
}
INAME = {0: "call of a complex operation", 0o0220: "A := n", 0o0244: "A := top of stack", 0o0320: "A := -n", 0o0350: "type of top of stack", 0o0400: "M[n] += A",
         0o0600: "M[n] := A", 0o0640: "top of stack := A", 0o1200: "S := M[n]", 0o1220: "S := n", 0o1240: "S := M[n + B]", 0o1600: "M[n] := S", 0o3431: "S = n",
         0o3620: "S := S and n", 0o4020: "B := B + n", 0o4200: "B := M[n]", 0o4220: "B := n", 0o4240: "B := M[n + B]", 0o4600: "M[n] := B", 0o5100: "T -= 1 + M[n]",
         0o5220: "T := n", 0o5404: "count down and jump", 0o6700: "operand type error", 0o6714: "round shift", 0o7700: "clear shift"}


def step_one(sim, it, fn, op):
    mk_ = lambda: regstate(sim)
    st = mk_()
    st.tags["formal_cell"] = IADDR
    it.models["Machine::mem_fetch"] = fetch_of(op)
    outs = it.run(fn, [cpu(sim)], st)
    d = []
    for o in outs:
        codeA = sim.get(it, o.st, "A") if o.kind == "ret" else None

        def spec(m):
            F = m.st.facts
            m.code_A = codeA
            pc = bit("and", [m.OT, const(32767, 32)], F)
            m.event("fetch", pc)
            m.set("OR", bit("or", [const(op << 15, 32), ADDR], F))
            m.set("OT", addc(pc, 1))
            base = op
            if op & 2:
                base = op & ~3
                c = m.test(flag(m, "C"))
                if c != (op & 1 == 0):
                    return const(0, 1)
            f = INSTR.get(base)
            if f is None:
                m.throw()
            f(m)
            return DONE if base == 0 else const(0, 1)
        d += compare(sim, it, o, lambda: tagged(mk_()), spec, [], True, OBS + ("OR",))
    return ["instruction %04o: %s" % (op, x) for x in d], len(outs)


def tagged(st):
    st.tags["formal_cell"] = IADDR
    return st


def regstate(sim):
    """registers hold words, the flags hold booleans"""
    st = sim.init_state(frame=None)
    for r in ("A", "S"):
        t = sim.get(sim_interp(sim), st, r)
        st.facts[t] = (0, M27, 0, M27)
    for r in ("C", "L"):
        o, s = sim.reg[r]
        t = sim_interp(sim).load(st, ptr("M", o), 1, Ty("int", 8))
        if not is_c(t):
            st.facts[t] = (0, 1, 0, 1)
    return st


_IT = []


def sim_interp(sim):
    if not _IT:
        _IT.append(sim.interp())
    return _IT[0]


def stepper(ops):
    def run(sim, it, fn):
        it.models["Processor::call_opc"] = p_opc
        d, n = [], 0
        for op in ops:
            a, k = step_one(sim, it, fn, op)
            d, n = d + a, n + k
        return d, n
    return run


@group("step")
def _(sim):
    r = []
    known = set()
    for base in sorted(INSTR):
        v = [base] if base & 3 else [base, base | 2, base | 3]
        known |= set(v)
        r.append(Prim("Processor::step", "instruction %04o (%s)" % (base, INAME[base]), [], None, runner=stepper(v)))
    rest = [o for o in range(4096) if o not in known]
    for i in range(0, len(rest), 256):
        r.append(Prim("Processor::step", "unknown instructions %04o..%04o" % (rest[i], rest[min(i + 255, len(rest) - 1)]), [], None, runner=stepper(rest[i:i + 256])))
    return r


@group("run")
def _(sim):
    start = sym("start", 32)

    def p_step(it, I, args, st, fn):
        n = len([e for e in st.events if e[0] == "step"])
        st.events += (("step", n),)
        return [Out("ret", sym("done%d" % n, 1), st), Out("throw", ("exc", "display", "step"), st.copy(), I.loc)]

    def p_nothing(it, I, args, st, fn):
        return [Out("ret", None, st)]

    def spec(m):
        m.set("OT", start)
        for n in range(6):
            m.event("step", n)
            if m.test(sym("done%d" % n, 1)):
                return
        raise Unspec()
    return [Prim("Machine::run", "until the stop operation", [ptr("M", 0), start], spec, cut=4, result=False,
                 models={"Processor::step": p_step, "Machine::show_progress": p_nothing})]


# ---------------------------------------------------------- words and values
@group("words")
def _(sim):
    c = cpu(sim)
    a = sym("addr", 32, 0, M27)
    d = sym("dyn", 32, 0, M27)
    r = [Prim("Processor::load_word", "memory and stack", [c, a], lambda m: m.load_word(a)),
         Prim("Processor::load_real", "memory and stack", [c, a], lambda m: m.load_real(a))]
    return r


@group("stack")
def _(sim):
    s = ptr("M", sim.stackkey[1])
    i = sym("index", 32)
    r = []
    plain = lambda: sim.init_state(frame=None)
    v64 = sym("value", 64)

    def num(m):
        c = m.pop()
        t = m.typ(c, (IVAL, RVAL, IADDR, RADDR, NUL))
        if t == IVAL:
            return itof(m.int_(c), True, m.st.facts)
        if t == RVAL:
            return m.real(c)
        m.throw()

    def integer(m):
        c = m.pop()
        if m.typ(c, (IVAL, RVAL, IADDR, RADDR, NUL)) != IVAL:
            m.throw()
        return m.int_(c)

    def boolean(m):
        c = m.pop()
        t = m.typ(c, (IVAL, RVAL, IADDR, RADDR, NUL))
        if t in (RVAL, NUL):
            raise Unspec()
        if t != IVAL:
            m.throw()
        return icmp("eq", m.gint(c), const(TRUE, 32), m.st.facts)

    def address(m):
        c = m.pop()
        t = m.typ(c, (IVAL, RVAL, IADDR, RADDR, NUL))
        if t == NUL:
            raise Unspec()
        if t not in (IADDR, RADDR):
            m.throw()
        return m.addr(c)

    def erase(m):
        m.erase(i)
    P = lambda n, nm, args, f, **k: Prim("Virtual_Stack::" + n, nm, [s] + args, f, **k)
    r += [P("pop_ieee", "any top", [], num), P("pop_integer", "any top", [], integer), P("pop_boolean", "any top", [], boolean),
          P("pop_addr", "any top", [], address), P("erase", "any length", [i], erase, result=False)]
    for t in range(5):
        r.append(P("push/#3", "cell of type %d" % t, [const(t, 32), v64], lambda m, t=t: m.push(t, v64), result=False))
    return r
