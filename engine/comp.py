"""Compiler-specific set-up of the dataflow engine, and the comparison of its
path summaries with reference functions in enumerated situations."""
import re
from terms import *
from ir import load_compiler, AnalysisError, Ty
from absint import Out, State
from models import SimInterp, Vec, cval
from evalt import Ev, holds, NoValue
import loops
from host import EFFECTS

I32, I64, I8 = Ty("int", 32), Ty("int", 64), Ty("int", 8)
M27 = (1 << 27) - 1


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Comp:
    """the compiler program; its variables are symbols of their own names"""

    def __init__(self, load=load_compiler):
        self.prog = load()
        self.sizes = {}
        for n, g in self.prog.globals.items():
            try:
                self.sizes[n] = self.prog.layout.size(g[0])
            except Exception:
                pass

    def globals_of(self):
        r = {}
        for m in self.prog.mods:
            for n, g in m.globals.items():
                if g[1] is not None and not n.startswith(".str") and not n.startswith("__"):
                    r[n] = g
        return r

    # ------------------------------------------------------------ interpreter
    def interp(self, values=None, arrays=None, **kw):
        """values: initial constants of scalar variables; arrays: constant tables"""
        it = SimInterp(self.prog, **kw)
        it.values, it.arrays, it.comp = dict(values or {}), dict(arrays or {}), self
        it.region = self.region
        it.init_load = self.init_load
        it.cell_hook = self.cell_hook
        it.fieldname = lambda obj, off, size: str(off)
        it.fork_select = True
        it.default_model = c_call
        it.intrinsic = lambda I, name, args, st, it=it: c_memory(it, I, name, args, st)
        for n in ("memmove", "memcpy", "memset"):
            it.models[n] = lambda it, I, args, st, fn, n=n: c_memory(it, I, "llvm." + n, args, st, args[0])
        it.models.update({"strchr": p_strchr,
                          "stop": p_stop, "printf": p_print, "puts": p_puts, "putchar": p_print1, "fprintf": p_other, "perror": p_perror,
                          "strlen": p_strlen, "P_eof": p_eof, "strcspn": p_strcspn, "fopen": p_fopen, "getline": p_getline, "_IO_getline": p_getline,
                          "fgetc": p_getc, "getc": p_getc, "ungetc": p_ungetc, "feof": p_ask("feof"), "isatty": p_ask("isatty"),
                          "ferror": p_ask("ferror"), "fflush": p_fflush, "free": p_nothing, "getopt": p_getopt, "calloc": p_calloc,
                          "fclose": p_fclose, "strrchr": p_strrchr, "fileno": p_fileno})
        return it

    def arrayname(self, obj):
        if isinstance(obj, str) and obj.startswith("@"):
            g = self.prog.globals.get(obj[1:]) or next((m.globals[obj[1:]] for m in self.prog.mods if obj[1:] in m.globals), None)
            if g is not None and g[1] is not None and not g[2] and self.prog.layout.resolve(g[0]).k == "array":
                return obj[1:], self.prog.layout.size(g[0])
        if obj == "LINE":
            return "line", 1 << 40
        return None

    def elemsize(self, obj):
        if obj == "LINE":
            return 1
        g = self.prog.globals.get(obj[1:]) or next(m.globals[obj[1:]] for m in self.prog.mods if obj[1:] in m.globals)
        t = self.prog.layout.resolve(g[0])
        while t.k == "array":
            t = self.prog.layout.resolve(t.b)
        return self.prog.layout.size(t)

    def region(self, obj, off, st):
        a = self.arrayname(obj)
        if a is None or (isinstance(off, int) and (off < 0 or off >= a[1])):
            return None
        return a[0], 0, a[1]

    def init_load(self, it, st, obj, off, size, ty):
        if obj == "V" and isinstance(off, int) and ty.k == "int":
            n = "V+%d" % off
            if n in it.values:
                return const(it.values[n], ty.a)
            return sym(n, ty.a)
        if isinstance(obj, str) and obj.startswith("@") and isinstance(off, int):
            n = obj[1:]
            g = self.prog.globals.get(n) or next((m.globals[n] for m in self.prog.mods if n in m.globals), None)
            if g is None or g[2]:
                return None
            if n in it.values:
                return const(it.values[n], ty.a) if ty.k == "int" else None
            if ty.k == "ptr":
                return ptr("LINE" if n == "input_line" else "*" + n, 0)
            if ty.k == "int":
                nm = n if not off else "%s+%d" % (n, off)
                return sym(nm, ty.a, 0, 1) if ty.a == 8 else sym(nm, ty.a)
        return None

    def cell_hook(self, it, st, key, idx, off, size, ty, v):
        if isinstance(key, tuple) and key[0] == "arr" and ty.k == "int" and v.base == ("init", key):
            t = it.arrays.get(key[2])
            if t is not None:
                es = size
                if is_c(idx):
                    x = t(cval(idx) // es) if callable(t) else t[cval(idx) // es]
                    return None if x is None else const(x, ty.a)
        return None

    def state(self, st=None):
        return State()


# ------------------------------------------------------------------- models
HARMLESS = ("setlocale", "setbuf", "setvbuf", "fputs", "fputc", "fwrite", "putc", "vprintf", "vfprintf", "snprintf", "getenv", "exit", "_exit", "abort")


def c_call(it, I, sh, args, st, fn):
    if sh in HARMLESS or sh.lstrip("_") in HARMLESS or any(re.match(p, sh) for _, p, _ in EFFECTS):
        return SimInterp.libcall(it, I, sh, args, st, fn)
    raise AnalysisError("no model for the call of %s in %s" % (sh, I.fn.short))


def c_memory(it, I, name, args, st, ret=None):
    """block copies and fills of the arrays, element by element"""
    kind = next((k for k in ("memmove", "memcpy", "memset") if name.startswith("llvm." + k)), None)
    objs = [a for a in args[:2 if kind != "memset" else 1] if isinstance(a, T) and a.op == "ptr" and it.comp.arrayname(a.a[0])]
    if kind is None or not objs:
        if kind is not None and any(not isinstance(a, T) or a.op != "ptr" for a in args[:1]):
            raise AnalysisError("%s at an unknown address" % kind)
        if kind and ret is not None and not is_c(args[2]):
            raise AnalysisError("%s of unknown length" % kind)
        r = SimInterp.intrinsic(it, I, name if kind else name, args, st)
        return [Out(o.kind, ret, o.st, o.loc) for o in r] if ret is not None else r
    es = min(it.comp.elemsize(a.a[0]) for a in objs)
    n, outs, k = args[2], [], 0
    if kind == "memset" and not (is_c(args[1]) and (es == 1 or cval(args[1]) & 255 in (0, 255))):
        raise AnalysisError("fill with an unknown byte")
    top = 1 << 20 if is_c(n) else it.cut if it.cut else 8
    while k <= top:
        done = icmp("ule", n, const(es * k, 64), st.facts)
        d = it.decide(st, done)
        s2 = st.copy() if d is None else st
        if d is True or d is None and it.assume(s2, done, True):
            ty = Ty("int", 8 * es)
            at = lambda p, j: it.gep(p, const(es * j, 64))
            if kind == "memset":
                vs = [const(cval(args[1]) & 255 if es == 1 else -(cval(args[1]) & 1), 8 * es)] * k
            else:
                vs = [it.load(s2, at(args[1], j), es, ty) for j in range(k)]
            for j in range(k):
                it.store(s2, at(args[0], j), es, vs[j])
            outs.append(Out("ret", ret, s2))
        if d is True or not it.assume(st, done, False):
            break
        k += 1
    return outs


def p_strchr(it, I, args, st, fn):
    p, c = args
    if p.op != "ptr" or p.a[0] != "LINE" or p.a[1] != 0 or not is_c(c) or not cval(c) & 255:
        raise AnalysisError("no model for the call of strchr in " + I.fn.short)
    v = linevec(st)
    at = mk("span", (v.base, v.log, chr(cval(c) & 255)), 64)
    q = ptr("LINE", at)
    found = icmp("eq", it.load(st, q, 1, I8), const(cval(c) & 255, 8), st.facts)
    s2, r = st.copy(), []
    if it.assume(st, found, True):
        r.append(Out("ret", q, st))
    if it.assume(s2, found, False):
        r.append(Out("ret", PTR0, s2))
    return r


def R(st, v=None):
    return [Out("ret", v, st)]


def cv(t):
    return cval(t) if isinstance(t, T) and is_c(t) else t


def sv(t):
    if isinstance(t, T) and is_c(t):
        v = cval(t)
        return v - (1 << t.w) if v >> (t.w - 1) else v
    return t


def p_stop(it, I, args, st, fn):
    n = args[0]
    return [Out("throw", ("stop", n, it.strval(st, args[1])), st, I.loc)]


def p_print(it, I, args, st, fn):
    f = it.strval(st, args[0])
    st.events += (("print", f, tuple(it.strval(st, a) if a.op == "ptr" and it.strval(st, a) is not None else a for a in args[1:])),)
    return R(st, it.fresh("printed", 32))


def p_puts(it, I, args, st, fn):
    s = it.strval(st, args[0])
    st.events += (("print", (s + "\n") if s is not None else None, ()),)
    return R(st, it.fresh("printed", 32))


def p_print1(it, I, args, st, fn):
    c = args[0]
    st.events += (("print", chr(cval(c)) if is_c(c) else "%c", () if is_c(c) else (c,)),)
    return R(st, c)


def p_other(it, I, args, st, fn):
    st.events += (("fprint",),)
    return R(st, it.fresh("printed", 32))


def p_perror(it, I, args, st, fn):
    st.events += (("perror",),)
    return R(st)


def p_nothing(it, I, args, st, fn):
    return R(st)


LINEKEY = ("arr", "LINE", "line")


def linevec(st):
    if LINEKEY not in st.vecs:
        st.vecs[LINEKEY] = Vec(("init", LINEKEY), const(0, 64))
    return st.vecs[LINEKEY]


def p_strlen(it, I, args, st, fn):
    s = it.strval(st, args[0])
    if s is not None:
        return R(st, const(len(s.encode()), 64))
    p = args[0]
    if p.op == "ptr" and p.a[0] == "LINE" and p.a[1] == 0:
        v = linevec(st)
        return R(st, mk("span", (v.base, v.log, ""), 64))
    return R(st, it.fresh("strlen", 64))


def p_strcspn(it, I, args, st, fn):
    p, s = args[0], it.strval(st, args[1])
    if p.op == "ptr" and p.a[0] == "LINE" and p.a[1] == 0 and s is not None:
        v = linevec(st)
        return R(st, mk("span", (v.base, v.log, s), 64))
    return R(st, it.fresh("strcspn", 64))


RANGES["span"] = lambda t, f: (0, 1 << 30)


def count(st, kind):
    return sum(1 for e in st.events if e[0] == kind)


def p_eof(it, I, args, st, fn):
    """is there a further line: depends only on the lines already read"""
    return R(st, sym(("eof", count(st, "getline")), 32, 0, 1))


def p_ask(name):
    def f(it, I, args, st, fn):
        n = count(st, name)
        st.events += ((name, args[0] if args else None),)
        return R(st, sym((name, n), 32, -(1 << 31), (1 << 31) - 1))
    return f


def p_fileno(it, I, args, st, fn):
    return R(st, mk("fileno", (args[0],), 32))


def p_getc(it, I, args, st, fn):
    n = count(st, "getc")
    st.events += (("getc", args[0]),)
    return R(st, sym(("getc", n), 32, -1, 255))


def p_ungetc(it, I, args, st, fn):
    st.events += (("ungetc", args[0], args[1]),)
    return R(st, args[0])


def p_getline(it, I, args, st, fn):
    n = count(st, "getline")
    st.events += (("getline",),)
    st.vecs[LINEKEY] = Vec(("source", n), const(0, 64))
    it.store(st, args[1], 8, const(240, 64))      # the room allocated
    return R(st, sym(("getline", n), 64))


def p_fflush(it, I, args, st, fn):
    n = count(st, "flush")
    st.events += (("flush",),)
    return R(st, sym(("flush", n), 32))


def p_fopen(it, I, args, st, fn):
    n = count(st, "fopen")
    st.events += (("fopen", args[0], it.strval(st, args[1])),)
    s2 = st.copy()
    c = sym(("opened", n), 1)
    r = []
    if it.assume(st, c, True):
        r.append(Out("ret", ptr("file%d" % n, 0), st))
    if it.assume(s2, c, False):
        r.append(Out("ret", PTR0, s2))
    return r


def p_fclose(it, I, args, st, fn):
    st.events += (("fclose", args[0]),)
    return R(st, const(0, 32))


def p_getopt(it, I, args, st, fn):
    n = count(st, "getopt")
    st.events += (("getopt", it.strval(st, args[2])),)
    return R(st, sym(("getopt", n), 32))


def p_calloc(it, I, args, st, fn):
    return R(st, ptr("LINE", 0))


def p_strrchr(it, I, args, st, fn):
    s2 = st.copy()
    c = sym("has directory", 1)
    r = []
    if it.assume(st, c, True):
        r.append(Out("ret", ptr("progname", 0), st))
    if it.assume(s2, c, False):
        r.append(Out("ret", PTR0, s2))
    return r


def p_event(name, n=None, ret=None):
    """a routine with a rule of its own"""
    def f(it, I, args, st, fn):
        st.events += ((name,) + tuple(args[:n] if n is not None else args),)
        return R(st, ret(it, st, args) if callable(ret) else ret)
    return f


def p_input(name, w=32, lo=0, hi=255, key="in"):
    """a routine that delivers the next item of an input"""
    def f(it, I, args, st, fn):
        n = count(st, name)
        st.events += ((name,) + tuple(args),)
        return R(st, sym((key, n), w, lo, hi))
    return f


# --------------------------------------------------------------- comparison
class Situation:
    """values of the variables, arrays and inputs in one enumerated situation"""

    def __init__(self, vals=None, arrays=None, inputs=None, **more):
        self.vals, self.arrays, self.inputs = vals or {}, arrays or {}, inputs or {}
        self.k = more

    def array(self, name, i):
        a = self.arrays.get(name)
        if a is None:
            return 0
        if callable(a):
            return a(i)
        if isinstance(a, dict):
            return a.get(i, 0)
        return a[i] if 0 <= i < len(a) else 0

    def source(self, n, i):
        """byte i of the n-th line still to be read; what follows its end is
        left over from an earlier one"""
        l = self.inputs["lines"]
        l = l[n] if n < len(l) else b""
        return l[i] if i < len(l) else 0 if i == len(l) else self.k.get("stale", b"\x84")[i % len(self.k.get("stale", b"\x84"))]

    def __str__(self):
        return ", ".join("%s=%s" % (k, v) for k, v in list(self.vals.items())[:24]) + \
            "".join("; %s=%s" % (k, str(v)[:160]) for k, v in self.inputs.items() if not callable(v)) + \
            "".join("; %s=%s" % (k, str(v)[:160]) for k, v in self.arrays.items() if not callable(v)) + \
            "".join("; %s=%s" % (k, v) for k, v in self.k.items())


class CEv(Ev):
    def __init__(self, sit, esize=None):
        super().__init__({})
        self.sit = sit
        self.esize = esize or {}

    def op_sym(self, t):
        n = t.a[0]
        if isinstance(n, tuple) and n[0] == "eof" and "lines" in self.sit.inputs:
            return int(n[1] >= len(self.sit.inputs["lines"]))
        if isinstance(n, tuple) and n[0] == "getline" and "lines" in self.sit.inputs:
            l = self.sit.inputs["lines"]
            return self.u(len(l[n[1]]) if n[1] < len(l) else -1, t.w)
        if isinstance(n, tuple) and n[0] in self.sit.inputs:
            s = self.sit.inputs[n[0]]
            v = s(n[1]) if callable(s) else (s[n[1]] if n[1] < len(s) else None)
            if v is None:
                raise NoValue("input exhausted")
            return self.u(v, t.w)
        if n in self.sit.vals:
            return self.u(self.sit.vals[n], t.w)
        if isinstance(n, tuple):
            raise NoValue("input %s" % (n,))
        if n in self.sit.arrays or "@" in str(n) or "#" in str(n):
            raise NoValue(str(n))
        return 0

    def op_sel(self, t):
        base, log, idx, off = t.a
        i = self(idx)
        for k, o, s, v in reversed(log):
            if self(k) == i:
                return self(v)
        return self.base(base, i, t.w)

    def op_span(self, t):
        """length of the text up to a character of the set or its end"""
        base, log, stop = t.a
        stops = {0} | {ord(c) for c in stop}
        at = {}
        for k, o, s, v in log:
            at[self(k)] = self(v)
        for i in range(1 << 16):
            if (at[i] if i in at else self.base(base, i, 8)) & 255 in stops:
                return i
        raise NoValue("text without end")

    def base(self, base, i, w):
        if base[0] == "init":
            name = base[1][2]
            es = 1 if name == "line" else w // 8
            return self.u(self.sit.array(name, i // es), w)
        if base[0] == "source":
            return self.u(self.sit.source(base[1], i), w)
        if base[0] == "fill":
            raise NoValue("filled array")
        raise NoValue("array " + str(base)[:80])


def sgn_(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def outcome(comp, ev, o, watch=None):
    """observable result of one path in a situation: how it ends, the events,
    the changed variables and the array elements written"""
    st = o.st
    g = {}
    for obj, m in st.mem.items():
        if obj == "V":
            n = None
        elif isinstance(obj, str) and obj.startswith("@"):
            n = obj[1:]
        else:
            continue
        for off, (sz, v) in m.items():
            if obj == "V" and isinstance(off, int):
                n = "V+%d" % off
            elif off:
                continue
            if not isinstance(v, T) or not isinstance(v.w, int):
                continue
            x = sgn_(ev(v), v.w)
            ini = sgn_(ev.sit.vals.get(n, 0) & ((1 << v.w) - 1), v.w)
            if x != ini:
                g[n] = x
    arr = {}
    for key, v in st.vecs.items():
        if key[0] != "arr":
            continue
        name = key[2]
        d = {}
        base = v.base
        if base != ("init", key) and base[0] != "source":
            raise NoValue("array %s written by a loop" % name)
        for idx, off, s, val in v.log:
            es = 1 if name == "line" else s
            d[sgn_(ev(idx), 64) // es] = sgn_(ev(val), 8 * s)
        for i in list(d):
            if (d[i] - ev.sit.array(name, i)) & (255 if name == "line" else 0xffffffff) == 0 and base[0] == "init":
                del d[i]
        if d:
            arr[name] = d
    return g, arr


class Summary:
    """the path summary of one routine, applied step by step"""

    def __init__(self, comp, it, outs, key, kind):
        self.comp, self.it, self.outs, self.key, self.kind = comp, it, outs, key, kind

    def paths(self, sit):
        ev, r = CEv(sit), []
        for o in self.outs:
            try:
                if holds(o.st, ev):
                    r.append(o)
            except NoValue:
                continue
        return ev, r

    def step(self, sit, kinds=()):
        """(ending, events, following situation) of one execution"""
        ev, ps = self.paths(sit)
        if not ps:
            raise NoPath(str(sit)[:300])
        res = None
        for o in ps:
            g, arr = outcome(self.comp, ev, o)
            e = ending(ev, o)
            used = sum(1 for x in o.st.events if x[0] == self.kind)
            lines = sum(1 for x in o.st.events if x[0] == "getline")
            r = (e, events(ev, o, kinds), g, arr, used, lines, o)
            if res is None:
                res = r
            elif res[:6] != r[:6]:
                raise AnalysisError("two different results in one situation")
        e, evs, g, arr, used, lines, o = res
        v = dict(sit.vals)
        v.update(g)
        a = dict(sit.arrays)
        i = dict(sit.inputs)
        if lines:
            rest = i["lines"]
            s0 = sit
            a["line"] = lambda k, s0=s0, n=lines - 1: s0.source(n, k)
            i["lines"] = rest[lines:]
            a["line"] = overlay(a["line"], arr.get("line"))
        elif "line" in arr:
            a["line"] = overlay(a.get("line"), arr["line"])
        for n, d in arr.items():
            if n != "line":
                a[n] = overlay(a.get(n), d)
        if used:
            i[self.key] = i[self.key][used:]
        return e, evs, Situation(v, a, i, **sit.k)


class NoPath(Exception):
    """no analysed path for the situation (longer than the bound)"""


def overlay(a, d):
    if not d:
        return a
    if isinstance(a, dict) or a is None:
        r = dict(a or {})
        r.update(d)
        return r
    if isinstance(a, (list, tuple)):
        r = dict(enumerate(a))
        r.update(d)
        return r
    return lambda i: d[i] if i in d else a(i)


def events(ev, o, kinds):
    r = []
    for e in o.st.events:
        if e[0] in kinds:
            r.append((e[0],) + tuple(sgn_(ev(x), x.w) if isinstance(x, T) and isinstance(x.w, int) else x for x in e[1:]))
        elif e[0] == "call" and any(re.match(p, e[1]) for _, p, _ in EFFECTS):
            r.append(("further effect", e[1]))
        elif e[0] == "loop":
            raise NoValue("loop")
    return tuple(r)


def ending(ev, o):
    if o.kind == "ret":
        v = o.val
        if isinstance(v, T) and isinstance(v.w, int):
            return ("ret", sgn_(ev(v), v.w))
        return ("ret", None)
    if o.kind == "throw" and o.val and o.val[0] == "stop":
        return ("stop",)
    if o.kind == "exit":
        c = o.val[1]
        return ("exit", "success" if c is not None and ev(c) & 255 == 0 else "failure")
    return (o.kind,)


def compare(comp, situations, outs, ref, kinds=(), ignore=()):
    """every situation: outcome of the admitted paths = reference outcome.
    ref(sit) -> (ending, events, changed variables, changed arrays)"""
    bad, seen, none = [], 0, 0
    for sit in situations:
        ev = CEv(sit)
        hit = 0
        exp = ref(sit)
        for o in outs:
            try:
                if not holds(o.st, ev):
                    continue
            except NoValue:
                continue
            hit += 1
            try:
                g, arr = outcome(comp, ev, o)
                got = (ending(ev, o), events(ev, o, kinds), {k: v for k, v in g.items() if k not in ignore}, arr)
            except NoValue as x:
                raise AnalysisError("value outside the fragment: %s" % x)
            if exp[0][0] in ("stop", "exit") and got[0][0] in ("stop", "exit") and exp[0][-1] != "success" and got[0][-1] != "success":
                continue         # failure: the state no longer matters
            want = (exp[0], tuple(exp[1]), {k: v for k, v in exp[2].items() if v != sit.vals.get(k, 0) and k not in ignore},
                    {n: {i: v for i, v in d.items() if v != sit.array(n, i)} for n, d in exp[3].items()})
            want = want[:3] + ({n: d for n, d in want[3].items() if d},)
            if got != want:
                names = ("ending", "effects", "variables", "store")
                diff = "; ".join("%s %s, expected %s" % (n, brief(a, b), brief(b, a)) for n, a, b in zip(names, got, want) if a != b)
                bad.append("for %s: %s" % (sit, diff))
                break
        if not hit:
            none += 1
        else:
            seen += 1
        if len(bad) > 5:
            break
    if not bad and none:
        raise AnalysisError("no path for %d of %d situations" % (none, none + seen))
    return bad, seen


def brief(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return str({k: v for k, v in a.items() if b.get(k, "-") != v})[:300]
    return str(a)[:300]


# ------------------------------------------------------- the main program
KEEP = ("main", "_Wstore", "_Rstore", "stop", "prefill_op_proc", "prefill_lib_proc", "word1", "word2")


def p_crf(it, I, args, st, fn):
    st.events += (("crf",) + tuple(sv(x) for x in args[1:]),)
    return R(st)


def main_paths(comp):
    """summary of the main program without options, phases as events"""
    it = comp.interp()
    it.cut = 130
    it.models["getopt"] = lambda it, I, a, st, fn: R(st, const(0xffffffff, 32))
    main = comp.prog.one("main")
    for g in comp.prog.repo_fns():
        if g.short in ("read_until_next_delimiter", "prescan", "fill_t_list", "intro_new_block2", "fill_result_list", "main_scan",
                       "program_loader", "PASCAL_MAIN"):
            it.models[g.short] = phase(g.short)
    it.models["put_crf_entry"] = p_crf
    outs = it.run(main, [sym("argc", 32), ptr("argv", 0)], State())
    return it, outs


def phase(name):
    def f(it, I, args, st, fn):
        extra = ()
        if name == "program_loader":
            st.tags["at loader"] = {k: v for k, v in st.vecs.items()}
            for v in ("rlsc", "klsc"):          # whatever the translation has produced
                o = "@" + v
                if o in st.mem:
                    st.mem[o] = {0: (4, sym(v, 32))}
        if name in ("main_scan", "prescan"):
            st.tags["at " + name] = ({o: dict(m) for o, m in st.mem.items()}, dict(st.vecs))
        st.events += ((name,) + tuple(sv(a) for a in args) + extra,)
        return R(st)
    return f


def tables(comp):
    """constant tables the main program sets up before the scans"""
    if getattr(comp, "_tables", None) is None:
        it, outs = main_paths(comp)
        full = [o for o in outs if o.kind == "exit" and o.val[1] is not None and is_c(o.val[1]) and cval(o.val[1]) == 0]
        if not full:
            raise AnalysisError("no complete path through the main program")
        o = full[0]
        t = {}
        for key, v in o.st.vecs.items():
            if key[0] != "arr" or key[2] == "store":
                continue
            d = {}
            for idx, off, s, val in v.log:
                if is_c(idx) and isinstance(val, T) and is_c(val):
                    d[cval(idx) // s] = s32(cval(val))
            t[key[2]] = d
        comp._tables = t
        comp._main = (it, outs, full)
    return comp._tables


def local_fields(comp, name):
    """places of the members of a routine's shared local variables"""
    from sim import struct_fields
    return {k: "V+%d" % o for k, (o, _) in struct_fields(comp.prog, name).items()}
