"""Reference transformers of the run-time operations and their comparison with
the transformers computed from the source."""
from terms import *
from sim import *
import loops
from models import Vec, emit_out
from ir import AnalysisError
from absint import Out, State


FINF = fconst(float('inf'))


class Throw(Exception):
    pass


class Unspec(Exception):
    """the operand combination is outside the property"""


class Infeasible(Exception):
    pass


class Cell:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


LIMIT = 0x100000
STACK_BASE = 0o100000


class M:
    """reference machine over the same abstract domain"""

    def __init__(self, sim, it, st, choices):
        self.sim, self.it, self.st = sim, it, st
        self.choices, self.pos = choices, 0
        self.forks = []
        self.result = None

    # ---- control
    def test(self, c):
        v = self.it.decide(self.st, c)
        if v is not None:
            return v
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = True
            self.choices.append(True)
        self.pos += 1
        if not self.it.assume(self.st, c, v):
            raise Infeasible()
        return v

    def throw(self):
        raise Throw()

    # ---- registers
    def __getattr__(self, n):
        if n in ("A", "B", "S", "C", "L", "OT", "OR", "frame_ptr", "stack_base", "last_frame_ptr"):
            return self.sim.get(self.it, self.st, n)
        raise AttributeError(n)

    def set(self, r, v):
        self.sim.set(self.it, self.st, r, v)

    def field(self, name, v):
        o, sz = self.sim.mf[name]
        self.st.mem.setdefault("M", {})[o] = (sz, const(v, 8 * sz))

    # ---- small arithmetic
    def c32(self, v):
        return const(v, 32)

    def and_(self, t, m):
        return bit("and", [t, const(m, t.w)], self.st.facts)

    def lt(self, a, b):
        return self.test(icmp("ult", a, b, self.st.facts))

    def eq(self, a, b):
        return self.test(icmp("eq", a, b, self.st.facts))

    # ---- stack
    @property
    def n(self):
        return self.st.vecs[self.sim.stackkey].size

    @property
    def count(self):
        return trunc(self.n, 32, self.st.facts)

    def cell(self, i):
        k = self.sim.stackkey
        return Cell(self.it.cread(self.st, k, i, 0, 4, I32), self.it.cread(self.st, k, i, 8, 8, I64))

    def put(self, i, t, v):
        k = self.sim.stackkey
        self.it.cwrite(self.st, k, i, 0, 4, const(t, 32) if isinstance(t, int) else t)
        if v.w == 32:
            v = zext(v, 64, self.st.facts)
        self.it.cwrite(self.st, k, i, 8, 8, v)

    def nonempty(self):
        if self.eq(self.n, const(0, 64)):
            self.throw()

    def pop(self):
        self.nonempty()
        c = self.cell(addc(self.n, -1))
        self.it.setsize(self.st, self.sim.stackkey, addc(self.n, -1))
        return c

    def top(self):
        self.nonempty()
        return self.cell(addc(self.n, -1))

    def settop(self, t, v):
        self.put(addc(self.n, -1), t, v)

    def push(self, t, v):
        if self.test(icmp("uge", self.n, const(LIMIT, 64), self.st.facts)):
            self.throw()
        i = self.n
        vv = self.st.vecs[self.sim.stackkey]
        self.st.vecs[self.sim.stackkey] = Vec(vv.base, addc(i, 1), vv.log)
        self.put(i, t, v)

    def at(self, idx):
        """checked index"""
        i = zext(idx, 64, self.st.facts)
        if not self.test(icmp("ult", i, self.n, self.st.facts)):
            self.throw()
        return i

    def erase(self, ptr32):
        i = zext(ptr32, 64, self.st.facts)
        if self.test(icmp("ugt", i, self.n, self.st.facts)):
            self.throw()
        self.it.setsize(self.st, self.sim.stackkey, i)

    def typ(self, c, among=(NUL, IADDR, RADDR, IVAL, RVAL)):
        if is_c(c.t):
            return cval(c.t)
        for k in among[:-1]:
            if self.eq(c.t, const(k, 32)):
                return k
        return among[-1]

    def addr(self, c):
        return self.and_(trunc(c.v, 32, self.st.facts), M27)

    gint = addr

    def greal(self, c):
        return self.and_(c.v, M54)

    # ---- numbers
    def int_(self, c):
        return x2i(self.gint(c))

    def real(self, c):
        return mk("x2r", (self.greal(c),), "fp")

    def num(self, c):
        """numeric value as an exact real"""
        return self.real(c) if self.typ(c) == RVAL else itof(self.int_(c), True, self.st.facts)

    def i2x(self, x):
        r = p_i2x(self.it, None, [x], self.st.copy(), None)
        kinds = {o.kind for o in r}
        p = mk("int27", (x,), 1)
        if kinds == {"throw"}:
            self.throw()
        if kinds == {"ret"}:
            if self.st.preds.get(p) is False:
                raise Infeasible()
            return i2x(x)
        if not self.test(p):
            self.throw()
        self.it.setfact(self.st, x, meet(rng(x, self.st.facts), from_s(-M26, M26, 32)))
        return i2x(x)

    def r2x(self, x):
        if self.it.decide(self.st, fcmp("oeq", x, FINF, self.st.facts)):
            self.throw()
        if not small_real(x, self.st):
            if not self.test(mk("realfit", (x,), 1)):
                self.throw()
        return mk("r2x", (x,), 64)

    def pushint(self, x):
        self.push(IVAL, self.i2x(x))

    def pushreal(self, x):
        self.push(RVAL, self.r2x(x))

    def pushbool(self, b):
        self.push(IVAL, const(0 if self.test(b) else 1, 32))

    # ---- memory
    def mload(self, a):
        return mload(self.st, a)

    def mstore(self, a, v):
        mstore(self.st, a, v)

    def instack(self, a):
        return not self.test(icmp("ult", a, const(STACK_BASE, 32), self.st.facts))

    def load_word(self, a):
        if not self.instack(a):
            return self.mload(a)
        return self.gint(self.cell(self.at(addc(a, -STACK_BASE))))

    def load_real(self, a):
        if not self.instack(a):
            return mk("w2r", (self.mload(a), self.mload(addc(a, 1))), 64)
        return self.greal(self.cell(self.at(addc(a, -STACK_BASE))))

    def display(self, lvl):
        if self.eq(lvl, const(0, 32)):
            return const(0, 32)
        if not self.lt(lvl, const(32, 32)):
            self.throw()
        off = scale(zext(lvl, 64, self.st.facts), 4)
        k = ("arr", "M", "display")
        if k not in self.st.vecs:
            self.st.vecs[k] = Vec(("init", k), const(0, 64))
        return self.it.cread(self.st, k, off, 0, 4, I32)

    def dyn(self, s):
        return add(self.display(self.and_(s, 31)), lshr(s, const(5, 32), self.st.facts))

    def eis_at(self, sb):
        k = self.sim.eiskey
        if k not in self.st.vecs:
            self.st.vecs[k] = Vec(("init", k), const(0, 64))
        return self.it.cread(self.st, k, sb, 0, 4, I32)

    def eis_set(self, sb, v):
        k = self.sim.eiskey
        if k not in self.st.vecs:
            self.st.vecs[k] = Vec(("init", k), const(0, 64))
        self.it.cwrite(self.st, k, sb, 0, 4, const(v, 32) if isinstance(v, int) else v)

    def grow(self, k):
        """reserve k words in the current frame"""
        post = self.eis_at(self.stack_base)
        self.set("stack_base", add(self.stack_base, k))
        self.eis_set(self.stack_base, post)

    def block_level(self):
        if self.eq(self.stack_base, const(0, 32)):
            return const(0, 32)
        return self.addr(self.cell(self.at(addc(self.frame_ptr, 3))))

    def fill(self, count, vals):
        """push `count` times the sequence vals"""
        v = self.st.vecs[self.sim.stackkey]
        self.st.vecs[self.sim.stackkey] = fill_vec(self.it, self.st, self.sim.stackkey, v, count, vals)

    # ---- procedure frames
    def frame(self, ret, nargs):
        fp0 = self.count
        parent = None
        for x in (self.frame_ptr, ret, self.stack_base, const(0, 32), const(0, 32)):
            self.push(IADDR, x)
        lvl = self.block_level()
        desc = bit("or", [shl(lvl, const(15, 32), self.st.facts), self.frame_ptr], self.st.facts)
        self.fill(nargs, ((IVAL, const(0, 64)), (IADDR, zext(desc, 64, self.st.facts))))
        self.set("frame_ptr", fp0)
        self.set("stack_base", self.count)
        self.eis_set(self.stack_base, 0)
        self.set("last_frame_ptr", fp0)

    def release(self):
        fp = self.frame_ptr
        if not self.lt(fp, self.count):
            self.throw()
        ret = self.addr(self.cell(self.at(addc(fp, 1))))
        self.set("stack_base", self.addr(self.cell(self.at(addc(fp, 2)))))
        self.set("frame_ptr", self.addr(self.cell(self.at(fp))))
        self.erase(fp)
        self.update_display(self.block_level(), self.frame_ptr)
        self.set("last_frame_ptr", self.frame_ptr)
        return ret

    def update_display(self, lvl, fp):
        upd_display(self.it, self.st, lvl, fp)

    # ---- arithmetic on cells
    def arith(self, op, a, b):
        """-> (type, word or real) of a op b"""
        ta, tb = self.typ(a), self.typ(b)
        if ta not in (IVAL, RVAL) or tb not in (IVAL, RVAL):
            raise Unspec()
        F = self.st.facts
        if op == "div":
            y = self.num(b)
            if self.test(fcmp("oeq", y, fconst(0), F)):
                self.throw()
            return RVAL, self.r2x(fop("fdiv", self.num(a), y))
        if ta == IVAL and tb == IVAL:
            x, y = self.int_(a), self.int_(b)
            if op == "add":
                return IVAL, self.i2x(add(x, y))
            if op == "sub":
                return IVAL, self.i2x(sub(x, y))
            p = mul(sext(x, 64, F), sext(y, 64, F))
            if self.test(icmp("sge", p, const(-M26, 64), F)) and self.test(icmp("sle", p, const(M26, 64), F)):
                return IVAL, i2x(trunc(p, 32, F))
            return RVAL, self.r2x(itof(p, True, F))
        f = {"add": "fadd", "sub": "fsub", "mul": "fmul"}[op]
        return RVAL, self.r2x(fop(f, self.num(a), self.num(b)))

    def arith_word(self, op, a, b):
        return self.arith(op, a, b)

    def less(self, a, b):
        """truth term of a < b for numbers"""
        ta, tb = self.typ(a), self.typ(b)
        if ta not in (IVAL, RVAL) or tb not in (IVAL, RVAL):
            raise Unspec()
        F = self.st.facts
        if ta == IVAL and tb == IVAL:
            return icmp("slt", self.int_(a), self.int_(b), F)
        return fcmp("olt", self.num(a), self.num(b), F)

    def equal(self, a, b):
        ta, tb = self.typ(a), self.typ(b)
        F = self.st.facts
        if ta not in (IVAL, RVAL) or tb not in (IVAL, RVAL):
            raise Unspec()
        if ta == IVAL and tb == IVAL:
            return icmp("eq", self.int_(a), self.int_(b), F)
        return fcmp("oeq", self.num(a), self.num(b), F)

    def truth(self, c):
        if self.typ(c) != IVAL:
            raise Unspec()
        return icmp("eq", self.gint(c), const(TRUE, 32), self.st.facts)

    def load_value(self, c):
        t = self.typ(c)
        if t == IADDR:
            return Cell(const(IVAL, 32), zext(self.load_word(self.addr(c)), 64, self.st.facts))
        if t == RADDR:
            return Cell(const(RVAL, 32), self.load_real(self.addr(c)))
        self.throw()

    def store_value(self, dest, src):
        td, ts = self.typ(dest), self.typ(src)
        a = self.addr(dest)
        F = self.st.facts
        if td not in (IADDR, RADDR) or ts not in (IVAL, RVAL):
            self.throw()
        if td == IADDR:
            if ts == IVAL:
                r = self.gint(src)
            else:
                r = self.round(self.real(src))
            if not self.instack(a):
                self.mstore(a, r)
            else:
                self.put(self.at(addc(a, -STACK_BASE)), IVAL, r)
        else:
            if ts == RVAL:
                r = self.greal(src)
            elif self.eq(self.gint(src), const(M27, 32)):
                r = const(M54, 64)
            else:
                r = self.r2x(itof(self.int_(src), True, F))
            if not self.instack(a):
                self.mstore(a, trunc(bit("and", [lshr(r, const(27, 64), F), const(M27, 64)], F), 32, F))
                self.mstore(addc(a, 1), self.and_(trunc(r, 32, F), M27))
            else:
                self.put(self.at(addc(a, -STACK_BASE)), RVAL, r)

    def round(self, x):
        """integer word of a real rounded to nearest"""
        return self.i2x(self.rounded(x))

    def rounded(self, x):
        rr = mk("round", (x,), "fp")
        if not self.test(fcmp("ole", mk("fabs", (rr,), "fp"), fconst(M26), self.st.facts)):
            self.throw()
        w = self.toint(rr)
        g = meet(rng(w, self.st.facts), from_s(-M26, M26, 32))
        if g is None:
            raise Infeasible()
        self.it.setfact(self.st, w, g)
        return w

    def toint(self, x):
        return real2int(self, x)

    def sdiv(self, a, b):
        return mk("sdiv", (a, b), 32)

    def sign_word(self, c):
        """+1, 0 or -1 as an integer word"""
        t = self.typ(c)
        F = self.st.facts
        if t == IVAL:
            x = self.int_(c)
            pos, neg = icmp("sgt", x, const(0, 32), F), icmp("slt", x, const(0, 32), F)
        elif t == RVAL:
            x = self.real(c)
            pos, neg = fcmp("ogt", x, fconst(0), F), fcmp("olt", x, fconst(0), F)
        else:
            raise Unspec()
        if self.test(pos):
            return i2x(const(1, 32))
        if self.test(neg):
            return i2x(const((1 << 32) - 1, 32))
        return i2x(const(0, 32))

    def out(self, kind, val):
        emit_out(self.st, ("@_ZSt4cout", 0), kind, val)

    def text(self, s):
        self.out("text", ("text", s))

    def event(self, *e):
        self.st.events += (e,)


def real2int(m, x):
    return m.it.fptoi_term(x, 32, m.st)


def fill_vec(it, st, key, v, count, vals):
    """content of vector v after pushing the sequence vals count times"""
    F = st.facts
    k = len(vals)
    if is_c(count):
        n = v
        for _ in range(cval(count)):
            for t, x in vals:
                i = n.size
                n = Vec(n.base, addc(i, 1), n.log)
                st.vecs[key] = n
                it.cwrite(st, key, i, 0, 4, const(t, 32) if isinstance(t, int) else t)
                it.cwrite(st, key, i, 8, 8, x)
                n = st.vecs[key]
        return n
    c64 = zext(count, 64, F)
    vs = tuple(((0, 4, const(t, 32) if isinstance(t, int) else t), (8, 8, zext(x, 64, F))) for t, x in vals)
    return Vec(("fill", v.base, v.log, v.size, vs, c64), add(v.size, scale(c64, k)), ())


# ------------------------------------------------------------------ comparison
def simp(t, it, st, memo=None):
    """rewrite a term under the facts of a path"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(simp(x, it, st, memo) for x in t)
        if isinstance(t, Vec):
            return Vec(simp(t.base, it, st, memo), simp(t.size, it, st, memo), simp(t.log, it, st, memo))
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = _simp(t, it, st, memo)
    if isinstance(r, T) and isinstance(r.w, int) and r.op not in ("c",):
        g = rng(r, st.facts)
        if g[0] == g[1]:
            r = const(g[0], r.w)
    memo[t] = r
    return r


def _simp(t, it, st, memo):
    F = st.facts
    S = lambda x: simp(x, it, st, memo)
    if t.op in ("c", "sym", "fc", "undef"):
        return t
    if t.w == 1 and t.op in ("icmp", "fcmp", "not", "and", "or", "int27", "realfit"):
        v = it.decide(st, t)
        if v is not None:
            return const(int(v), 1)
    if t.op == "ite":
        v = it.decide(st, t.a[0])
        if v is None:
            c = S(t.a[0])
            if is_c(c):
                v = bool(cval(c))
            else:
                return ite(c, S(t.a[1]), S(t.a[2]))
        return S(t.a[1] if v else t.a[2])
    if t.op == "lin":
        c, ts = t.a
        r = const(c, t.w)
        for b, k in ts:
            r = add(r, S(b), k)
        return r
    a = [S(x) for x in t.a] if isinstance(t.a, tuple) else t.a
    if t.op in ("and", "or", "xor"):
        return bit(t.op, a, F)
    if t.op == "zext":
        return zext(a[0], t.w, F)
    if t.op == "sext":
        return sext(a[0], t.w, F)
    if t.op == "trunc":
        return trunc(a[0], t.w, F)
    if t.op == "icmp" and isinstance(a[1], T) and isinstance(a[1].w, int):
        return icmp(a[0], a[1], a[2], F)
    if t.op == "fcmp":
        return fcmp(a[0], a[1], a[2], F)
    if t.op == "not":
        return bnot(a[0])
    if t.op == "sitofp":
        return itof(a[0], True, F)
    if t.op in ("fadd", "fsub", "fmul", "fdiv"):
        return fop(t.op, a[0], a[1])
    if t.op == "mul":
        return mul(a[0], a[1])
    if t.op in ("udiv", "sdiv", "urem", "srem"):
        return divide(t.op, a[0], a[1], F)
    if t.op == "lshr":
        return lshr(a[0], a[1], F)
    if t.op == "shl":
        return shl(a[0], a[1], F)
    if t.op == "x2i":
        return x2i(a[0])
    if t.op == "i2x":
        return i2x(a[0])
    if tuple(a) == t.a:
        return t
    return mk(t.op, tuple(a), t.w)


OBS = ("A", "B", "S", "C", "L", "OT", "frame_ptr", "stack_base", "last_frame_ptr")


def observe(sim, it, st, regs=OBS):
    r = {}
    for x in regs:
        r[x] = sim.get(it, st, x)
    v = st.vecs[sim.stackkey]
    r["stack.size"] = v.size
    r["stack"] = (v.base, v.log)
    d = st.vecs.get(("arr", "M", "display"))
    r["display"] = (d.base, d.log) if d else (("init", ("arr", "M", "display")), ())
    e = st.vecs.get(sim.eiskey)
    r["pending"] = (e.base, e.log) if e else (("init", sim.eiskey), ())
    r["memory"] = st.tags.get("mem", ())
    w = st.vecs.get(("arr", "M", "memory"))
    r["store"] = (w.base, w.log) if w else (("init", ("arr", "M", "memory")), ())
    f = getattr(it, "event_filter", None)
    r["events"] = tuple(e for e in st.events if f(e)) if f else st.events
    own = {sim.reg[x][0] for x in sim.reg}
    other = []
    for off, (sz, v) in st.mem.get("M", {}).items():
        if isinstance(off, int) and off not in own and not (isinstance(v, T) and v.op == "sym") and not (isinstance(v, T) and v.op == "ptr"):
            other.append((sim.names.get(off, str(off)), v))
    r["other fields"] = tuple(sorted(other, key=lambda e: e[0]))
    return r


def canon_logs(o, it, st):
    """drop writes of the value already present and sort"""
    for k in ("stack", "display", "pending", "store"):
        base, log = o[k]
        if k == "stack":
            log = tuple(e for e in log if not (e[1] == 4 and e[2] == 4))     # padding
        o[k] = (base, tuple(sorted(log, key=lambda e: (e[0].id, e[1])) if all_distinct(log, it, st) else log))
    return o


def all_distinct(log, it, st):
    idx = []
    for e in log:
        if e[0] not in idx:
            idx.append(e[0])
    for i in range(len(idx)):
        for j in range(i):
            if not it.distinct(st, idx[i], idx[j]):
                return False
    return True


def renorm(it, st):
    """re-normalise recorded comparisons under the facts of the path"""
    memo = {}
    for p, v in list(st.preds.items()):
        if p.op == "icmp" and isinstance(p.a[1].w, int):
            q = icmp(p.a[0], simp(p.a[1], it, st, memo), simp(p.a[2], it, st, memo), st.facts)
            if q is not p and not is_c(q):
                if q.op == "not":
                    q, v = q.a[0], not v
                st.preds.setdefault(q, v)
    for t, f in list(st.facts.items()):
        if t.op in ("lin", "mul", "trunc", "zext", "sext") and isinstance(t.w, int):
            q = simp(t, it, st, memo)
            if q is not t and not is_c(q) and q not in st.facts:
                st.facts[q] = f


def run_spec(sim, it, mk_state, spec, args, facts, preds):
    """all outcomes of the reference transformer under the given path facts"""
    outs = []
    choices = []
    while True:
        st = mk_state()
        st.facts = dict(facts)
        st.preds = dict(preds)
        renorm(it, st)
        m = M(sim, it, st, choices)
        try:
            m.result = spec(m, *args)
            outs.append(("ret", m.result, m.st))
        except Throw:
            outs.append(("throw", None, m.st))
        except Unspec:
            outs.append(("unspec", None, m.st))
        except Infeasible:
            pass
        if len(outs) > 600:
            raise AnalysisError("reference transformer does not close")
        while choices and choices[-1] is False:
            choices.pop()
        if not choices:
            return outs
        choices[-1] = False


def compare(sim, it, o, mk_state, spec, args, result=None, regs=OBS, skip=()):
    """differences between code outcome o and the reference; [] when equal"""
    diffs = []
    for kind, val, st in run_spec(sim, it, mk_state, spec, args, o.st.facts, o.st.preds):
        if kind == "unspec":
            continue
        ck = o.kind
        if ck == "throw" and o.val and (o.val[1] == "display" or o.val[2] == "map::at"):
            continue     # unwinding may fail on a damaged frame chain
        if ck not in ("ret", "throw"):
            diffs.append("the operation ends with %s" % ck)
            continue
        if ck != kind:
            if ck == "throw" and o.val and o.st.tags.get("inloop") and st.tags.get("maythrow"):
                continue
            if ck == "throw" and o.val and o.st.tags.get("inloop") and o.val[2] == "Stack overflow":
                continue
            diffs.append("%s where %s is required%s" % (
                "error raised (%s)" % (o.val[2] if o.val else "",) if ck == "throw" else "no error raised",
                "normal completion" if kind == "ret" else "an error", path_text(st, o)))
            continue
        if kind == "throw":
            continue
        a = observe(sim, it, o.st, regs)
        b = observe(sim, it, st, regs)
        ost = o.st.copy()
        ost.facts, ost.preds = st.facts, st.preds
        a, b = canon_logs(a, it, st), canon_logs(b, it, st)
        if result is not False:
            va = o.val
            vb = val if val is not None else const(0, 1)
            if simp(va, it, st) is not simp(vb, it, st):
                diffs.append("result %s, expected %s" % (va, vb))
        for k in a:
            if k in skip:
                continue
            if a[k] != b[k]:
                x, y = simp(a[k], it, st), simp(b[k], it, st)
                if k in ("stack", "display", "pending", "store"):
                    x, y = normlog(x, it, st), normlog(y, it, st)
                if x != y and not (isinstance(x, T) and x is y):
                    x, y = first_diff(x, y)
                    diffs.append("%s is %s, expected %s%s" % (k, fmt(x), fmt(y), path_text(st, o)))
    return diffs


def normlog(x, it, st):
    base, log = x
    v = loops.norm_fill(Vec(base, const(0, 64), log), st.facts)
    base, log = v.base, v.log
    return base, tuple(sorted(log, key=lambda e: (e[0].id, e[1])) if all_distinct(log, it, st) else log)


def first_diff(x, y):
    """the innermost pair of differing parts of two observed values"""
    while isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        d = [i for i in range(len(x)) if x[i] is not y[i] and x[i] != y[i]]
        if len(d) != 1 or not isinstance(x[d[0]], tuple) and len(x) <= 4:
            break
        x, y = x[d[0]], y[d[0]]
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and len(x) > 4:
        d = [i for i in range(len(x)) if x[i] is not y[i] and x[i] != y[i]]
        return x[d[0]], y[d[0]]
    return x, y


def fmt(x):
    return str(x)[:400]


def path_text(st, o):
    ps = [("" if v else "not ") + str(p) for p, v in o.st.preds.items()]
    return " when [" + "; ".join(ps)[:300] + "]" if ps else ""
