"""Reference semantics of the run-time operations (the operation table).

Every entry maps an operation number to a transformer over the reference
machine `spec.M` and to the operand-type partitions it is compared under.
Sources: README and doc/ of the repository (operation list, descriptions of
the run-time routines) and the ALGOL 60 rules for the operators."""
from spec import *

I, R, IA, RA, NU = IVAL, RVAL, IADDR, RADDR, NUL
NUM = (I, R)
OPS = {}


class Op:
    def __init__(self, num, name, fn, parts, group, **kw):
        self.num, self.name, self.fn, self.parts, self.group = num, name, fn, parts, group
        self.kw = kw

    def partitions(self, sim):
        if callable(self.parts):
            return self.parts(sim)
        return [Part(partname(t), (lambda t=t: sim.init_state(t)), t) for t in self.parts]


class Part:
    """a set of initial states the transformers are compared on"""

    def __init__(self, name, mk, top=()):
        self.name, self.mk, self.top = name, mk, top


TN = {None: "any", NUL: "null", IADDR: "int-address", RADDR: "real-address", IVAL: "integer", RVAL: "real"}


def partname(t):
    return "(" + ", ".join(TN[x] for x in t) + ")"


def op(num, name, parts, group, **kw):
    def d(fn):
        OPS[num] = Op(num, name, fn, parts, group, **kw)
        return fn
    return d


def prod(*xs):
    r = [()]
    for x in xs:
        r = [a + (b,) for a in r for b in x]
    return r


# ------------------------------------------------------------ addresses, loads
@op(14, "TRAD", [()], "load")
def _(m):
    m.push(RA, addc(m.dyn(m.S), STACK_BASE))


@op(15, "TRAS", [()], "load")
def _(m):
    m.push(RA, m.B)


@op(16, "TIAD", [()], "load")
def _(m):
    m.push(IA, addc(m.dyn(m.S), STACK_BASE))


@op(17, "TIAS", [()], "load")
def _(m):
    m.push(IA, m.B)


def trd(t):
    def f(m):
        c = m.cell(m.at(m.dyn(m.S)))
        if m.typ(c) != t:
            m.throw()
        m.push(t, c.v)
    return f


op(30 + 1, "TRRD", [()], "load")(trd(R))
op(33, "TIRD", [()], "load")(trd(I))


@op(32, "TRRS", [()], "load")
def _(m):
    m.push(R, m.load_real(m.B))


@op(34, "TIRS", [()], "load")
def _(m):
    m.push(I, m.mload(m.B))


# ---------------------------------------------------------------- arithmetic
def arith(opname):
    def f(m):
        b = m.pop()
        a = m.pop()
        t, v = m.arith(opname, a, b)
        m.push(t, v)
    return f


def arith_static(opname, t):
    def f(m):
        if t == I:
            b = Cell(const(I, 32), zext(m.mload(m.B), 64, m.st.facts))
        else:
            b = Cell(const(R, 32), m.load_real(m.B))
        a = m.pop()
        tt, v = m.arith(opname, a, b)
        m.push(tt, v)
    return f


def arith_dyn(opname, t):
    def f(m):
        b = m.cell(m.at(m.dyn(m.S)))
        if m.typ(b) != t:
            m.throw()
        a = m.pop()
        tt, v = m.arith(opname, a, b)
        m.push(tt, v)
    return f


for nm, nn, base, full in (("add", "AD", 35 + 1, 59), ("sub", "SU", 41, 60), ("mul", "MU", 46, 61), ("div", "DI", 51, 62)):
    op(full, nm.upper(), prod(NUM, NUM), "arith")(arith(nm))
    op(base, nn + "RD", prod(NUM), "arith", dyn=True)(arith_dyn(nm, R))
    op(base + 1, nn + "RS", prod(NUM), "arith")(arith_static(nm, R))
    op(base + 2, nn + "ID", prod(NUM), "arith", dyn=True)(arith_dyn(nm, I))
    op(base + 3, nn + "IS", prod(NUM), "arith")(arith_static(nm, I))


@op(57, "NEG", prod(NUM), "arith")
def _(m):
    c = m.pop()
    if m.typ(c) == I:
        m.push(I, bit("xor", [m.gint(c), const(M27, 32)], m.st.facts))
    else:
        m.push(R, bit("xor", [m.greal(c), const(M54, 64)], m.st.facts))


@op(63, "IDI", prod(NUM, NUM), "arith")
def _(m):
    b = m.pop()
    if m.typ(b) != I:
        m.throw()
    y = m.int_(b)
    if m.eq(y, const(0, 32)):
        m.throw()
    a = m.pop()
    if m.typ(a) != I:
        m.throw()
    m.pushint(m.sdiv(m.int_(a), y))


# ------------------------------------------------------- relations and booleans
def rel(f):
    def g(m):
        b = m.pop()
        a = m.pop()
        if m.typ(a) not in NUM or m.typ(b) not in NUM:
            raise Unspec()
        m.pushbool(f(m, a, b))
    return g


REL = {65: ("MOR", lambda m, a, b: m.less(b, a)), 66: ("LST", lambda m, a, b: bnot(m.less(a, b))),
       67: ("EQU", lambda m, a, b: m.equal(a, b)), 68: ("MST", lambda m, a, b: bnot(m.less(b, a))),
       69: ("LES", lambda m, a, b: m.less(a, b)), 70: ("UQU", lambda m, a, b: bnot(m.equal(a, b)))}
for k, (nm, f) in REL.items():
    op(k, nm, prod(NUM, NUM), "relation")(rel(f))


def logic(f):
    def g(m):
        b = m.test(m.truth(m.pop()))
        a = m.test(m.truth(m.pop()))
        m.push(I, const(TRUE if f(a, b) else FALSE, 32))
    return g


LOGIC = {72: ("AND", lambda a, b: a and b), 73: ("OR", lambda a, b: a or b),
         74: ("IMP", lambda a, b: (not a) or b), 75: ("QVL", lambda a, b: a == b)}
for k, (nm, f) in LOGIC.items():
    op(k, nm, [(I, I)], "relation")(logic(f))


@op(71, "NON", [(I,)], "relation")
def _(m):
    a = m.test(m.truth(m.pop()))
    m.push(I, const(FALSE if a else TRUE, 32))


@op(30, "CAC", [(I,)], "relation")
def _(m):
    a = m.test(m.truth(m.pop()))
    m.set("C", const(1 if a else 0, 8))


# ------------------------------------------------------------------ functions
@op(76, "abs", prod(NUM), "function")
def _(m):
    c = m.pop()
    if m.typ(c) == I:
        v = m.gint(c)
        if m.test(icmp("ne", bit("and", [v, const(1 << 26, 32)], m.st.facts), const(0, 32), m.st.facts)):
            v = bit("xor", [v, const(M27, 32)], m.st.facts)
        m.push(R, m.r2x(itof(v, False, m.st.facts)))
    else:
        v = m.greal(c)
        if m.test(icmp("ne", bit("and", [v, const(1 << 53, 64)], m.st.facts), const(0, 64), m.st.facts)):
            v = bit("xor", [v, const(M54, 64)], m.st.facts)
        m.push(R, v)


@op(77, "sign", prod(NUM), "function")
def _(m):
    c = m.pop()
    m.push(I, m.sign_word(c))


def realfn(nm):
    def f(m):
        x = m.num(m.pop())
        m.pushreal(mk(nm, (x,), "fp"))
    return f


@op(78, "sqrt", prod(NUM), "function")
def _(m):
    x = m.num(m.pop())
    if m.test(fcmp("olt", x, fconst(0), m.st.facts)):
        m.throw()
    m.pushreal(mk("sqrt", (x,), "fp"))


op(79, "sin", prod(NUM), "function")(realfn("sin"))
op(80, "cos", prod(NUM), "function")(realfn("cos"))
op(81, "arctan", prod(NUM), "function")(realfn("atan"))


@op(82, "ln", prod(NUM), "function")
def _(m):
    x = m.num(m.pop())
    if m.test(fcmp("ole", x, fconst(0), m.st.facts)):
        m.throw()
    m.pushreal(mk("log", (x,), "fp"))


@op(83, "exp", prod(NUM), "function")
def _(m):
    x = m.num(m.pop())
    y = mk("exp", (x,), "fp")
    m.pushreal(y)


@op(84, "entier", prod(NUM), "function")
def _(m):
    c = m.pop()
    if m.typ(c) == I:
        m.push(I, m.gint(c))
        return
    x = m.real(c)
    if m.test(fcmp("olt", x, fconst(-M26), m.st.facts)):
        m.throw()
    if m.test(bnot(fcmp("olt", x, fconst(M26 + 1), m.st.facts))):
        m.throw()
    m.pushint(m.toint(mk("floor", (x,), "fp")))


# ------------------------------------------------------------------ assignment
ADR = (IA, RA)


@op(58, "TAR", prod(ADR), "assign")
def _(m):
    c = m.load_value(m.pop())
    m.push(c.t, c.v)


@op(85, "ST", prod(NUM, ADR), "assign")
def _(m):
    s = m.pop()
    d = m.pop()
    m.store_value(d, s)


@op(86, "STA", prod(NUM, ADR), "assign")
def _(m):
    s = m.pop()
    d = m.pop()
    m.store_value(d, s)
    m.push(s.t, s.v)


def stp(keep):
    def f(m):
        c = m.top()
        if not keep:
            c = m.pop()
        a = addc(m.display(addc(m.B, 1)), -1)
        i = m.at(a)
        if m.typ(m.cell(i)) != NUL:
            m.put(i, c.t, c.v)
    return f


op(87, "STP", prod(NUM), "assign")(stp(False))
op(88, "STAP", prod(NUM), "assign")(stp(True))


# ---------------------------------------------------------------- procedures
@op(8, "ETMR", [()], "call")
def _(m):
    m.push(I, const(0, 32))
    m.frame(m.OT, m.A)
    m.set("OT", m.B)


@op(9, "ETMP", [()], "call")
def _(m):
    m.mstore(const(51, 32), addc(m.OT, -8))
    m.push(NU, const(0, 32))
    m.frame(m.OT, m.A)
    m.set("OT", m.B)


@op(29, "SSI", [(I,)], "control")
def _(m):
    m.mstore(const(0o60, 32), m.gint(m.pop()))


# ------------------------------------------------------------------------ for
@op(20, "FOR1", [()], "for")
def _(m):
    m.put(m.at(addc(m.frame_ptr, 5)), IA, m.OT)
    m.set("OT", m.addr(m.cell(m.at(addc(m.frame_ptr, 1)))))


@op(21, "FOR2", prod(NUM, ADR), "for")
def _(m):
    m.put(m.at(addc(m.frame_ptr, 1)), IA, m.OT)
    s = m.pop()
    d = m.pop()
    m.store_value(d, s)
    m.set("OT", m.addr(m.cell(m.at(addc(m.frame_ptr, 5)))))


@op(22, "FOR3", prod(NUM, ADR), "for")
def _(m):
    s = m.pop()
    d = m.pop()
    m.store_value(d, s)
    m.push(d.t, d.v)


@op(23, "FOR4", [(I, IA), (I, RA)], "for")
def _(m):
    c = m.test(m.truth(m.pop()))
    m.set("C", const(int(c), 8))
    if c:
        m.pop()
        m.set("OT", m.addr(m.cell(m.at(addc(m.frame_ptr, 5)))))
    else:
        m.put(m.at(addc(m.frame_ptr, 1)), IA, m.OT)


@op(24, "FOR5", [()], "for")
def _(m):
    m.put(m.at(addc(m.frame_ptr, -1)), NU, const(0, 64))
    m.put(m.at(addc(m.frame_ptr, 1)), IA, m.OT)


@op(25, "FOR6", prod(NUM, NUM) + prod(NUM, ADR), "for")
def _(m):
    inc = m.pop()
    w = m.sign_word(inc)
    if m.typ(m.cell(m.at(addc(m.frame_ptr, -1)))) != NU:
        var = m.pop()
        v = m.load_value(var)
        t, x = m.arith("add", v, inc)
        m.push(var.t, var.v)
        m.push(t, x)
    m.put(m.at(addc(m.frame_ptr, -1)), I, w)


@op(26, "FOR7", prod(NUM, NUM, ADR), "for")
def _(m):
    lim = m.pop()
    val = m.pop()
    var = m.pop()
    m.store_value(var, val)
    d = x2i(m.gint(m.cell(m.at(addc(m.frame_ptr, -1)))))
    z = const(0, 32)
    done = False
    if m.test(icmp("sgt", d, z, m.st.facts)):
        done = m.test(m.less(lim, val))
    elif m.test(icmp("slt", d, z, m.st.facts)):
        done = m.test(m.less(val, lim))
    if done:
        m.push(var.t, var.v)
        m.put(m.at(addc(m.frame_ptr, 1)), IA, m.OT)
    else:
        m.set("OT", m.addr(m.cell(m.at(addc(m.frame_ptr, 5)))))


# ---------------------------------------------------------------- input/output
@op(96, "START", [()], "control")
def _(m):
    pass


@op(97, "STOP", [()], "control")
def _(m):
    return const(1, 1)


@op(104, "TAB", [()], "output")
def _(m):
    m.text("\t")


@op(105, "NLCR", [()], "output")
def _(m):
    m.text("\n")


UNSUPPORTED = (100, 101, 109)
