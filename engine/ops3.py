"""Reference semantics of the operations on array declarations and of the
input/output operations."""
from ops2 import *
import terms as TT
from ops2 import op as defop
from ops2 import take_formal


def z64(m, x):
    return sext(x, 64, m.st.facts)


def pop_int(m):
    c = m.pop()
    if m.typ(c) != I:
        m.throw()
    return m.int_(c)


def pop_num(m):
    c = m.pop()
    if m.typ(c) not in NUM:
        m.throw()
    return m.num(c)


# -------------------------------------------------- storage function frames
def arrays_state(sim, nd, types, items):
    st = sim.init_state(())
    fp = sim.get(sim.interp(), st, "frame_ptr")
    sb = sim.get(sim.interp(), st, "stack_base")
    size = addc(zext(sb, 64, st.facts), 2 * nd)
    st.vecs[sim.stackkey] = Vec(("stack",), size, ())
    for i in range(2 * nd):
        st.tags["types"][addc(size, -1 - i)] = types
    if items is not None:
        sim.set(None, st, "S", const(items, 32))
    else:
        st.facts[sim.get(sim.interp(), st, "S")] = norm((1, 1 << 15, 1, 1 << 15), 32)
    return st


def sf_parts(sim):
    r = []
    for nd in (1, 2, 3):
        for items in (1, 2, 3):
            r.append(Part("%d-dim, %d arrays" % (nd, items), lambda nd=nd, items=items: arrays_state(sim, nd, I, items)))
    return r


def storage_frame(elt):
    def f(m):
        F = m.st.facts
        items = m.S
        nd = cval(lshr(sub(m.count, m.stack_base), const(1, 32), F))
        dims = []
        for i in range(nd):
            right = pop_int(m)
            left = pop_int(m)
            if m.test(icmp("slt", right, addc(left, -1), F)):
                m.throw()
            dims.insert(0, (left, right))
        words = [(IA if elt == 1 else RA, const(0, 64))]
        off, stride = const(0, 64), const(elt, 64)
        strides = []
        for l, r in dims:
            strides.append(stride)
            off = add(off, mul(stride, z64(m, l)))
            stride = mul(stride, z64(m, addc(sub(r, l), 1)))
            for x in (stride, off):
                if m.test(icmp("slt", x, const(0, 64), F)):
                    x = sub(const(0, 64), x)
                if m.test(icmp("sgt", x, const(M26, 64), F)):
                    m.throw()
        words.append((I, m.i2x(trunc(off, 32, F))))
        for s in strides:
            words.append((I, s))
        words.append((I, m.i2x(trunc(sub(const(0, 64), stride), 32, F))))
        words = [(t, zext(x, 64, F) if x.w == 32 else zext(trunc(x, 32, F), 64, F)) for t, x in words]
        sb = m.stack_base
        for t, x in words:
            m.push(t, x)
        if is_c(items):
            for k in range(cval(items) - 1):
                for t, x in words:
                    m.push(t, x)
        else:
            m.fill(addc(items, -1), tuple(words))
        m.grow(mul(items, const(nd + 3, 32)))
    return f


defop(90, "RSF", sf_parts, "arraydecl")(storage_frame(2))
defop(91, "ISF", sf_parts, "arraydecl")(storage_frame(1))


# ------------------------------------------------------ arrays by value
def va_parts(sim):
    def mk(t, place):
        st = sim.init_state(())
        st.tags["formal_cell"] = t
        lo, hi = ((0, 32700), (STACK_BASE, STACK_BASE + 60000))[place]
        if place:
            st.facts[sim.get(sim.interp(), st, "frame_ptr")] = norm((60010, 1 << 17, 60010, 1 << 17), 32)
        st.facts[FORMAL_ADDR] = norm((lo, hi, lo, hi), 32)
        return st
    return [Part("%s descriptor in %s" % (TN[t], ("memory", "stack")[p]), lambda t=t, p=p: mk(t, p)) for t in ADR for p in (0, 1)]


def value_array(elt):
    def f(m):
        F = m.st.facts
        take_formal(m, m.S, PUSH_ADDRESS)
        c = m.pop()
        if m.typ(c) not in ADR:
            m.throw()
        a = m.addr(c)
        t = RA if elt == 2 else IA
        m.push(t, m.load_word(a))
        m.push(t, m.load_word(addc(a, 1)))
        seen = const(0, 1)
        for i in range(2, 8):
            w = m.load_word(addc(a, i))
            v = x2i(w)
            if i == 2 and not m.eq(v, const(elt, 32)):
                if not m.eq(v, const(3 - elt, 32)):
                    raise Unspec()
                w = addc(mul(v, const(10, 32)), elt)
            m.push(I, w)
            seen = bit("or", [seen, bit("and", [icmp("slt", v, const(0, 32), F), icmp("sge", v, const(-32767, 32), F)])])
        if not m.test(seen):
            m.throw()
        m.grow(const(8, 32))
    return f


defop(92, "RVA", va_parts, "arrayvalue")(value_array(2))
defop(93, "IVA", va_parts, "arrayvalue")(value_array(1))


# -------------------------------------------------------------- positioning
def find_length(m, a, last):
    """index of the first negative integer of the storage function"""
    pos = 2
    while pos < last:
        c = m.cell(m.at(addc(a, pos)))
        if m.typ(c) == I and m.test(icmp("slt", m.int_(c), const(0, 32), m.st.facts)):
            return pos
        pos += 1
    m.throw()


def sf_state(sim, nd, elt, lap=True):
    """local storage function of nd dimensions at dynamic address S"""
    st = sim.init_state(())
    it = sim.interp()
    F = st.facts
    lvl = 3
    fp = sim.get(it, st, "frame_ptr")
    off = addc(sym("na", 32, 0, 1 << 10), 5)
    disp = sym("disp", 32, 1, 1 << 17)
    k = ("arr", "M", "display")
    st.vecs[k] = Vec(("init", k), const(0, 64), ((const(4 * lvl, 64), 0, 4, fp),))
    sim.set(None, st, "S", bit("or", [shl(off, const(5, 32), F), const(lvl, 32)], F))
    i0 = zext(add(fp, off), 64, F)
    sb = addc(add(fp, off), nd + 3)
    sim.set(None, st, "stack_base", sb)
    st.vecs[sim.stackkey] = Vec(("stack",), zext(sb, 64, F), ())
    st.tags["sf"] = (i0, nd)
    for k in range(0, nd + 3):
        t = I
        if k == 0:
            t = IA if elt == 1 else RA
        st.tags["types"][addc(i0, k)] = t
    return st


def _display(st):
    k = ("arr", "M", "display")
    if k not in st.vecs:
        st.vecs[k] = Vec(("init", k), const(0, 64))
    return st


def lap_parts(sim):
    return [Part("%d-dim %s array" % (nd, "integer" if e == 1 else "real"), lambda nd=nd, e=e: sf_state(sim, nd, e))
            for nd in (1, 2, 3) for e in (1, 2)]


@defop(94, "LAP", lap_parts, "arraydecl")
def _(m):
    F = m.st.facts
    a = m.dyn(m.S)
    c0 = m.cell(m.at(a))
    if not m.eq(m.addr(c0), const(0, 32)):
        m.throw()
    nd = m.st.tags["sf"][1]
    pos = 2
    while True:
        c = m.cell(m.at(addc(a, pos)))
        if m.typ(c) == I and m.test(icmp("slt", m.int_(c), const(0, 32), F)):
            break
        pos += 1
        if pos > 2 + nd:
            raise Unspec()       # no length in the storage function: malformed
    words = sub(const(0, 32), m.int_(c))
    m.put(m.at(a), c0.t, addc(m.stack_base, STACK_BASE))
    off = m.int_(m.cell(m.at(addc(a, 1))))
    m.put(m.at(addc(a, 1)), c0.t, addc(sub(m.stack_base, off), STACK_BASE))
    m.fill(words, ((I, const(0, 64)),))
    m.grow(words)


# ------------------------------------------------ value array positioning
VA_LEN = sym("words", 32, 4, 6000)
VA_ACT = sym("actual", 32, 0, 1 << 17)
VA_BASE = sym("zerobase", 32, 0, M27)


def vap_state(sim, nd, elt, place):
    st = sim.init_state(())
    it = sim.interp()
    F = st.facts
    lvl = 3
    fp = sim.get(it, st, "frame_ptr")
    off = addc(sym("na", 32, 0, 1 << 10), 5)
    k = ("arr", "M", "display")
    st.vecs[k] = Vec(("init", k), const(0, 64), ((const(4 * lvl, 64), 0, 4, fp),))
    sim.set(None, st, "S", bit("or", [shl(off, const(5, 32), F), const(lvl, 32)], F))
    i0 = zext(add(fp, off), 64, F)
    sb = addc(add(fp, off), 8)
    sim.set(None, st, "stack_base", sb)
    if place:
        F[fp] = norm((60010, 1 << 17, 60010, 1 << 17), 32)
        F[VA_ACT] = norm((STACK_BASE, STACK_BASE + 30000, STACK_BASE, STACK_BASE + 30000), 32)
    else:
        F[VA_ACT] = norm((0, 16000, 0, 16000), 32)
    v = Vec(("stack",), zext(sb, 64, F), ())
    st.vecs[sim.stackkey] = v
    at = IA if elt in (1, 21) else RA
    cells = [(at, VA_ACT), (at, VA_BASE), (I, const(elt, 32))]
    for j in range(nd):
        if j:
            cells.append((I, sym("stride%d" % j, 32, 2, 6000)))
    cells.append((I, i2x(sub(const(0, 32), VA_LEN))))
    while len(cells) < 8:
        cells.append((I, sym("spare%d" % len(cells), 32, 0, M27)))
    for j, (t, x) in enumerate(cells):
        it.cwrite(st, sim.stackkey, addc(i0, j), 0, 4, const(t, 32))
        it.cwrite(st, sim.stackkey, addc(i0, j), 8, 8, zext(x, 64, F))
    st.tags["sf"] = nd
    return st


def vap_parts(sim):
    r = [Part("%d-dim %s array %s" % (nd, {1: "integer", 2: "real", 21: "real to integer", 12: "integer to real", 0: "badly typed"}[e], ("in memory", "in stack")[p]),
              lambda nd=nd, e=e, p=p: vap_state(sim, nd, e, p))
         for e in (1, 2, 21, 12) for p in (0, 1) for nd in (1, 2, 3)]
    r += [Part("1-dim element type %d" % e, lambda e=e: vap_state(sim, 1, e, 0)) for e in (0, 3, 11, 22)]
    return r


@defop(95, "VAP", vap_parts, "arrayvalue")
def _(m):
    F = m.st.facts
    a = m.dyn(m.S)
    nd = m.st.tags["sf"]
    C = lambda k: m.cell(m.at(addc(a, k)))
    actual = m.addr(C(0))
    base = m.addr(C(1))
    elt = m.gint(C(2))
    if not is_c(elt) or cval(elt) not in (1, 2, 21, 12):
        m.throw()
    elt = cval(elt)
    pos = nd + 2
    words = sub(const(0, 32), m.int_(C(pos)))
    conv = lambda x: x
    if elt == 21:
        conv = lambda x: TT.divide("sdiv", x, const(2, 32), F)
    if elt == 12:
        conv = lambda x: mul(x, const(2, 32))
    if elt > 2:
        for k in range(3, pos + 1):
            x = conv(m.int_(C(k)))
            m.put(m.at(addc(a, k)), I, m.i2x(x))
            if k == pos:
                words = sub(const(0, 32), x)
    t = IA if elt % 2 else RA
    sb = m.stack_base
    mod = 1 << (27 if m.instack(actual) else 26)
    d = m.and_(sub(actual, base), mod - 1)
    if not m.test(icmp("slt", d, const(mod // 2, 32), F)):
        d = addc(d, -mod)
    d = conv(d)
    m.put(m.at(a), t, addc(sb, STACK_BASE))
    m.put(m.at(addc(a, 1)), t, addc(sub(sb, d), STACK_BASE))
    it = loops.ITER
    F[it] = norm((0, 5999, 0, 5999), 32)
    if elt == 1:
        cell = (I, m.load_word(add(actual, it)))
    elif elt == 2:
        cell = (R, m.load_real(add(actual, it)))
    elif elt == 21:
        # conversion of each element; it may fail on one of them
        m.st.tags["maythrow"] = ("integer overflow", None)
        x = mk("fptosi", (mk("round", (mk("x2r", (m.load_real(add(actual, scale(it, 2))),), "fp"),), "fp"),), 32)
        cell = (I, i2x(x))
    else:
        cell = (R, mk("r2x", (itof(x2i(m.load_word(add(actual, lshr(it, const(1, 32))))), True, F),), 64))
    m.fill(words, (cell,))
    if elt > 2:
        m.put(m.at(addc(a, 2)), I, const(elt % 10, 32))
    m.grow(words)


# ------------------------------------------------------------- input, output
@defop(99, "TAS", [()], "output")
def _(m):
    m.event("putc", ptr("@_ZSt4cout", 0), m.S)


@defop(102, "read", [()], "input")
def _(m):
    m.event("input_real")
    m.pushreal(sym("input", "fp"))


def print_parts(sim):
    return [Part("%d arguments %s" % (len(t), partname(t)), lambda t=t: fmt_state(sim, len(t), t))
            for k in (0, 1, 2, 3) for t in prod(*([(I, R, IA)] * k))]


@defop(103, "print", print_parts, "output")
def _(m):
    k = cval(sub(m.count, m.stack_base))
    for i in range(k):
        c = m.cell(zext(addc(m.stack_base, i), 64, m.st.facts))
        if i:
            m.text(" ")
        t = m.typ(c)
        if t not in NUM:
            m.throw()
        m.event("show", "integer" if t == I else "real", ptr("@_ZSt4cout", 0), m.gint(c) if t == I else m.greal(c))
    m.erase(m.stack_base)


@defop(106, "XEEN", [(I,)], "input")
def _(m):
    x = pop_int(m)
    m.event("switches", x)
    m.push(I, sym("switches", 32, 0, M27))


@defop(107, "SPACE", [(I,), (R,), (IA,)], "output")
def _(m):
    n = pop_int(m)
    if not m.test(icmp("sgt", n, const(0, 32), m.st.facts)):
        return
    if is_c(n):
        m.text(" " * cval(n))
    else:
        m.st.events += (("repeat", n, (("out", ("@_ZSt4cout", 0), "text", " "),)),)


@defop(108, "stop", [()], "input")
def _(m):
    m.field("switches_are_valid", 0)


def fmt_state(sim, extra, top):
    st = sim.init_state(())
    sb = sim.get(sim.interp(), st, "stack_base")
    size = addc(zext(sb, 64, st.facts), extra)
    st.vecs[sim.stackkey] = Vec(("stack",), size, ())
    for i, t in enumerate(top):
        st.tags["types"][addc(size, -1 - i)] = t
    return st


def flot_parts(sim):
    r = [Part("2 arguments " + partname(t), lambda t=t: fmt_state(sim, 2, t)) for t in prod(NUM, NUM)]
    r += [Part("3 arguments " + partname(t), lambda t=t: fmt_state(sim, 3, t)) for t in prod(NUM, NUM, NUM)]
    r += [Part("%d arguments" % k, lambda k=k: fmt_state(sim, k, (R,) * k)) for k in (1, 4)]
    return r


@defop(110, "FLOT", flot_parts, "format")
def _(m):
    x = pop_num(m)
    k = cval(sub(m.count, m.stack_base))
    if k == 1:
        e = const(2, 32)
    elif k == 2:
        e = pop_int(m)
    else:
        m.throw()
    n = pop_int(m)
    m.event("floating", n, e, x)


def fixt(sign):
    def f(m):
        x = pop_num(m)
        e = pop_int(m)
        n = pop_int(m)
        m.event("fixed", n, e, x, const(sign, 1))
    return f


defop(111, "FIXT", prod(NUM, NUM, NUM), "format")(fixt(1))
defop(112, "ABSFIXT", prod(NUM, NUM, NUM), "format")(fixt(0))
