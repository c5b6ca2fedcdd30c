"""Reference semantics of the operations on procedures, parameters and arrays."""
from ops import *
from ops import op as defop
from sim import take_formal as sim_take_formal

(PUSH_VALUE, PUSH_ADDRESS, PUSH_STRING, REMOVE_ARG, F_ADD, F_SUB, F_MUL, F_DIV,
 PUSH_DEREF, ADD_DEREF, SUB_DEREF, MUL_DEREF, DIV_DEREF) = range(13)
FOP = {F_ADD: "add", F_SUB: "sub", F_MUL: "mul", F_DIV: "div",
       ADD_DEREF: "add", SUB_DEREF: "sub", MUL_DEREF: "mul", DIV_DEREF: "div"}
FNAME = ("PUSH_VALUE", "PUSH_ADDRESS", "PUSH_STRING", "REMOVE_ARG", "ADD", "SUBTRACT", "MULTIPLY", "DIVIDE",
         "PUSH_DEREF", "ADD_DEREF", "SUBTRACT_DEREF", "MULTIPLY_DEREF", "DIVIDE_DEREF")


# ------------------------------------------------------------- shared pieces
def apply_top(m, op):
    """what a returning procedure or thunk does with the item on top"""
    if op in (PUSH_VALUE, PUSH_ADDRESS, PUSH_STRING, REMOVE_ARG):
        return
    if op == PUSH_DEREF:
        x = m.load_value(m.top())
        m.settop(x.t, x.v)
        return
    x = m.pop()
    if op > PUSH_DEREF:
        x = m.load_value(x)
    a = m.pop()
    t, v = m.arith(FOP[op], a, x)
    m.push(t, v)


def arg_descr(m, d):
    """descriptor of the actual parameter for the formal at dynamic address d"""
    F = m.st.facts
    n = lshr(addc(lshr(d, const(5, 32), F), -5), const(1, 32), F)
    fp = m.display(m.and_(d, 31))
    ret = m.addr(m.cell(m.at(addc(fp, 1))))
    return m.mload(addc(sub(ret, n), -3))


def kind(m, descr):
    return m.and_(lshr(descr, const(15, 32), m.st.facts), 0o77)


def formal_proc(m, d):
    descr = arg_descr(m, d)
    if not m.eq(kind(m, descr), const(0o40, 32)):
        m.throw()
    return m.and_(descr, 0o77777)


def take_formal(m, d, op):
    sim_take_formal(m.it, m.st, d, const(op, 32) if isinstance(op, int) else op)


# ----------------------------------------------------- formal procedure calls
@defop(10, "FTMR", [()], "call")
def _(m):
    a = formal_proc(m, m.S)
    m.push(I, const(0, 32))
    m.frame(m.OT, m.A)
    m.set("OT", a)


@defop(11, "FTMP", [()], "call")
def _(m):
    a = formal_proc(m, m.S)
    m.mstore(const(51, 32), addc(m.OT, -8))
    m.push(NU, const(0, 32))
    m.frame(m.OT, m.A)
    m.set("OT", a)


def formal(num, name, opn, grp="formal"):
    @defop(num, name, [()], grp)
    def _(m):
        take_formal(m, m.S, opn)


formal(18, "TFA", PUSH_ADDRESS)
formal(35, "TFR", PUSH_VALUE)
formal(40, "ADF", F_ADD)
formal(45, "SUF", F_SUB)
formal(50, "MUF", F_MUL)
formal(55, "DIF", F_DIV)


def set_block_level(m, lvl):
    if m.eq(lvl, const(0, 32)):
        m.throw()
    bn = m.at(addc(m.frame_ptr, 3))
    ds = m.at(addc(m.frame_ptr, 4))
    c = m.cell(bn)
    if m.eq(c.v, const(0, 64)):
        m.put(bn, c.t, lvl)
    if m.test(icmp("ugt", lvl, const(1, 32), m.st.facts)):
        d = m.cell(ds)
        m.put(ds, d.t, m.display(addc(lvl, -1)))


@defop(98, "TFP", [()], "formal")
def _(m):
    lvl = m.block_level()
    if m.eq(lvl, const(0, 32)):
        pfp = m.addr(m.cell(m.at(m.frame_ptr)))
        lvl = addc(m.gint(m.cell(m.at(addc(pfp, 3)))), 1)
        set_block_level(m, lvl)
        m.update_display(lvl, m.frame_ptr)
    m.eis_set(m.stack_base, REMOVE_ARG)
    take_formal(m, add(const(5 << 5, 32), lvl), PUSH_VALUE)


# ------------------------------------------------------------------- returns
def leave(m):
    """RET: pending operation, release of the frame, treatment of the result"""
    post = m.eis_at(m.stack_base)
    m.set("OT", m.release())
    if m.typ(m.top()) == NU:
        m.pop()
        return
    apply_top(m, cval(post))


def fp_state(sim, below, eis, sbv=None):
    """state inside a procedure frame whose cells below the frame pointer have
    the given types and whose pending operation is known"""
    st = sim.init_state(())
    fp = sim.get(sim.interp(), st, "frame_ptr")
    st.facts[fp] = norm((8, 1 << 17, 8, 1 << 17), 32)
    n = zext(fp, 64, st.facts)
    for i, t in enumerate(below):
        if t is not None:
            st.tags["types"][addc(n, -1 - i)] = t
    if eis is not None:
        st.tags["eis"] = {sim.get(sim.interp(), st, "stack_base"): eis}
    return st


def operand_types(op):
    """types of (top, next) an operation is defined for"""
    if op in (PUSH_VALUE, PUSH_ADDRESS, PUSH_STRING, REMOVE_ARG):
        return [(None,)]
    if op == PUSH_DEREF:
        return [(a,) for a in ADR]
    return [(a, b) for a in (ADR if op >= PUSH_DEREF else NUM) for b in NUM]


def ret_parts(sim):
    r = []
    for op in range(13):
        for t in operand_types(op):
            tt = (I,) if t == (None,) else t
            r.append(Part("pending %s %s" % (FNAME[op], partname(tt)), lambda op=op, tt=tt: fp_state(sim, tt, op)))
    r.append(Part("no result", lambda: fp_state(sim, (NU,), PUSH_VALUE)))
    return r


defop(12, "RET", ret_parts, "call")(leave)


def for8_parts(sim):
    # the frame of a for statement has no result
    return [Part("loop frame", lambda: fp_state(sim, (), PUSH_VALUE))]


@defop(27, "FOR8", for8_parts, "for")
def _(m):
    m.pop()
    m.put(m.at(addc(m.frame_ptr, -1)), NU, const(0, 64))
    m.put(m.at(addc(m.frame_ptr, 1)), IA, m.S)
    leave(m)


def eis_parts(sim):
    r = []
    for op in range(13):
        for t in operand_types(op):
            tt = (I,) if t == (None,) else t
            r.append(Part("pending %s %s" % (FNAME[op], partname(tt)), lambda op=op, tt=tt: eis_state(sim, op, tt)))
    return r


def eis_state(sim, op, tt):
    st = sim.init_state((), frame=None, lo=16)
    sb = sym("sb", 32, 16, 1 << 17)
    sim.set(None, st, "stack_base", sb)
    n = zext(sb, 64, st.facts)
    e = sym("e", 64, 1, 1 << 17)
    size = add(n, e)
    st.vecs[sim.stackkey] = Vec(("stack",), size, ())
    st.tags["eis"] = {sb: op}
    st.tags["types"][addc(size, -1)] = tt[0]
    down = 7 if op == REMOVE_ARG else 5
    if len(tt) > 1:
        # the left operand is below the place of the result of the thunk
        st.tags["types"][addc(n, -down - 2)] = tt[1]
    return st


@defop(13, "EIS", eis_parts, "call")
def _(m):
    item = m.pop()
    op = cval(m.eis_at(m.stack_base))
    if op == REMOVE_ARG:
        m.set("stack_base", addc(m.stack_base, -2))
    m.set("frame_ptr", addc(m.stack_base, -5))
    m.set("OT", m.release())
    m.nonempty()
    m.settop(item.t, item.v)
    apply_top(m, op)


# ----------------------------------------------------------- blocks and goto
def scc(m):
    if m.test(icmp("ugt", m.B, const(31, 32), m.st.facts)):
        m.throw()
    if not m.eq(m.block_level(), const(0, 32)):
        m.set("frame_ptr", addc(m.stack_base, -5))
    set_block_level(m, m.B)
    m.update_display(m.B, m.frame_ptr)


defop(89, "SCC", [()], "block")(scc)


@defop(19, "FOR0", [()], "for")
def _(m):
    pfp = m.addr(m.cell(m.at(m.frame_ptr)))
    m.set("B", addc(m.gint(m.cell(m.at(addc(pfp, 3)))), 1))
    m.push(I, const(0, 32))
    m.grow(const(1, 32))
    scc(m)


@defop(28, "GTA", [()], "goto")
def _(m):
    m.set("frame_ptr", m.last_frame_ptr)
    m.event("rollback", m.display(m.B))


# --------------------------------------------------------------------- arrays
def feo(m, loc, base):
    """signed distance of the first element from the zero element"""
    F = m.st.facts
    w = 26 if m.test(icmp("slt", loc, const(STACK_BASE, 32), F)) else 27
    off = m.and_(sub(loc, base), (1 << w) - 1)
    if m.test(icmp("slt", off, const(1 << (w - 1), 32), F)):
        return off
    return addc(off, -(1 << w))


def ind_parts(sim):
    r = []
    for nd in (1, 2, 3):
        for adr in ADR:
            idx = [()]
            for _ in range(nd):
                idx = [x + (t,) for x in idx for t in ((I, R) if nd < 3 else (I,))]
            for x in idx:
                t = x + (adr,)
                r.append(Part("%d-dim %s" % (nd, partname(t)), lambda t=t: sim.init_state(t), t))
    return r


@defop(56, "IND", ind_parts, "array")
def _(m):
    F = m.st.facts
    idx = []
    while True:
        c = m.pop()
        if m.typ(c) in ADR:
            break
        idx.append(c)
    if not idx:
        m.throw()
    idx.reverse()
    nd = len(idx)
    a = m.addr(c)
    loc = x2i(m.load_word(a))
    base = sub(loc, feo(m, loc, m.load_word(addc(a, 1))))
    limit = x2i(m.load_word(addc(a, 2 + nd)))
    if m.test(icmp("sge", limit, const(0, 32), F)):
        m.throw()
    if m.test(icmp("sgt", sub(const(0, 32), limit), const(0xfffff, 32), F)):
        m.throw()
    e = sext(base, 64, F)
    for i, x in enumerate(idx):
        size = x2i(m.load_word(addc(a, 2 + i)))
        if m.typ(x) == I:
            k = m.int_(x)
        else:
            k = m.rounded(m.real(x))
        e = add(e, mul(sext(k, 64, F), sext(size, 64, F)))
    l64 = sext(loc, 64, F)
    if m.test(icmp("slt", e, l64, F)):
        m.throw()
    if m.test(icmp("sge", add(e, sext(limit, 64, F)), l64, F)):
        m.throw()
    m.push(m.typ(c), trunc(e, 32, F))


@defop(64, "TTP", prod(NUM, NUM), "power")
def _(m):
    b = m.pop()
    m.nonempty()
    a = m.pop()
    F = m.st.facts
    if m.typ(b) == I:
        i = m.int_(b)
        z = const(0, 32)
        if m.test(icmp("sgt", i, z, F)):
            if m.typ(a) == I:
                if not m.test(mk("ipowfit", (m.int_(a), i), 1)):
                    m.throw()
                m.push(I, m.i2x(mk("ipow", (m.int_(a), i), 32)))
            else:
                m.push(R, m.r2x(mk("rpow", (m.real(a), i), "fp")))
            return
        x = m.num(a)
        if m.test(fcmp("oeq", x, fconst(0), F)):
            m.throw()
        if m.eq(i, z):
            if m.typ(a) == I:
                m.push(I, const(1, 32))
            else:
                m.push(R, m.r2x(fconst(1)))
        else:
            m.push(R, m.r2x(mk("rpow", (fop("fdiv", fconst(1), x), sub(z, i)), "fp")))
        return
    r = m.real(b)
    x = m.num(a)
    if m.test(fcmp("ogt", x, fconst(0), F)):
        m.push(R, m.r2x(mk("exp", (fop("fmul", r, mk("log", (x,), "fp")),), "fp")))
    elif m.test(fcmp("oeq", x, fconst(0), F)):
        if m.test(fcmp("ole", r, fconst(0), F)):
            m.throw()
        m.push(R, const(0, 64))
    else:
        m.throw()
