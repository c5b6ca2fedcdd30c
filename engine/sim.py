"""Simulator-specific set-up of the dataflow engine."""
import re
from terms import *
import terms as TT
from ir import load_sim, AnalysisError, Ty
from absint import Out, State, Agg
from models import SimInterp, Vec, gepc, iscell
import loops

I32, I64, I8 = Ty("int", 32), Ty("int", 64), Ty("int", 8)
NUL, IADDR, RADDR, IVAL, RVAL = range(5)
M27 = (1 << 27) - 1
M26 = (1 << 26) - 1
M54 = (1 << 54) - 1
TRUE, FALSE = 0, 1

# --- ranges of the conversion primitives (established by their own check)
RANGES["x2i"] = lambda t, f: (-M26, M26)
RANGES["i2x"] = lambda t, f: (0, M27)
RANGES["r2x"] = lambda t, f: (0, M54)
RANGES["w2r"] = lambda t, f: (0, M54)
RANGES["mload"] = lambda t, f: (0, M27)
RANGES["signbit"] = lambda t, f: (-1, 0)


def _scaled(t, f):
    """an integer taken from a mantissa (below 1) scaled by a power of two"""
    x = t.a[0]
    if x.op == "ldexp" and x.a[0].op in ("fmant",) and is_c(x.a[1]) and 0 <= cval(x.a[1]) < t.w - 1:
        k = 1 << cval(x.a[1])
        return (0 if t.op == "fptoui" else -k, k)
    return -(1 << t.w - 1), (1 << t.w - 1) - 1


RANGES["fptoui"] = RANGES["fptosi"] = _scaled
RANGES["fexp"] = lambda t, f: (-16445, 16384)


def struct_fields(prog, name):
    """field name -> (offset, size in bytes) from the debug information"""
    for m in prog.mods:
        meta = m.meta
        for k, v in meta.items():
            if v.find("DICompositeType(") >= 0 and 'name: "%s"' % name in v and "elements:" in v:
                el = re.search(r"elements: (!\d+)", v).group(1)
                r = {}
                for ref in re.findall(r"!\d+", meta[el]):
                    d = meta[ref]
                    if "DW_TAG_member" in d and "flags: DIFlagStaticMember" not in d and "DIFlagStaticMember" not in d:
                        nm = re.search(r'name: "(\w+)"', d)
                        sz = re.search(r"size: (\d+)", d)
                        of = re.search(r"offset: (\d+)", d)
                        if nm:
                            r[nm.group(1)] = (int(of.group(1)) // 8 if of else 0, int(sz.group(1)) // 8 if sz else 0)
                if r:
                    return r
    raise AnalysisError("anchor vanished: no layout for " + name)


class Sim:
    def __init__(self, prog=None):
        self.prog = prog or load_sim()
        self.mf = struct_fields(self.prog, "Machine")
        self.pf = struct_fields(self.prog, "Processor")
        self.cf = struct_fields(self.prog, "CoreState")
        self.cpu = self.mf["cpu"][0]
        self.stackkey = ("M", self.cpu + self.pf["stack"][0])   # storage is the only member
        self.eiskey = ("map", "M", self.cpu + self.pf["eis_operation"][0])
        core = self.pf["core"][0]
        self.reg = {}
        for r in self.cf:
            self.reg[r] = (self.cpu + core + self.cf[r][0], self.cf[r][1])
        for r in ("OT", "OR", "frame_ptr", "last_frame_ptr", "stack_base"):
            self.reg[r] = (self.cpu + self.pf[r][0], self.pf[r][1])
        self.names = {}
        for f, (o, s) in self.mf.items():
            self.names[o] = f
        for f, (o, s) in self.pf.items():
            self.names[self.cpu + o] = "cpu." + f
        for r, (o, s) in self.reg.items():
            self.names[o] = r
        self.display = (self.cpu + self.pf["display"][0], self.pf["display"][1])
        self.memory = self.mf["memory"]
        self.N = sym("n", 64, 0, 1 << 20)

    ROUTINES = """x1_to_integer integer_to_x1 ieee_to_x1 x1_to_ieee x1_words_to_real Stack_Cell::to_string Processor::update_display Processor::take_formal
Processor::roll_back power Machine::input_real Machine::read_console_switches Machine::print_floating_point Machine::print_fixed_point algol_putc
x1_print_integer x1_print_real Machine::mem_load Machine::mem_store Machine::mem_fetch Processor::call_opc Processor::step Processor::apply_operation""".split()

    def vanished(self):
        """modelled routines that have other names in this text"""
        there = {f.short for f in self.prog.fns.values() if f.blocks}
        return [n for n in self.ROUTINES if n not in there]

    # ---------------------------------------------------------- interpreter
    def interp(self, mem_opaque=True, **kw):
        it = SimInterp(self.prog, **kw)
        it.fieldname = lambda obj, off, size: self.names.get(off, str(off)) if obj == "M" else str(off)
        it.init_load = self.init_load
        it.region = self.region
        it.cell_hook = self.cell_hook
        it.sim = self
        it.fork_select = True
        it.models.update({
            "x1_to_integer": p_x2i, "integer_to_x1": p_i2x, "ieee_to_x1": p_r2x, "x1_to_ieee": p_x2r,
            "x1_words_to_real": p_w2r,
            "Stack_Cell::to_string": p_tostring, "to_octal": p_tostring, "std::to_string": p_tostring,
        })
        it.models["Processor::update_display"] = p_update_display
        it.models["Processor::take_formal"] = p_take_formal
        it.models["Processor::roll_back"] = p_roll_back
        it.models["power"] = p_power
        it.models["Machine::input_real"] = p_input
        it.models["Machine::read_console_switches"] = p_switches
        it.models["Machine::print_floating_point"] = p_print("floating")
        it.models["Machine::print_fixed_point"] = p_print("fixed")
        it.models["algol_putc"] = p_putc
        it.models["x1_print_integer"] = p_show("integer")
        it.models["x1_print_real"] = p_show("real")
        if mem_opaque:
            it.models.update({"Machine::mem_load": p_mload, "Machine::mem_store": p_mstore, "Machine::mem_fetch": p_mfetch})
        return it

    def region(self, obj, off, st):
        """array field of the machine that contains byte offset `off`"""
        if obj != "M":
            return None
        regs = (("display",) + self.display, ("memory",) + self.memory)
        if isinstance(off, int):
            for nm, o, s in regs:
                if o <= off < o + s:
                    return nm, o, s
            return None
        r = rng(off, st.facts)
        for nm, o, s in regs:
            if r[0] >= o and r[1] < o + s:
                return nm, o, s
        d = None
        if off.op == "lin":
            d = lin_parts(off)[0]
            d -= (1 << 64) if d >> 63 else 0
        for nm, o, s in regs:
            if d is not None and o - 256 <= d < o + s:
                return nm, o, s
        return None

    def init_load(self, it, st, obj, off, size, ty):
        if obj == "M" and isinstance(off, int):
            if ty.k == "ptr" and off == self.cpu + self.pf["machine"][0]:
                return ptr("M", 0)
            if off == self.reg["C"][0]:
                return sym("C", 8, 0, 1)
            if off in self.names and ty.k == "int":
                return sym(self.names[off], ty.a)
        if isinstance(obj, str) and obj.startswith("@") and "debug_flag" in obj:
            return const(0, ty.a)
        return None

    # ------------------------------------------------------------- states
    def init_state(self, top=(), frame=True, lo=0):
        """initial abstract state.  frame=True: inside a procedure frame
        (fp+5 <= stack_base <= n); False: at global level; None: unconstrained.
        top: types of the topmost cells, topmost first (None = unknown)."""
        st = State()
        k = max(len(top), lo)
        st.tags["types"] = {}
        if frame is None:
            n = self.N
            st.facts[n] = norm((k, 1 << 20, k, 1 << 20), 64)
        else:
            e = sym("e", 64, k, 1 << 17)
            if frame:
                fp = sym("fp", 32, 1, 1 << 17)
                na = sym("na", 32, 0, 1 << 10)
                sb = add(addc(fp, 5), na)
                n = add(zext(sb, 64), e)
            else:
                fp, sb, n = const(0, 32), const(0, 32), e
            self.set(None, st, "frame_ptr", fp)
            self.set(None, st, "stack_base", sb)
        st.vecs[self.stackkey] = Vec(("stack",), n, ())
        st.tags[("cells", self.stackkey)] = True
        st.tags[("layout", self.stackkey)] = SimInterp.CELL
        st.tags["types"] = {addc(n, -1 - i): t for i, t in enumerate(top) if t is not None}
        st.tags["n0"] = n
        return st

    def n0(self, st):
        return st.vecs[self.stackkey].size

    def cell_hook(self, it, st, key, idx, off, size, ty, v):
        if key == self.stackkey and off == 0 and size == 4:
            t = st.tags["types"].get(idx)
            if t is not None:
                return const(t, 32)
        if key == self.eiskey:
            t = st.tags.get("eis", {}).get(idx)
            if t is not None:
                return const(t, 32)
        return None

    def get(self, it, st, r):
        o, s = self.reg[r]
        return it.load(st, ptr("M", o), s, Ty("int", 8 * s))

    def set(self, it, st, r, v):
        o, s = self.reg[r]
        if v.w < 8 * s:
            v = zext(v, 8 * s, st.facts)
        if it is None:
            st.mem.setdefault("M", {})[o] = (s, v)
        else:
            it.store(st, ptr("M", o), s, v)


def _r(v, st):
    return [Out("ret", v, st)]


def p_x2i(it, I, args, st, fn):
    w = args[0]
    if is_c(w) and cval(w) <= M27:
        v = cval(w)
        return _r(const(-(v ^ M27) if v >> 26 else v, 32), st)
    it.oblige("word-arg", I, rng(w, st.facts)[1] <= M27, "conversion of a value wider than 27 bits: %s" % w, st)
    return _r(x2i(w), st)


def x2i(w):
    if w.op == "i2x":
        return w.a[0]
    if is_c(w) and cval(w) <= M27:
        v = cval(w)
        return const(-(v ^ M27) if v >> 26 else v, 32)
    if rng(w)[1] <= M26:
        return w
    return mk("x2i", (w,), 32)


def i2x(x):
    if is_c(x) and abs(sval(x)) <= M26:
        v = sval(x)
        return const(v if v >= 0 else (-v) ^ M27, 32)
    return mk("i2x", (x,), 32)


def p_i2x(it, I, args, st, fn):
    x = args[0]
    r = rng(x, st.facts)
    if is_c(x) and abs(sval(x)) <= M26:
        return _r(i2x(x), st)
    outs = []
    if r[2] < -M26 or r[3] > M26:
        s2 = st.copy()
        s2.preds[mk("int27", (x,), 1)] = False
        if st.preds.get(mk("int27", (x,), 1)) is not True:
            outs.append(Out("throw", ("exc", "overflow", "integer overflow"), s2, I.loc if I else None))
        if st.preds.get(mk("int27", (x,), 1)) is False:
            return outs
        st.preds[mk("int27", (x,), 1)] = True
        m = meet(r, from_s(-M26, M26, 32))
        if m is None:
            return outs
        it.setfact(st, x, m)
    outs.append(Out("ret", i2x(x), st))
    return outs


def small_real(x, st):
    """value certainly within the range of the real format"""
    if x.op in ("fc", "sitofp", "uitofp", "sin", "cos", "atan", "x2r"):
        return True
    return False


def p_r2x(it, I, args, st, fn):
    x = args[0]
    if x.op == "x2r" and False:
        return _r(x.a[0], st)
    it.oblige("finite-real", I, real_finite(x, st), "conversion of a possibly infinite value %s" % x, st)
    outs = []
    p = mk("realfit", (x,), 1)
    if not small_real(x, st):
        if st.preds.get(p) is not True:
            s2 = st.copy()
            s2.preds[p] = False
            outs.append(Out("throw", ("exc", "overflow", "real overflow"), s2, I.loc if I else None))
        if st.preds.get(p) is False:
            return outs
        st.preds[p] = True
    outs.append(Out("ret", mk("r2x", (x,), 64), st))
    return outs


def real_finite(x, st):
    return True


def p_x2r(it, I, args, st, fn):
    it.oblige("real-arg", I, rng(args[0], st.facts)[1] <= M54, "conversion of a value wider than 54 bits: %s" % args[0], st)
    return _r(mk("x2r", (args[0],), "fp"), st)


def p_w2r(it, I, args, st, fn):
    h, l = args[0], args[1]
    it.oblige("word-arg", I, rng(h, st.facts)[1] <= M27 and rng(l, st.facts)[1] <= M27, "words wider than 27 bits", st)
    return _r(mk("w2r", (h, l), 64), st)


def p_un(op, w):
    def f(it, I, args, st, fn):
        x = args[0]
        it.oblige("word-arg", I, rng(x, st.facts)[1] <= (M27 if w == 32 else M54), "%s of a value wider than a word: %s" % (op, x), st)
        return _r(mk(op, (x,), w), st)
    return f


def p_power(it, I, args, st, fn):
    """x^n by repeated multiplication (verified by its own rule)"""
    x, n = args[0], args[1]
    if x.w == "fp":
        return _r(mk("rpow", (x, n), "fp"), st)
    p = mk("ipowfit", (x, n), 1)
    outs = []
    if st.preds.get(p) is not True:
        s2 = st.copy()
        s2.preds[p] = False
        outs.append(Out("throw", ("exc", "overflow", "integer overflow"), s2, I.loc))
    if st.preds.get(p) is False:
        return outs
    st.preds[p] = True
    return outs + [Out("ret", mk("ipow", (x, n), 32), st)]


RANGES["ipow"] = lambda t, f: (-M26, M26)


def p_take_formal(it, I, args, st, fn):
    """parameter access (verified by its own rule)"""
    take_formal(it, st, args[1], args[2])
    return _r(None, st)


FORMAL_ADDR = sym("formal_addr", 32, 0, M27)


def take_formal(it, st, d, op):
    st.events += (("formal", d, op),)
    t = st.tags.get("formal_cell")
    if t is not None:
        k = it.sim.stackkey
        v = st.vecs[k]
        st.vecs[k] = Vec(v.base, addc(v.size, 1), v.log)
        it.cwrite(st, k, v.size, 0, 4, const(t, 32))
        it.cwrite(st, k, v.size, 8, 8, zext(FORMAL_ADDR, 64))


def p_roll_back(it, I, args, st, fn):
    """removal of frames by a goto (verified by its own rule)"""
    st.events += (("rollback", args[1]),)
    s2 = st.copy()
    return [Out("ret", None, st), Out("throw", ("exc", "display", "roll_back"), s2, I.loc)]


def p_input(it, I, args, st, fn):
    st.events += (("input_real",),)
    s2 = st.copy()
    return [Out("ret", sym("input", "fp"), st), Out("throw", ("exc", "display", "input"), s2, I.loc)]


def p_switches(it, I, args, st, fn):
    st.events += (("switches", args[2]),)
    s2 = st.copy()
    return [Out("ret", sym("switches", 32, 0, M27), st), Out("throw", ("exc", "display", "switches"), s2, I.loc)]


def p_print(kind):
    def f(it, I, args, st, fn):
        st.events += ((kind,) + tuple(args[1:]),)
        s2 = st.copy()
        return [Out("ret", None, st), Out("throw", ("exc", "display", kind), s2, I.loc)]
    return f


def p_putc(it, I, args, st, fn):
    st.events += (("putc", args[1], args[0]),)
    return _r(None, st)


def p_show(kind):
    def f(it, I, args, st, fn):
        st.events += (("show", kind, args[0], args[1]),)
        return _r(None, st)
    return f


def p_tostring(it, I, args, st, fn):
    if isinstance(args[0], T) and args[0].op == "ptr":
        st.tags[("str", args[0].a)] = "%"
    return _r(None, st)


def p_update_display(it, I, args, st, fn):
    s = it.sim
    lvl, fp = args[1], args[2]
    upd_display(it, st, lvl, fp)
    s2 = st.copy()
    return [Out("ret", None, st), Out("throw", ("exc", "display", "update_display"), s2, I.loc)]


def upd_display(it, st, lvl, fp):
    s = it.sim
    if is_c(lvl) and cval(lvl) == 0:
        return
    key = ("arr", "M", "display")
    v = st.vecs.get(key) or Vec(("init", key), const(0, 64))
    sv = st.vecs[s.stackkey]
    # walks the saved-display links stored in the stack
    links = tuple(e for e in sv.log if e[1] == 8)
    st.vecs[key] = Vec(("unwound", v.base, v.log, lvl, fp, sv.base, links), const(0, 64), ())


def memver(st):
    return st.tags.get("mem", ())


def p_mload(it, I, args, st, fn):
    a = args[1]
    return _r(mload(st, a), st)


def mload(st, a):
    a = trunc_addr(a, st)
    return mk("mload", (memver(st), a), 32)


def trunc_addr(a, st):
    return bit("and", [a, const(0o77777, 32)], st.facts)


def p_mfetch(it, I, args, st, fn):
    it.oblige("memory-index", I, rng(args[1], st.facts)[1] <= 0o77777, "instruction fetch from %s" % args[1], st)
    return _r(mk("mfetch", (memver(st), args[1]), 32), st)


RANGES["mfetch"] = lambda t, f: (0, M27)


def p_mstore(it, I, args, st, fn):
    mstore(st, args[1], args[2])
    return _r(None, st)


def mstore(st, a, v):
    a = trunc_addr(a, st)
    v = bit("and", [v, const(M27, 32)], st.facts)
    st.tags["mem"] = memver(st) + ((a, v),)
    st.events += (("mstore", a, v),)
