"""Library models (containers, streams, strings, exceptions) for the dataflow engine."""
import re
from terms import *
import terms as TT
from ir import AnalysisError, Ty
from absint import Interp, Out, State, Agg


class Vec:
    """abstract std::vector: size term and a log of element writes over a base content"""
    __slots__ = ("base", "size", "log")

    def __init__(self, base, size, log=()):
        self.base, self.size, self.log = base, size, log

    def __eq__(self, o):
        return isinstance(o, Vec) and (self.base, self.size, self.log) == (o.base, o.size, o.log)

    def __hash__(self):
        return hash((self.base, self.size, self.log))

    def __repr__(self):
        return "Vec(%s, size=%s, %s)" % (self.base, self.size,
                                         ", ".join("[%s].%s=%s" % (i, o, v) for i, o, s, v in self.log))


def iscell(obj):
    return isinstance(obj, tuple) and len(obj) == 3 and obj[0] == "cell"


RANGES["sel0"] = lambda t, f: (0, 4)


MATH = {"sqrt", "sin", "cos", "atan", "log", "exp", "floor", "ceil", "round", "trunc", "fabs", "rint", "log10", "pow",
        "fmod", "frexp", "ldexp", "exp10", "log2", "nearbyint", "tan", "asin", "acos", "cbrt", "expm1", "log1p", "exp2"}


def emit_out(st, o, kind, val):
    """output event; adjacent literal texts are merged"""
    if isinstance(val, tuple) and val and val[0] == "text" and val[1] is not None:
        t = val[1]
        if not t:
            return
        if st.events and st.events[-1][0] == "out" and st.events[-1][1] == o and st.events[-1][2] == "text":
            st.events = st.events[:-1] + (("out", o, "text", st.events[-1][3] + t),)
            return
        st.events += (("out", o, "text", t),)
        return
    st.events += (("out", o, kind, val),)


class SimInterp(Interp):
    """Interp with vectors, maps, streams"""

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.default_model = SimInterp.libcall
        self.cell_hook = None      # (interp, st, key, idx, off, w) -> initial value or None
        self.silent_trace = True
        self.unknown_calls = []
        self.unsafe = None         # callback(kind, ins, st, detail)

    # ------------------------------------------------------------ vectors
    def vec(self, st, p):
        if p.op != "ptr":
            raise AnalysisError("container at unknown address: " + self.where())
        key = p.a
        v = st.vecs.get(key)
        if v is None:
            v = Vec(("init", key), sym("size(%s)" % (self.objname(key[0]) + "+" + str(key[1])), 64, 0, (1 << 32) - 1))
            st.vecs[key] = v
        return key, v

    def distinct(self, st, i, j):
        d = sub(i, j)
        if is_c(d):
            return cval(d) != 0
        r = rng(d, st.facts)
        if r[0] > 0 or r[2] > 0 or r[3] < 0:
            return True
        c = self.decide(st, icmp("eq", i, j, st.facts))
        if c is False:
            return True
        return self.decide(st, icmp("ult", i, j, st.facts)) is True or self.decide(st, icmp("ult", j, i, st.facts)) is True

    def cread(self, st, key, idx, off, size, ty):
        v = st.vecs[key]
        log = v.log
        k = len(log)
        while k:
            i, o, s, val = log[k - 1]
            if i is idx:
                if o == off and s == size:
                    return self.coerce(val, ty, st)
                if o <= off and off + size <= o + s and isinstance(val, T) and isinstance(val.w, int) and ty.k == "int":
                    return trunc(lshr(val, const(8 * (off - o), val.w), st.facts), ty.a, st.facts)
                if off + size <= o or o + s <= off:
                    k -= 1
                    continue
                break
            if not self.distinct(st, i, idx):
                # a different field of a possibly different cell never overlaps
                if (off + size <= o or o + s <= off):
                    k -= 1
                    continue
                break
            k -= 1
        if k == 0 and isinstance(v.base, tuple) and v.base and v.base[0] == "fill":
            b = v.base
            if self.decide(st, icmp("ult", idx, b[3], st.facts)) is True:
                st.vecs[key] = Vec(b[1], b[3], b[2])
                try:
                    return self.cread(st, key, idx, off, size, ty)
                finally:
                    st.vecs[key] = v
        if k == 0 and self.cell_hook:
            r = self.cell_hook(self, st, key, idx, off, size, ty, v)
            if r is not None:
                return r
        w = ty.a if ty.k == "int" else "ptr" if ty.k == "ptr" else "fp"
        sig = tuple(e for e in log[:k] if not (off + size <= e[1] or e[1] + e[2] <= off))
        nm = "sel0" if off == 0 and size == 4 and "Stack_Cell" in str(key) or (off == 0 and size == 4 and st.tags.get(("cells", key))) else "sel"
        if ty.k == "ptr":
            return ptr(mk("sel", (v.base, sig, idx, off), "ptr"), 0)
        return mk(nm, (v.base, sig, idx, off), w)

    def cwrite(self, st, key, idx, off, size, val):
        v = st.vecs[key]
        log = list(v.log)
        # drop an overwritten entry when nothing in between may alias it
        for k in range(len(log) - 1, -1, -1):
            i, o, s, x = log[k]
            if i is idx:
                if o == off and s == size:
                    del log[k]
                    break
                continue
            if off + size <= o or o + s <= off:
                continue
            if not self.distinct(st, i, idx):
                break
        st.vecs[key] = Vec(v.base, v.size, tuple(log))
        if isinstance(val, T) and isinstance(val.w, int) and self.cread(st, key, idx, off, size, Ty("int", val.w)) is val:
            return
        e = (idx, off, size, val)
        k = len(log)
        while k:
            i, o, s, x = log[k - 1]
            if (i.id, o) < (idx.id, off):
                break
            if not (i is idx or o != off or self.distinct(st, i, idx)):
                break
            k -= 1
        log.insert(k, e)
        st.vecs[key] = Vec(v.base, v.size, tuple(log))

    def setsize(self, st, key, size):
        v = st.vecs[key]
        log = tuple(e for e in v.log if self.decide(st, icmp("ult", e[0], size, st.facts)) is not False) \
            if size is not v.size else v.log
        b = v.base
        while isinstance(b, tuple) and b and b[0] == "fill" and size is not v.size and \
                self.decide(st, icmp("ule", size, b[3], st.facts)) is True:
            log = tuple(e for e in b[2] if self.decide(st, icmp("ult", e[0], size, st.facts)) is not False) + log
            b = b[1]
        st.vecs[key] = Vec(b, size, log)

    # memory access dispatch
    def load(self, st, p, size, ty, ins=None):
        if p.op == "ptr" and iscell(p.a[0]) and isinstance(p.a[1], int):
            return self.cread(st, p.a[0][1], p.a[0][2], p.a[1], size, ty)
        return super().load(st, p, size, ty, ins)

    def store(self, st, p, size, v):
        if p.op == "ptr" and iscell(p.a[0]) and isinstance(p.a[1], int):
            self.cwrite(st, p.a[0][1], p.a[0][2], p.a[1], size, v)
            return
        super().store(st, p, size, v)

    CELL = [(0, 4, Ty("int", 32)), (8, 8, Ty("int", 64))]

    def elt_layout(self, key, st):
        return st.tags.get(("layout", key)) or self.CELL

    def copy_mem(self, st, dst, src, n):
        dc = dst.op == "ptr" and iscell(dst.a[0])
        sc = src.op == "ptr" and iscell(src.a[0])
        if dc or sc:
            lay = self.elt_layout(dst.a[0][1] if dc else src.a[0][1], st)
            for o, s, ty in lay:
                if o < n:
                    v = self.load(st, gepc(src, o), s, ty)
                    self.store(st, gepc(dst, o), s, v)
            return
        super().copy_mem(st, dst, src, n)

    # ------------------------------------------------------------ throwing
    def throw(self, st, what, loc=None):
        return Out("throw", what, st, loc)

    # ------------------------------------------------------- library calls
    def note(self, kind, I, ok, detail, st):
        self.oblige(kind, I, ok, detail, st)

    def libcall(self, I, sh, args, st, fn):
        dem = self.prog.dem.get(I.x[0].v, I.x[0].v)
        F = st.facts
        R = lambda v=None: [Out("ret", v, st)]
        # --- exceptions
        if sh == "__cxa_allocate_exception":
            o = self.freshobj("exc")
            st.fresh.add(o)
            return R(ptr(o, 0))
        if sh in ("__cxa_free_exception", "__cxa_end_catch", "operator delete", "__cxa_atexit"):
            return R(self.fresh("r", 32) if I.ty.k == "int" else None)
        if sh == "__cxa_begin_catch":
            return R(ptr("exception", 0))
        if sh == "__cxa_throw":
            what = st.tags.get(("what", args[0].a[0]))
            ti = I.ops[1]
            return [Out("throw", ("exc", typeinfo_name(ti), what), st, I.loc)]
        if sh == "__cxa_rethrow":
            return [Out("throw", ("exc", "rethrow", None), st, I.loc)]
        if sh in ("exit", "_exit", "abort", "std::terminate", "quick_exit"):
            return [Out("exit", (sh, args[0] if args else None), st, I.loc)]
        if sh.endswith("_error::runtime_error") or sh.endswith("_error::logic_error") or \
                sh in ("std::invalid_argument::invalid_argument", "std::out_of_range::out_of_range",
                       "std::length_error::length_error", "std::range_error::range_error", "std::overflow_error::overflow_error",
                       "std::domain_error::domain_error"):
            st.tags[("what", args[0].a[0])] = self.strval(st, args[1])
            return R()
        # --- tracing
        # --- vector
        m = re.match(r"(?:.*? )?std::vector<(.*)>::(\w+|operator\[\]|~vector|operator=)\(", dem)
        if sh.startswith("std::vector::"):
            return self.vector_call(I, sh[len("std::vector::"):], args, st, dem)
        if sh.startswith("std::unordered_map::") or sh.startswith("std::map::"):
            r = self.map_call(I, sh.split("::")[-1] if not sh.endswith("[]") else "operator[]", args, st, dem)
            if r is not None:
                return r
        if sh.startswith("std::array::operator[]") or sh == "std::array::at":
            return self.array_index(I, args, st, dem, sh.endswith("::at"))
        if sh.startswith("__gnu_cxx::__normal_iterator::"):
            r = self.iter_call(I, sh.split("::")[-1], args, st)
            if r is not None:
                return r
        if sh == "std::reverse":
            r = self.vreverse(I, args, st)
            if r is not None:
                return r
        if sh == "std::make_pair":
            a = self.load(st, args[0], 4, Ty("int", 32))
            b = self.load(st, args[1], 4, Ty("int", 32))
            if I.ty.k == "int" and I.ty.a == 64:
                return R(bit("or", [zext(a, 64, F), shl(zext(b, 64, F), const(32, 64), F)], F))
            return R(Agg([a, b]))
        # --- maths
        b = sh[5:] if sh.startswith("std::") else sh
        if b in MATH or (b[-1:] in "lf" and b[:-1] in MATH):
            return self.math(I, b if b in MATH else b[:-1], args, st)
        if sh in ("std::signbit",):
            return R(mk("signbit", (args[0],), 1))
        if sh in ("lroundl", "llroundl", "lrintl"):
            return R(self.fptoi(I, "fptosi", mk("round", (args[0],), "fp"), st))
        # --- streams
        if "operator{shl}" in sh or sh.endswith("operator<<") or "operator<<" in sh:
            return self.stream_out(I, args, st, dem)
        r = self.string_call(I, sh, args, st, dem)
        if r is not None:
            return r
        # --- header templates: analyse their bodies
        if fn is not None and fn.text_size() < 400 and not fn.short.startswith("std::basic_"):
            return self.run(fn, args, st)
        return self.unknown_call(I, sh, args, st)

    def unknown_call(self, I, sh, args, st):
        self.unknown_calls.append((sh, self.where()))
        st.events += (("call", sh, tuple(a for a in args)),)
        for a in args:
            if isinstance(a, T) and a.op == "ptr" and a.a[0] in st.fresh:
                self.havoc_obj(st, a.a[0])
        return [Out("ret", self.opaque_ret(I, sh, args, st), st)]

    # --- strings are summarised by their text value when constant
    def strval(self, st, p):
        if not isinstance(p, T) or p.op != "ptr":
            return None
        o = p.a[0]
        v = st.tags.get(("str", p.a))
        if v is not None:
            return v
        if isinstance(o, str) and o.startswith("@") and isinstance(p.a[1], int):
            try:
                return self.prog.cstring(None, o[1:], p.a[1])
            except Exception:
                return None
        return None

    def string_call(self, I, sh, args, st, dem):
        R = lambda v=None: [Out("ret", v, st)]
        if sh.startswith("std::basic_string::") or sh.startswith("std::__cxx11::basic_string::") or \
                sh in ("std::to_string", "std::__cxx11::to_string") or "basic_string" in sh or "operator+" in sh or \
                sh.startswith("std::allocator") or sh.startswith("std::__new_allocator") or "ostringstream" in sh:
            tail = sh.split("::")[-1]
            if tail in ("~basic_string", "allocator", "~allocator", "~__new_allocator", "~basic_ostringstream", "__new_allocator"):
                return R()
            if tail == "basic_string":
                if len(args) >= 2:
                    st.tags[("str", args[0].a)] = self.strval(st, args[1])
                else:
                    st.tags[("str", args[0].a)] = ""
                return R()
            if "operator+" in sh or tail == "to_string" or (tail == "str" and "ostringstream" in sh):
                if I.x[0] is not None and args and isinstance(args[0], T) and args[0].op == "ptr":
                    parts = []
                    for a in args[1:]:
                        s = self.strval(st, a) if isinstance(a, T) and a.op == "ptr" else None
                        parts.append(s if isinstance(s, str) else "%")
                    st.tags[("str", args[0].a)] = "".join(parts)
                return R(self.opaque_ret(I, sh, args, st))
            if tail == "basic_ostringstream":
                return R()
            if tail in ("c_str", "data"):
                o = ("chars", args[0].a)
                st.tags[("str", (o, 0))] = self.strval(st, args[0])
                return R(ptr(o, 0))
            if tail in ("size", "length"):
                return R(sym("strlen(%s)" % (show(args[0]),), 64, 0, 1 << 40))
            if tail == "empty":
                return R(mk("strempty", (args[0], st.ver.get(args[0].a[0], 0)), 1))
            if tail.startswith("operator=") and tail != "operator==":
                st.tags[("str", args[0].a)] = self.strval(st, args[1])
                st.ver[args[0].a[0]] = st.ver.get(args[0].a[0], 0) + 1
                return R(args[0])
        return None

    def is_trace_stream(self, p):
        return False

    def stream_out(self, I, args, st, dem):
        # operand rendered by the kind of overload and the value
        m = re.search(r"operator<<\s*(?:<[^(]*>)?\((.*)\)", dem)
        kind = (m.group(1) if m else dem)
        tgt = args[0]
        o = tgt.a if tgt.op == "ptr" else tgt
        val = args[1] if len(args) > 1 else None
        if isinstance(val, T) and val.op == "ptr":
            s = self.strval(st, val)
            val = ("text", s) if s is not None else val
        elif isinstance(val, T) and isinstance(val.w, int) and is_c(val) and kind.endswith("char"):
            val = ("text", chr(cval(val) & 255))
        if isinstance(val, T) and val.op == "ptr" and str(val.a[0]).startswith("@_ZSt") or isinstance(val, T) and val.op == "fn":
            nm = str(val.a[0])
            if "4endl" in nm:
                val = ("text", "\n")
            elif "5flush" in nm:
                return [Out("ret", tgt, st)]
            else:
                val = ("manip", val)
        if isinstance(o, tuple) and isinstance(o[0], str) and o[0] in st.fresh:
            # local string stream: builds a message only
            return [Out("ret", tgt, st)]
        emit_out(st, o, kind_of(kind), val)
        return [Out("ret", tgt, st)]

    # --- maths
    def math(self, I, sh, args, st):
        R = lambda v=None: [Out("ret", v, st)]
        if sh == "frexp":
            e = mk("fexp", (args[0],), 32)
            self.do_store_raw(st, args[1], 4, e)
            return R(mk("fmant", (args[0],), "fp"))
        a = tuple(args)
        return R(mk(sh, a, "fp"))

    def do_store_raw(self, st, p, size, v):
        self.store(st, p, size, v)

    # --- vector operations
    def vector_call(self, I, tail, args, st, dem):
        F = st.facts
        R = lambda v=None: [Out("ret", v, st)]
        if tail == "~vector":
            return R()
        if tail in ("vector",):
            key = args[0].a
            if len(args) == 1:
                st.vecs[key] = Vec(("empty",), const(0, 64))
                self.vlayout(st, key, dem)
                return R()
            return self.unknown_call(I, "std::vector::vector", args, st)
        p = args[0]
        key, v = self.vec(st, p)
        self.vlayout(st, key, dem)
        n = v.size
        if tail in ("size",):
            return R(n)
        if tail == "empty":
            return R(icmp("eq", n, const(0, 64), F))
        if tail in ("capacity", "max_size"):
            return R(self.fresh(tail, 64))
        if tail in ("reserve", "shrink_to_fit"):
            return R()
        if tail in ("back", "front"):
            self.note("stack-empty", I, self.decide(st, icmp("ne", n, const(0, 64), F)) is True,
                      "%s() of a possibly empty vector" % tail, st)
            self.assume(st, icmp("ne", n, const(0, 64), F), True)
            return R(ptr(("cell", key, addc(n, -1) if tail == "back" else const(0, 64)), 0))
        if tail == "pop_back":
            self.note("stack-empty", I, self.decide(st, icmp("ne", n, const(0, 64), F)) is True,
                      "pop_back() of a possibly empty vector", st)
            self.assume(st, icmp("ne", n, const(0, 64), F), True)
            self.setsize(st, key, addc(n, -1))
            return R()
        if tail in ("operator[]", "at"):
            idx = args[1]
            ok = self.decide(st, icmp("ult", idx, n, F))
            if tail == "at":
                outs = []
                if ok is not True:
                    s2 = st.copy()
                    if self.assume(s2, icmp("ult", idx, n, F), False):
                        outs.append(Out("throw", ("exc", "out_of_range", "vector::at"), s2, I.loc))
                if ok is not False and self.assume(st, icmp("ult", idx, n, F), True):
                    outs.append(Out("ret", ptr(("cell", key, idx), 0), st))
                return outs
            self.note("vector-index", I, ok is True, "index %s, size %s" % (idx, n), st)
            return R(ptr(("cell", key, idx), 0))
        if tail in ("push_back", "emplace_back"):
            self.note("stack-limit", I, rng(n, F)[1] < (1 << 20), "vector may grow beyond its limit: size %s in %s" % (n, rng(n, F)[:2]), st)
            st.vecs[key] = Vec(v.base, addc(n, 1), v.log)
            lay = self.elt_layout(key, st)
            dst = ptr(("cell", key, n), 0)
            if len(args) >= 2 and args[1].op == "ptr":
                for o, s, ty in lay:
                    self.store(st, gepc(dst, o), s, self.load(st, gepc(args[1], o), s, ty))
            elif len(args) == 1:
                for o, s, ty in lay:
                    self.store(st, gepc(dst, o), s, const(0, ty.a))
            return R(dst if I.ty.k == "ptr" else None)
        if tail == "clear":
            self.setsize(st, key, const(0, 64))
            return R()
        if tail == "resize":
            new = args[1]
            g = self.decide(st, icmp("ule", new, n, F))
            if g is True:
                self.setsize(st, key, new)
                return R()
            return self.unknown_call(I, "std::vector::resize", args, st)
        if tail in ("begin", "cbegin"):
            return R(mk("iter", (key, const(0, 64)), "ptr"))
        if tail in ("end", "cend"):
            return R(mk("iter", (key, n), "ptr"))
        if tail == "erase":
            a, b = (self.iterval(st, x) for x in (args[1], args[2])) if len(args) == 3 else (None, None)
            if a is not None and b is not None and b.a[1] is n:
                ok = self.decide(st, icmp("ule", a.a[1], n, F))
                self.note("erase-range", I, ok is True, "erase from %s, size %s" % (a.a[1], n), st)
                self.assume(st, icmp("ule", a.a[1], n, F), True)
                self.setsize(st, key, a.a[1])
                return R(mk("iter", (key, a.a[1]), "ptr"))
        if tail == "data":
            return R(ptr(("cell", key, const(0, 64)), 0))
        return self.unknown_call(I, "std::vector::" + tail, args, st)

    def iterval(self, st, x):
        if isinstance(x, T) and x.op == "iter":
            return x
        if isinstance(x, Agg) and len(x.v) == 1:
            return self.iterval(st, x.v[0])
        if isinstance(x, T) and x.op == "ptr":
            y = st.mem.get(x.a[0], {}).get(x.a[1])
            if y:
                return self.iterval(st, y[1])
        return None

    def iter_call(self, I, tail, args, st):
        R = lambda v=None: [Out("ret", v, st)]
        if tail == "__normal_iterator" and len(args) >= 2:
            it = self.iterval(st, args[1])
            if it is not None:
                self.store(st, args[0], 8, it)
                return R()
        if tail in ("operator+", "operator-"):
            it = self.iterval(st, args[0])
            if it is not None and isinstance(args[1], T) and isinstance(args[1].w, int):
                return R(mk("iter", (it.a[0], add(it.a[1], args[1], 1 if tail[-1] == "+" else -1)), "ptr"))
        if tail == "operator*":
            it = self.iterval(st, args[0])
            if it is not None:
                return R(ptr(("cell", it.a[0], it.a[1]), 0))
        if tail == "operator++":
            it = self.iterval(st, args[0])
            if it is not None:
                self.store(st, args[0], 8, mk("iter", (it.a[0], addc(it.a[1], 1)), "ptr"))
                return R(args[0])
        return None

    def vreverse(self, I, args, st):
        a, b = self.iterval(st, args[0]), self.iterval(st, args[1])
        if a is None or b is None:
            return None
        key = a.a[0]
        v = st.vecs[key]
        if is_c(v.size) and is_c(a.a[1]) and cval(a.a[1]) == 0 and b.a[1] is v.size:
            n = cval(v.size)
            lay = self.elt_layout(key, st)
            vals = [[(o, s, self.cread(st, key, const(i, 64), o, s, ty)) for o, s, ty in lay] for i in range(n)]
            st.vecs[key] = Vec(v.base, v.size, ())
            for i in range(n):
                for o, s, x in vals[n - 1 - i]:
                    self.cwrite(st, key, const(i, 64), o, s, x)
            return [Out("ret", None, st)]
        st.vecs[key] = Vec(("reversed", v.base, v.log, v.size), v.size, ())
        return [Out("ret", None, st)]

    def vlayout(self, st, key, dem):
        if ("layout", key) in st.tags:
            return
        m = re.search(r"std::vector<(.*?),? std::allocator", dem)
        t = m.group(1) if m else ""
        if t.startswith("Stack_Cell"):
            st.tags[("cells", key)] = True
            st.tags[("layout", key)] = self.CELL
        elif t.startswith("std::pair<int, int"):
            st.tags[("layout", key)] = [(0, 4, Ty("int", 32)), (4, 4, Ty("int", 32))]
        elif t in ("unsigned int", "int"):
            st.tags[("layout", key)] = [(0, 4, Ty("int", 32))]
        elif t.endswith("*"):
            st.tags[("layout", key)] = [(0, 8, Ty("ptr"))]
        else:
            st.tags[("layout", key)] = []

    # --- maps: uninterpreted finite functions with a log
    def map_call(self, I, tail, args, st, dem):
        R = lambda v=None: [Out("ret", v, st)]
        if tail in ("unordered_map", "map", "~unordered_map", "~map"):
            return R()
        p = args[0]
        if p.op != "ptr":
            return None
        key = ("map",) + p.a
        if key not in st.vecs:
            st.vecs[key] = Vec(("init", key), const(0, 64))
        if "unordered_map<unsigned int" not in dem and "map<unsigned int" not in dem:
            return None
        if tail in ("at", "operator[]"):
            k = self.load(st, args[1], 4, Ty("int", 32))
            st.tags[("layout", key)] = [(0, 4, Ty("int", 32))]
            outs = []
            if tail == "at":
                known = any(e[0] is k for e in st.vecs[key].log) or (key, k) in st.tags
                if not known:
                    s2 = st.copy()
                    outs.append(Out("throw", ("exc", "out_of_range", "map::at"), s2, I.loc))
                    st.tags[(key, k)] = True
            outs.append(Out("ret", ptr(("cell", key, k), 0), st))
            return outs
        return None

    # --- fixed arrays
    def array_index(self, I, args, st, dem, at):
        m = re.search(r"std::array<(.*), (\d+)ul>", dem)
        n = int(m.group(2))
        esz = {"unsigned int": 4, "int": 4, "char": 1, "unsigned char": 1, "unsigned long": 8}.get(m.group(1))
        idx = args[1]
        F = st.facts
        if at:
            outs = []
            ok = self.decide(st, icmp("ult", idx, const(n, 64), F))
            if ok is not True:
                s2 = st.copy()
                if self.assume(s2, icmp("ult", idx, const(n, 64), F), False):
                    outs.append(Out("throw", ("exc", "out_of_range", "array::at"), s2, I.loc))
            if ok is not False and self.assume(st, icmp("ult", idx, const(n, 64), F), True):
                outs.append(Out("ret", self.gep(args[0], scale(idx, esz)), st))
            return outs
        r = rng(idx, F)
        self.note("array-index", I, r[1] < n, "index %s in %s, bound %d" % (idx, r[:2], n), st)
        off = scale(idx, esz)
        return [Out("ret", self.gep(args[0], off), st)]


def gepc(p, o):
    if o == 0:
        return p
    if p.op == "ptr" and isinstance(p.a[1], int):
        return ptr(p.a[0], p.a[1] + o)
    if p.op == "ptr":
        return ptr(p.a[0], addc(p.a[1], o))
    return mk("gep", (p, o), "ptr")


def typeinfo_name(v):
    try:
        return str(v.v)
    except Exception:
        return str(v)


def kind_of(k):
    k = k.split(",")[-1].strip()
    if "(*" in k or "ios_base" in k:
        return "manip"
    return k


def _arr_patch():
    base_load, base_store = SimInterp.load, SimInterp.store

    def load(self, st, p, size, ty, ins=None):
        if p.op == "ptr" and not iscell(p.a[0]):
            obj, off = p.a
            rg = self.region(obj, off, st) if getattr(self, "region", None) else None
            if rg or not isinstance(off, int):
                nm = rg[0] if rg else "*"
                key = ("arr", obj, nm)
                if key not in st.vecs:
                    st.vecs[key] = Vec(("init", key), const(0, 64))
                o = const(off, 64) if isinstance(off, int) else off
                if rg:
                    r = rng(o, st.facts)
                    self.oblige("array-bounds", ins, r[0] >= rg[1] and r[1] + size <= rg[1] + rg[2],
                                "offset %s of array %s [%d..%d)" % (o, nm, rg[1], rg[1] + rg[2]), st)
                    o = addc(o, -rg[1])
                else:
                    self.var_access(st, obj, o, size, ins)
                    g = self.global_init_var(st, obj, o, size, ty)
                    if g is not None:
                        return g
                return self.cread(st, key, o, 0, size, ty)
        return base_load(self, st, p, size, ty, ins)

    def store(self, st, p, size, v, ins=None):
        if p.op == "ptr" and not iscell(p.a[0]):
            obj, off = p.a
            rg = self.region(obj, off, st) if getattr(self, "region", None) else None
            if rg or not isinstance(off, int):
                nm = rg[0] if rg else "*"
                key = ("arr", obj, nm)
                if key not in st.vecs:
                    st.vecs[key] = Vec(("init", key), const(0, 64))
                o = const(off, 64) if isinstance(off, int) else off
                if rg:
                    r = rng(o, st.facts)
                    self.oblige("array-bounds", self.cur_ins, r[0] >= rg[1] and r[1] + size <= rg[1] + rg[2],
                                "offset %s of array %s [%d..%d)" % (o, nm, rg[1], rg[1] + rg[2]), st)
                    o = addc(o, -rg[1])
                else:
                    self.var_access(st, obj, o, size, self.cur_ins)
                self.cwrite(st, key, o, 0, size, v)
                return
        base_store(self, st, p, size, v)

    SimInterp.load, SimInterp.store = load, store
    SimInterp.cur_ins = None
    SimInterp.var_access = lambda self, st, obj, off, size, ins: None
    SimInterp.global_init_var = SimInterp.table_entry


_arr_patch()
