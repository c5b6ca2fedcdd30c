"""Path-partitioned interprocedural dataflow over LLVM IR.

Abstract state = (value numbers of SSA registers and memory locations, interval
facts, event trace).  Branches refine the facts; contradicted branches are
infeasible.  Loops are summarised: everything a loop changes is generalised at
the loop head (linear induction, otherwise interval widening) until the body is
closed, so each body is analysed a bounded number of times.  Calls to functions
of the repository are analysed in the calling context; functions with a
registered model (containers, streams, the conversion primitives whose
contracts are established separately) are replaced by the model.
"""
from terms import *
import terms as TT
from ir import AnalysisError, Val, Ty


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return "agg%r" % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(tuple(self.v))


class State:
    __slots__ = ("mem", "facts", "events", "vecs", "ver", "preds", "tags", "fresh")

    def __init__(self):
        self.mem = {}      # obj -> {off: (size, value)}
        self.facts = {}    # term -> interval
        self.events = ()   # ordered event tuples
        self.vecs = {}     # vector object -> Vec
        self.ver = {}      # obj -> epoch
        self.preds = {}    # predicate term -> bool
        self.tags = {}     # free-form
        self.fresh = set()  # objects created on this path (contents initially undefined)

    def copy(self):
        s = State()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.facts = dict(self.facts)
        s.events = self.events
        s.vecs = dict(self.vecs)
        s.ver = dict(self.ver)
        s.preds = dict(self.preds)
        s.tags = dict(self.tags)
        s.fresh = set(self.fresh)
        return s


class Out:
    """outcome of a call or of a function body"""
    __slots__ = ("kind", "val", "st", "loc")

    def __init__(self, kind, val, st, loc=None):
        self.kind, self.val, self.st, self.loc = kind, val, st, loc

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.val)


def case_runs(cases):
    """(first value, number, block): long runs of values that go to one place are one condition"""
    r = []
    for b in dict.fromkeys(b for k, b in cases):
        ks = sorted(k for k, x in cases if x == b)
        i = 0
        while i < len(ks):
            j = i
            while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1:
                j += 1
            r += [(ks[i], j - i + 1, b)] if j - i >= 3 else [(k, 1, b) for k in ks[i:j + 1]]
            i = j + 1
    return r


class Budget(AnalysisError):
    pass


class Interp:
    def __init__(self, prog, models=None, max_paths=20000, max_depth=40):
        self.prog = prog
        self.models = dict(models or {})
        self.default_model = None
        self.fieldname = lambda obj, off, size: "%s" % off
        self.counter = 0
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.npaths = 0
        self.stack = []
        self.checks = {}      # (kind, loc, text) -> True/False/detail
        self.check_enabled = False
        self.analysed = set()
        self.sites = 0
        self.init_load = None  # hook(obj, off, size, ty, st) -> value or None
        self.loopinfo = {}
        self.cut, self.dropped = 0, 0
        self.objsize = {}
        self.catches, self.tids = None, {}     # exception matching by type, when given
        self.recursion = {}
        self.want_float_checks = False
        self.fork_select = False
        self.merge_cases = False
        self.notcounted = {}

    # -------------------------------------------------------------- helpers
    def fresh(self, name, w, lo=None, hi=None):
        self.counter += 1
        return sym("%s#%d" % (name, self.counter), w, lo, hi)

    def freshobj(self, name):
        self.counter += 1
        return "%s#%d" % (name, self.counter)

    def where(self):
        return " <- ".join(f.short for f in reversed(self.stack[-6:]))

    def oblige(self, kind, ins, ok, detail="", st=None):
        """record a proof obligation (check site)"""
        if not self.check_enabled:
            return
        loc = ins.loc if ins is not None else ("?", 0)
        k = (kind, loc[0], loc[1], ins.fn.short if ins is not None else "?")
        cur = self.checks.get(k)
        if cur is None:
            self.checks[k] = [ok, detail if not ok else "", 1, self.where() if not ok else ""]
        else:
            cur[2] += 1
            if cur[0] and not ok:
                cur[0], cur[1], cur[3] = False, detail, self.where()

    # ---------------------------------------------------------------- facts
    def rng(self, t, st):
        return rng(t, st.facts)

    def assume(self, st, c, val):
        """refine st with boolean term c == val; False if infeasible"""
        if is_c(c):
            return cval(c) == int(val)
        if c.op == "not":
            return self.assume(st, c.a[0], not val)
        if c in st.preds:
            if st.preds[c] != val:
                return False
        st.preds[c] = val
        if c.op == "icmp":
            p, a, b = c.a
            if not val:
                p = NEG.get(p)
                if p is None:
                    return True
            if not (isinstance(a.w, int) and isinstance(b.w, int)):
                return True
            return self.refine(st, p, a, b)
        if c.op == "and1" or (c.op == "and" and c.w == 1):
            if val:
                return all(self.assume(st, x, True) for x in c.a)
            und = [x for x in c.a if not (is_c(x) and cval(x) == 1)]
            und2 = []
            for x in und:
                v = self.decide(st, x)
                if v is None:
                    und2.append(x)
                elif v is False:
                    return True
            if not und2:
                return False
            if len(und2) == 1:
                return self.assume(st, und2[0], False)
            return True
        if c.op == "or" and c.w == 1:
            if not val:
                return all(self.assume(st, x, False) for x in c.a)
            und2 = []
            for x in c.a:
                v = self.decide(st, x)
                if v is True:
                    return True
                if v is None:
                    und2.append(x)
            if not und2:
                return False
            if len(und2) == 1:
                return self.assume(st, und2[0], True)
            return True
        if c.op == "fcmp":
            return self.frefine(st, c, val)
        if c.op == "ite" and c.w == 1:
            x, a, b = c.a
            v = self.decide(st, x)
            if v is not None:
                return self.assume(st, a if v else b, val)
            if is_c(a) and bool(cval(a)) != val:
                return self.assume(st, x, False) and self.assume(st, b, val)
            if is_c(b) and bool(cval(b)) != val:
                return self.assume(st, x, True) and self.assume(st, a, val)
            return True
        if isinstance(c.w, int) and c.w == 1:
            r = const(int(val), 1)
            st.facts[c] = (int(val), int(val), -int(val), -int(val))
        return True

    def frefine(self, st, c, val):
        return True

    def decide(self, st, c):
        if is_c(c):
            return bool(cval(c))
        if c in st.preds:
            return st.preds[c]
        if c.op == "not":
            v = self.decide(st, c.a[0])
            return None if v is None else not v
        if c.op == "icmp":
            p, a, b = c.a
            if isinstance(a.w, int) and isinstance(b.w, int):
                v = TT._cmp_rng(p, rng(a, st.facts), rng(b, st.facts))
                if v is not None:
                    return bool(v)
                n = bnot(c)
                if n in st.preds:
                    return not st.preds[n]
                v = self.offset_cmp(st, p, a, b)
                if v is not None:
                    return v
                v = self.entailed(st, p, a, b)
                if v is not None:
                    return v
        if c.w == 1 and c.op == "xor":
            vs = [self.decide(st, x) for x in c.a]
            return None if None in vs else sum(vs) % 2 == 1
        if c.w == 1 and c.op in ("and", "or"):
            vs = [self.decide(st, x) for x in c.a]
            if c.op == "and":
                if False in vs:
                    return False
                if all(v is True for v in vs):
                    return True
            else:
                if True in vs:
                    return True
                if all(v is False for v in vs):
                    return False
        if c.op == "ite":
            v = self.decide(st, c.a[0])
            if v is not None:
                return self.decide(st, c.a[1] if v else c.a[2])
        if c in st.facts and c.w == 1:
            f = st.facts[c]
            if f[0] == f[1]:
                return bool(f[0])
        if c.op == "fcmp":
            return self.fdecide(st, c)
        return None

    def offset_cmp(self, st, p, a, b):
        """decide a p b when a - b is a constant and the ranges exclude wrap-around"""
        if p in ("eq", "ne") or a.w != b.w:
            return None
        d = TT.sub(b, a)
        if not is_c(d):
            return None
        w = a.w
        k = cval(d)
        if k >= 1 << (w - 1):
            k -= 1 << w
        r = rng(a, st.facts)
        if p[0] == "u":
            lo, hi, lim0, lim1 = r[0], r[1], 0, (1 << w) - 1
        else:
            lo, hi, lim0, lim1 = r[2], r[3], -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo + k < lim0 or hi + k > lim1:
            return None
        return {"lt": 0 < k, "le": 0 <= k, "gt": 0 > k, "ge": 0 >= k}[p[1:]]

    def fdecide(self, st, c):
        return None

    def entailed(self, st, p, a, b):
        """a p b from a recorded comparison of the same operands (or offset by constants)"""
        for q, v in ((("eq"), None),):
            pass
        def known(pp, x, y):
            t = mk("icmp", (pp, x, y), 1)
            if t in st.preds:
                return st.preds[t]
            return None
        if p in ("ult", "slt", "uge", "sge"):
            base = p[0]
            lt = known(base + "lt", a, b)
            ge = known(base + "ge", a, b)
            gt = known(base + "lt", b, a)
            le = known(base + "ge", b, a)
            islt = lt if lt is not None else (None if ge is None else not ge)
            isgt = gt if gt is not None else (None if le is None else not le)
            if islt is None and isgt is True:
                islt = False
            if islt is None:
                eq = known("eq", *(sorted((a, b), key=lambda x: x.id)))
                if eq is True:
                    islt = False
                elif eq is False and isgt is False:
                    islt = True
            if islt is not None:
                return islt if p[1:] == "lt" else not islt
        if p in ("eq", "ne"):
            for base in "us":
                for x, y in ((a, b), (b, a)):
                    if known(base + "lt", x, y) is True or known(base + "ge", x, y) is False:
                        return p == "ne"
        return None

    def setfact(self, st, t, r):
        if is_c(t):
            c = rng(t)
            return meet(c, r) is not None
        cur = rng(t, st.facts)
        n = norm(meet(cur, r), t.w)
        if n is None:
            return False
        if n != cur:
            st.facts[t] = n
            # push through simple structure
            if t.w == 64 and t.op in ("lin", "mul") and n[2] >= -(1 << 31) and n[3] < 1 << 31 and (cur[2] < -(1 << 31) or cur[3] >= 1 << 31 or t.op == "lin"):
                q = trunc(t, 32)
                if not is_c(q):
                    self.setfact(st, q, from_s(n[2], n[3], 32))
            if t.op == "zext":
                return self.setfact(st, t.a[0], from_u(n[0], n[1], t.a[0].w) if n[1] < (1 << t.a[0].w) else full(t.a[0].w))
            if t.op == "sext":
                lo = max(n[2], -(1 << (t.a[0].w - 1)))
                hi = min(n[3], (1 << (t.a[0].w - 1)) - 1)
                if lo > hi:
                    return False
                return self.setfact(st, t.a[0], from_s(lo, hi, t.a[0].w))
            if t.op == "trunc":
                x = t.a[0]
                rx = rng(x, st.facts)
                if rx[1] < (1 << t.w):
                    return self.setfact(st, x, from_u(n[0], n[1], x.w))
            if t.op == "lin":
                c, ts = t.a
                if len(ts) == 1 and ts[0][1] in (1, (1 << t.w) - 1):
                    b, k = ts[0]
                    w = t.w
                    rb = rng(b, st.facts)
                    if k == 1:
                        # b = t - c ; choose representation without wrap
                        cs = sgn(c, w)
                        ok = False
                        lo, hi = rb[0] + cs, rb[1] + cs
                        if lo >= 0 and hi < (1 << w):
                            return self.setfact(st, b, from_u(max(n[0] - cs, 0), n[1] - cs, w)) if n[1] - cs >= 0 else False
                        lo, hi = rb[2] + cs, rb[3] + cs
                        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                            a1, a2 = n[2] - cs, n[3] - cs
                            return self.setfact(st, b, from_s(max(a1, -(1 << (w - 1))), min(a2, (1 << (w - 1)) - 1), w))
                    else:
                        cs = sgn(c, w)
                        lo, hi = cs - rb[3], cs - rb[2]
                        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                            return self.setfact(st, b, from_s(cs - n[3], cs - n[2], w))
            if t.op == "sub_":
                pass
        return True

    def refine(self, st, p, a, b):
        ra, rb = rng(a, st.facts), rng(b, st.facts)
        w = a.w
        v = TT._cmp_rng(p, ra, rb)
        if v is not None:
            return bool(v)
        e = self.entailed_excl(st, p, a, b)
        if e is False:
            return False
        F = full(w)
        if p == "eq":
            m = norm(meet(ra, rb), w)
            if m is None:
                return False
            return self.setfact(st, a, m) and self.setfact(st, b, m)
        if p == "ne":
            for x, r, q in ((a, ra, rb), (b, rb, ra)):
                if q[0] == q[1]:
                    k = q[0]
                    lo, hi, sl, sh = r
                    if lo == k:
                        lo += 1
                    if hi == k:
                        hi -= 1
                    ks = q[2]
                    if sl == ks:
                        sl += 1
                    if sh == ks:
                        sh -= 1
                    if lo > hi or sl > sh:
                        return False
                    if not self.setfact(st, x, (lo, hi, sl, sh)):
                        return False
            return True
        if p in ("ugt", "ule", "sgt", "sle"):
            a, b, p = b, a, SWAP[p]
            ra, rb = rb, ra
        if p == "ult":
            return self.setfact(st, a, (0, rb[1] - 1, F[2], F[3])) and \
                self.setfact(st, b, (ra[0] + 1, F[1], F[2], F[3]))
        if p == "uge":
            return self.setfact(st, a, (rb[0], F[1], F[2], F[3])) and \
                self.setfact(st, b, (0, ra[1], F[2], F[3]))
        if p == "slt":
            return self.setfact(st, a, (0, F[1], F[2], rb[3] - 1)) and \
                self.setfact(st, b, (0, F[1], ra[2] + 1, F[3]))
        if p == "sge":
            return self.setfact(st, a, (0, F[1], rb[2], F[3])) and \
                self.setfact(st, b, (0, F[1], F[2], ra[3]))
        return True

    def entailed_excl(self, st, p, a, b):
        # temporarily ignore the predicate just recorded for this comparison
        t = mk("icmp", (p, a, b), 1)
        sv = st.preds.pop(t, None)
        n = mk("icmp", (NEG[p], a, b), 1)
        sv2 = st.preds.pop(n, None)
        r = self.entailed(st, p, a, b)
        if sv is not None:
            st.preds[t] = sv
        if sv2 is not None:
            st.preds[n] = sv2
        return r

    # --------------------------------------------------------------- memory
    def load(self, st, p, size, ty, ins=None):
        if p.op != "ptr":
            return self.opaque_load(st, p, size, ty)
        obj, off = p.a
        if not isinstance(off, int):
            return self.load_var(st, obj, off, size, ty, ins)
        m = st.mem.setdefault(obj, {})
        e = m.get(off)
        if e is not None:
            if e[0] == size:
                return self.coerce(e[1], ty, st)
            if e[0] > size and isinstance(e[1], T) and isinstance(e[1].w, int) and ty.k == "int":
                return trunc(e[1], ty.a, st.facts)
            if e[0] < size and ty.k == "int" and isinstance(e[1], T) and is_c(e[1]) and cval(e[1]) == 0 and \
                    all(m.get(off + i, (0, None))[1] is not None or i % e[0] for i in range(0, size, e[0])):
                if all(is_c(m[off + i][1]) and cval(m[off + i][1]) == 0 for i in range(0, size, e[0]) if off + i in m):
                    return const(0, ty.a)
        else:
            # inside a larger known entry?
            for o2, e2 in m.items():
                if o2 < off < o2 + e2[0] and isinstance(e2[1], T) and isinstance(e2[1].w, int) and ty.k == "int" \
                        and off + size <= o2 + e2[0]:
                    return trunc(lshr(e2[1], const(8 * (off - o2), e2[1].w), st.facts), ty.a, st.facts)
        v = None
        if self.init_load:
            v = self.init_load(self, st, obj, off, size, ty)
        if v is None:
            v = self.global_init(obj, off, size, ty)
        if v is None:
            v = self.mk_initial(st, obj, off, size, ty)
        m[off] = (size, v)
        return v

    def mk_initial(self, st, obj, off, size, ty):
        nm = "%s.%s@%d" % (self.objname(obj), self.fieldname(obj, off, size), st.ver.get(obj, 0))
        if ty.k == "ptr":
            return ptr("*" + nm, 0)
        if ty.k == "int":
            return sym(nm, ty.a)
        if ty.k in ("double", "x86_fp80", "float"):
            return sym(nm, "fp")
        return sym(nm, "agg")

    def objname(self, o):
        return o if isinstance(o, str) else show(o)

    def coerce(self, v, ty, st):
        if isinstance(v, T) and ty.k == "int" and isinstance(v.w, int) and v.w != ty.a:
            return trunc(v, ty.a, st.facts) if v.w > ty.a else zext(v, ty.a, st.facts)
        return v

    def opaque_load(self, st, p, size, ty):
        self.counter += 1
        if ty.k == "int":
            return sym("load(%s)#%d" % (show(p), self.counter), ty.a)
        if ty.k == "ptr":
            return ptr("*load(%s)" % show(p), 0)
        return sym("load(%s)#%d" % (show(p), self.counter), "fp")

    def load_var(self, st, obj, off, size, ty, ins):
        m = st.mem.setdefault(obj, {})
        key = ("v", off)
        e = m.get(key)
        if e is not None and e[0] == size:
            return self.coerce(e[1], ty, st)
        v = None
        if self.init_load:
            v = self.init_load(self, st, obj, off, size, ty)
        if v is None:
            nm = ("%s[" % self.objname(obj), off, "]@%d" % st.ver.get((obj, "v"), 0))
            v = sym(nm, ty.a) if ty.k == "int" else ptr(nm, 0) if ty.k == "ptr" else sym(nm, "fp")
        m[key] = (size, v)
        return v

    def table_entry(self, st, obj, off, size, ty):
        """an element of a small constant table, chosen by an undecided index"""
        if ty.k != "int" or not (isinstance(obj, str) and obj.startswith("@")) or not isinstance(off, T):
            return None
        g = self.prog.globals.get(obj[1:])
        if g is None or not g[2] or g[1] is None:
            return None
        t = self.prog.layout.resolve(g[0])
        if t.k != "array" or self.prog.layout.size(t.b) != size or not 0 < t.a <= 64:
            return None
        r = sym(("%s[" % self.objname(obj), off, "]@0"), ty.a)
        for i in range(t.a - 1, -1, -1):
            x = self.const_at(g[0], g[1], i * size, size, ty)
            if x is None:
                return None
            c = icmp("eq", off, const(i * size, off.w), st.facts)
            d = self.decide(st, c)
            if d is not False:
                r = x if d else ite(c, x, r)
        return r

    def store(self, st, p, size, v):
        if p.op != "ptr":
            st.events += (("store?", p, v),)
            return
        obj, off = p.a
        m = st.mem.setdefault(obj, {})
        if not isinstance(off, int):
            # weak update: forget other variable entries of this object of unknown relation
            st.ver[(obj, "v")] = st.ver.get((obj, "v"), 0) + 1
            for k in [k for k in m if isinstance(k, tuple)]:
                del m[k]
            m[("v", off)] = (size, v)
            return
        for k in list(m):
            if isinstance(k, int) and k != off and k < off + size and off < k + m[k][0]:
                del m[k]
            elif isinstance(k, tuple):
                pass
        m[off] = (size, v)

    def copy_mem(self, st, dst, src, n):
        if dst.op != "ptr":
            return
        dobj, doff = dst.a
        if src.op == "ptr" and isinstance(src.a[1], int) and isinstance(doff, int):
            sobj, soff = src.a
            sm = st.mem.get(sobj, {})
            if not any(isinstance(k, int) and soff <= k < soff + n for k in sm) or not self._covers(sm, soff, n):
                self.materialise(st, sobj, soff, n)
                sm = st.mem.get(sobj, {})
            items = [(k - soff + doff, e) for k, e in sm.items() if isinstance(k, int) and soff <= k < soff + n]
            m = st.mem.setdefault(dobj, {})
            for k in list(m):
                if isinstance(k, int) and doff <= k < doff + n:
                    del m[k]
            for k, e in items:
                m[k] = e
            return
        self.havoc_obj(st, dobj)

    def _covers(self, sm, off, n):
        return False

    def materialise(self, st, obj, off, n):
        """hook: create the fields of a partially loaded object before a copy"""
        t = self.objtypes(obj, off, n)
        for o, sz, ty in t:
            if off <= o < off + n:
                self.load(st, ptr(obj, o), sz, ty)

    def objtypes(self, obj, off, n):
        g = self.globtype(obj)
        if g is None:
            return []
        return [x for x in self.flatten(g) if off <= x[0] < off + n]

    def globtype(self, obj):
        if isinstance(obj, str) and obj.startswith("@"):
            g = self.prog.globals.get(obj[1:])
            return g[0] if g else None
        return None

    def flatten(self, ty, base=0, lim=4096):
        L = self.prog.layout
        t = L.resolve(ty)
        if t.k == "struct":
            offs, _ = L.offsets(t)
            r = []
            for o, x in zip(offs, t.a):
                r += self.flatten(x, base + o, lim)
            return r
        if t.k == "array":
            r = []
            es = L.size(t.b)
            for i in range(min(t.a, lim)):
                r += self.flatten(t.b, base + i * es, lim)
            return r
        return [(base, L.size(t), t)]

    def havoc_obj(self, st, obj):
        st.mem[obj] = {}
        st.ver[obj] = st.ver.get(obj, 0) + 1
        st.ver[(obj, "v")] = st.ver.get((obj, "v"), 0) + 1

    def global_init(self, obj, off, size, ty):
        """constant globals are read from their initialiser"""
        if not (isinstance(obj, str) and obj.startswith("@")):
            return None
        g = self.prog.globals.get(obj[1:])
        if g is None or not g[2] or g[1] is None:
            return None
        return self.const_at(g[0], g[1], off, size, ty)

    def const_at(self, t, v, off, size, ty):
        L = self.prog.layout
        t = L.resolve(t)
        if v.k == "zeroinitializer":
            return const(0, ty.a) if ty.k == "int" else PTR0 if ty.k == "ptr" else fconst(0)
        if t.k == "array":
            es = L.size(t.b)
            i, r = divmod(off, es)
            if i >= t.a:
                return None
            if v.k == "bytes":
                if ty.k == "int":
                    return const(int.from_bytes(v.v[off:off + size], "little"), ty.a)
                return None
            if v.k == "agg":
                return self.const_at(t.b, v.v[i], r, size, ty)
            return None
        if t.k == "struct":
            offs, _ = L.offsets(t)
            for o, x, y in zip(offs, t.a, v.v if v.k == "agg" else []):
                if o <= off < o + L.size(x):
                    return self.const_at(x, y, off - o, size, ty)
            return None
        if off == 0:
            return self.constval(v)
        return None

    # ------------------------------------------------------------- operands
    def constval(self, v, mod=None):
        k = v.k
        if k == "int":
            return const(v.v, v.ty.a)
        if k == "fp":
            return fconst(v.v)
        if k == "null":
            return PTR0
        if k in ("undef", "poison"):
            return self.undef(v.ty)
        if k == "zeroinitializer":
            return self.zero(v.ty)
        if k == "glob":
            return ptr("@" + v.v, 0)
        if k == "cgep":
            bt, args = v.v
            base = self.constval(args[0])
            off = self.gep_off(bt, [self.constval(a) for a in args[1:]], State())
            if base.op == "ptr" and isinstance(off, int) and isinstance(base.a[1], int):
                return ptr(base.a[0], base.a[1] + off)
            return mk("gepc", (base, off), "ptr")
        if k == "ccast":
            op, x, t2 = v.v
            return mk("ccast", (op, self.constval(x)), t2.a if t2.k == "int" else "ptr")
        if k == "cbin":
            return mk("cbin", (v.v[0], self.constval(v.v[1]), self.constval(v.v[2])), 64)
        if k == "agg":
            return Agg([self.constval(x) for x in v.v])
        if k == "meta":
            return None
        return mk("constant", (k, repr(v.v)), "ptr")

    def undef(self, ty):
        t = ty
        if t.k == "int":
            return mk("undef", (), t.a)
        if t.k == "named" or t.k == "struct":
            t = self.prog.layout.resolve(t)
            return Agg([self.undef(x) for x in t.a])
        if t.k == "ptr":
            return mk("undef", (), "ptr")
        return mk("undef", (), "fp")

    def zero(self, ty):
        t = self.prog.layout.resolve(ty)
        if t.k == "int":
            return const(0, t.a)
        if t.k == "struct":
            return Agg([self.zero(x) for x in t.a])
        if t.k == "ptr":
            return PTR0
        return fconst(0)

    def val(self, v, env):
        if v.k == "reg":
            if v.v not in env:
                raise AnalysisError("undefined register %s" % v.v)
            return env[v.v]
        if v.k == "int":
            return const(v.v, v.ty.a)
        return self.constval(v)

    def gep_off(self, bt, idx, st):
        L = self.prog.layout
        off = 0
        t = bt
        first = True
        for ix in idx:
            if first:
                es = L.size(t) if (t.k != "named" or self.prog.types.get(t.a) is not None) else 1
                off = self._offadd(off, ix, es, st)
                first = False
                continue
            rt = L.resolve(t)
            if rt.k == "struct":
                i = cval(ix)
                offs, _ = L.offsets(rt)
                off = self._offadd(off, const(1, 64), offs[i], st)
                t = rt.a[i]
            elif rt.k in ("array", "vector"):
                off = self._offadd(off, ix, L.size(rt.b), st)
                t = rt.b
            else:
                raise AnalysisError("gep into " + repr(rt))
        return off

    def _offadd(self, off, ix, scale_, st):
        if is_c(ix):
            d = sval(ix) * scale_
            if isinstance(off, int):
                return off + d
            return addc(off, d)
        x = sext(ix, 64, st.facts)
        x = scale(x, scale_)
        if isinstance(off, int):
            return addc(x, off)
        return add(off, x)

    def gep(self, base, off):
        if base.op == "ptr":
            o, b = base.a
            if isinstance(off, int) and isinstance(b, int):
                return ptr(o, b + off)
            if isinstance(b, int):
                b = const(b, 64)
            if isinstance(off, int):
                off = const(off, 64)
            return ptr(o, add(b, off))
        if isinstance(off, int):
            if off == 0:
                return base
            off = const(off, 64)
        if base.op == "gep":
            return mk("gep", (base.a[0], add(base.a[1], off)), "ptr")
        return mk("gep", (base, off), "ptr")

    # ----------------------------------------------------------- functions
    def run(self, fn, args, st):
        """analyse fn with the argument values; returns list of Out"""
        if len(self.stack) > self.max_depth:
            raise Budget("call depth exceeded in " + self.where())
        if self.stack.count(fn) >= 1:
            h = self.recursion.get(fn.short)
            if h:
                return h(self, fn, args, st)
            if fn.short in self.step_fns:
                return [Out("again", list(args), st)]
            if self.cut and self.stack.count(fn) > min(self.cut, 12):
                self.dropped += 1
                return []
            if not self.cut:
                raise AnalysisError("recursive function %s needs a model" % fn.short)
        self.stack.append(fn)
        self.analysed.add(fn.short)
        try:
            env = {}
            for (nm, ty), a in zip(fn.params, args):
                env[nm] = a
            return self.exec_from(fn, fn.entry, None, env, st, frozenset(), None)
        finally:
            self.stack.pop()

    def loops(self, fn):
        r = self.loopinfo.get(fn)
        if r is None:
            r = find_loops(fn)
            self.loopinfo[fn] = r
        return r

    def exec_from(self, fn, blk, prev, env, st, active, stop):
        """run from the start of blk.  `active`: loop headers currently being
        analysed (their re-entry is reported as outcome kind 'back')."""
        outs = []
        work = [(blk, prev, env, st, 0)]
        loops = self.loops(fn)
        while work:
            blk, prev, env, st, start = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Budget("path budget exceeded in " + self.where())
            # loop header reached
            if start == 0 and blk.name in loops:
                if blk.name in active:
                    o = Out("back", (blk.name, prev), st)
                    o.loc = self.phi_vals(blk, prev, env)
                    o.val = (blk.name, env)
                    outs.append(o)
                    continue
                for o in self.run_loop(fn, blk, prev, env, st, active, loops[blk.name]):
                    if o.kind == "leave":
                        b2, p2, e2 = o.val
                        work.append((fn.blocks[b2], p2, e2, o.st, 0))
                    else:
                        outs.append(o)
                continue
            if start == 0 and active:
                # leaving the innermost active loop?
                h = stop
                if h is not None and blk.name not in loops[h]:
                    outs.append(Out("leave", (blk.name, prev, env), st))
                    continue
            if start == 0:
                env = dict(env)
                new = self.phi_vals(blk, prev, env)
                env.update(new)
            i = start
            ins = blk.ins
            n = len(ins)
            while i < n:
                I = ins[i]
                op = I.op
                if op == "phi":
                    i += 1
                    continue
                if op in ("call", "invoke"):
                    rs = self.call(I, env, st)
                    if op == "call":
                        cont = []
                        for o in rs:
                            if o.kind == "ret":
                                cont.append(o)
                            else:
                                outs.append(o)
                        if not cont:
                            break
                        for o in cont[1:]:
                            e2 = dict(env)
                            if I.res is not None:
                                e2[I.res] = o.val
                            work.append((blk, prev, e2, o.st, i + 1))
                        if I.res is not None:
                            env[I.res] = cont[0].val
                        st = cont[0].st
                        i += 1
                        continue
                    for o in rs:
                        if o.kind == "ret":
                            e2 = dict(env)
                            if I.res is not None:
                                e2[I.res] = o.val
                            work.append((fn.blocks[I.x[1]], blk.name, e2, o.st, 0))
                        elif o.kind == "throw":
                            lp = fn.blocks[I.x[2]]
                            lpi = next((x for x in lp.ins if x.op == "landingpad"), None)
                            if lpi is not None and any(c[0] == "catch" for c in lpi.x):
                                e2 = dict(env)
                                e2["$exc"] = o.val
                                work.append((lp, blk.name, e2, o.st, 0))
                            else:
                                outs.append(o)
                        else:
                            outs.append(o)
                    break
                if op == "br":
                    if len(I.x) == 1:
                        work.append((fn.blocks[I.x[0]], blk.name, env, st, 0))
                    else:
                        c = self.val(I.ops[0], env)
                        self.branch(fn, blk, I, c, env, st, work)
                    break
                if op == "switch":
                    self.do_switch(fn, blk, I, env, st, work)
                    break
                if op == "ret":
                    v = self.val(I.ops[0], env) if I.ops else None
                    outs.append(Out("ret", v, st, I.loc))
                    break
                if op == "unreachable":
                    break
                if op == "resume":
                    outs.append(Out("throw", env.get("$exc"), st, I.loc))
                    break
                if op == "select" and self.fork_select:
                    alts = self.split_select(I, env, st)
                    if alts is not None:
                        for e2, s2 in alts:
                            work.append((blk, prev, e2, s2, i + 1))
                        break
                self.step(I, env, st)
                i += 1
        return outs

    def split_select(self, I, env, st):
        """the two outcomes of an undecided choice between integers"""
        c, a, b = (self.val(x, env) for x in I.ops)
        if not (isinstance(a, T) and isinstance(b, T)) or a.w == 1 or a is b or self.decide(st, c) is not None:
            return None
        r = []
        for v, s2 in self.split_cond(st, c):
            e2 = dict(env)
            e2[I.res] = a if v else b
            r.append((e2, s2))
        return r

    def split_cond(self, st, c):
        """the decided outcomes of a condition, one state per combination of its atoms"""
        v = self.decide(st, c)
        if v is not None:
            return [(v, st)]
        x = c
        while x.op in ("and", "or", "xor", "not") and x.w == 1:
            for y in x.a:
                if self.decide(st, y) is None:
                    x = y
                    break
            else:
                break
        r = []
        for v in (True, False):
            s2 = st.copy()
            if self.assume(s2, x, v):
                if x is c:
                    r.append((v, s2))
                elif self.decide(s2, x) is None:
                    for v2 in (True, False):
                        s3 = s2.copy()
                        if self.assume(s3, c, v2):
                            r.append((v2, s3))
                else:
                    r += self.split_cond(s2, c)
        return r

    def phi_vals(self, blk, prev, env):
        new = {}
        for I in blk.ins:
            if I.op != "phi":
                break
            for v, b in I.x:
                if b == prev:
                    new[I.res] = self.val(v, env)
                    break
            else:
                raise AnalysisError("phi without edge %s -> %s" % (prev, blk.name))
        return new

    def branch(self, fn, blk, I, c, env, st, work):
        v = self.decide(st, c)
        if v is not None:
            work.append((fn.blocks[I.x[0 if v else 1]], blk.name, env, st, 0))
            return
        if self.fork_select and c.op in ("and", "or", "xor", "not"):
            for v, s2 in self.split_cond(st, c):
                work.append((fn.blocks[I.x[0 if v else 1]], blk.name, dict(env), s2, 0))
            return
        s2 = st.copy()
        if self.assume(s2, c, False):
            work.append((fn.blocks[I.x[1]], blk.name, dict(env), s2, 0))
        if self.assume(st, c, True):
            work.append((fn.blocks[I.x[0]], blk.name, env, st, 0))

    def do_switch(self, fn, blk, I, env, st, work):
        v = self.val(I.ops[0], env)
        d, cases = I.x
        if is_c(v):
            for k, b in cases:
                if k == cval(v):
                    work.append((fn.blocks[b], blk.name, env, st, 0))
                    return
            work.append((fn.blocks[d], blk.name, env, st, 0))
            return
        ds = st.copy()
        feasible = True
        todo = []
        for k, n, b in case_runs(cases) if self.merge_cases else ((k, 1, b) for k, b in cases):
            s2 = st.copy()
            c = icmp("eq", v, const(k, v.w), st.facts) if n == 1 else icmp("ult", addc(v, -k), const(n, v.w), st.facts)
            dv = self.decide(st, c)
            if dv is False:
                continue
            if self.assume(s2, c, True):
                todo.append((fn.blocks[b], blk.name, dict(env), s2, 0))
            if feasible and not self.assume(ds, c, False):
                feasible = False
        if feasible:
            work.append((fn.blocks[d], blk.name, dict(env), ds, 0))
        work.extend(reversed(todo))

    # ---------------------------------------------------------------- loops
    def run_loop(self, fn, hdr, prev, env, st, active, body):
        """summarise the loop headed by hdr; yields outcomes and ('exit', ...)"""
        phis = self.given_phis if prev == "$again" else self.phi_vals(hdr, prev, env)
        self.given_phis = None
        env0 = dict(env)
        init = dict(phis)
        gen = {}          # location key -> generalised value
        W_phi = dict(phis)
        base_st = st
        ev_marker = None
        sub_active = frozenset(active | {hdr.name})
        rounds = 0
        havoc_objs = set()
        vec_gen = {}
        loopid = "%s:%s" % (fn.short, hdr.name)
        widen = {}
        memgen = {}       # (obj, off, size) -> value
        events_loop = None
        indvar = None     # (phi name, symbol)
        plan = {}         # key -> 'ind', step
        while True:
            rounds += 1
            if rounds > 14:
                raise AnalysisError("loop %s does not stabilise" % loopid)
            e = dict(env0)
            s = base_st.copy()
            for o in havoc_objs:
                self.havoc_obj(s, o)
                s.ver[o] = s.ver.get(o, 0) + 1000
            for (obj, off), (size, v) in memgen.items():
                s.mem.setdefault(obj, {})[off] = (size, v)
            for vo, vv in vec_gen.items():
                s.vecs[vo] = vv
            if events_loop is not None:
                s.events = base_st.events + (("loop", loopid, events_loop),)
            for r, v in W_phi.items():
                e[r] = v
                if r in widen and isinstance(v, T) and isinstance(v.w, int):
                    s.facts[v] = widen[r]
            for key in memgen:
                if key in widen:
                    s.facts[memgen[key][1]] = widen[key]
            for key in [k for k in widen if isinstance(k, tuple) and k and k[0] == "vec"]:
                s.facts[self.vec_size_sym(vec_gen[key[1]])] = widen[key]
            start_events = s.events
            start_state = s.copy()
            # execute the body, starting after the phis
            outs = self.exec_body(fn, hdr, prev, e, s, sub_active)
            backs = [o for o in outs if o.kind == "back"]
            changed = False
            # --- phis
            steps = {}
            for o in backs:
                nb = o.loc
                for r in W_phi:
                    a, b = W_phi[r], nb[r]
                    if a == b:
                        continue
                    steps.setdefault(r, []).append((a, b, o))
            for r, lst in steps.items():
                if self.gen_phi(r, W_phi, init, widen, lst, loopid, plan, phis):
                    changed = True
            # --- memory
            for o in backs:
                for obj in set(o.st.mem) | set(start_state.mem):
                    ma, mb = start_state.mem.get(obj, {}), o.st.mem.get(obj, {})
                    if ma == mb:
                        continue
                    if obj in o.st.fresh and obj not in start_state.fresh and obj not in start_state.mem:
                        continue
                    if obj in havoc_objs and start_state.ver.get(obj) != o.st.ver.get(obj):
                        continue
                    if start_state.ver.get(obj) != o.st.ver.get(obj):
                        havoc_objs.add(obj)
                        for k in [k for k in memgen if k[0] == obj]:
                            del memgen[k]
                        changed = True
                        continue
                    if o.st.ver.get((obj, "v")) != start_state.ver.get((obj, "v")):
                        # element writes at computed offsets
                        if obj not in havoc_objs:
                            havoc_objs.add(obj)
                            changed = True
                        continue
                    for off in set(ma) | set(mb):
                        x, y = ma.get(off), mb.get(off)
                        if x == y:
                            continue
                        if x is None:
                            # location first touched inside the loop: compare against its initial value
                            s0 = base_st.copy()
                            if not isinstance(off, int) or y is None:
                                continue
                            iv = self.initial_of(s0, obj, off, y)
                            if iv == y[1]:
                                continue
                            x = (y[0], iv)
                            base_st.mem.setdefault(obj, {})[off] = x
                            changed = True
                            key = (obj, off)
                            if key not in memgen:
                                memgen[key] = x
                            self.gen_mem(key, memgen, base_st, widen, [(x[1], y[1], o)], loopid, y[0], plan)
                            continue
                        if y is None:
                            continue
                        key = (obj, off)
                        if key not in memgen:
                            memgen[key] = x
                        if self.gen_mem(key, memgen, base_st, widen, [(memgen[key][1], y[1], o)], loopid, y[0], plan):
                            changed = True
            # --- vectors
            for o in backs:
                for vo in o.st.vecs:
                    a, b = start_state.vecs.get(vo), o.st.vecs[vo]
                    if a is None or a == b:
                        continue
                    if self.gen_vec(vo, a, b, base_st, vec_gen, widen, loopid, o):
                        changed = True
            # --- events
            evs = []
            for o in backs:
                d = o.st.events[len(start_events):]
                if d and d not in evs:
                    evs.append(d)
            evs = tuple(sorted(evs, key=repr)) if evs else None
            if evs is not None and evs != events_loop:
                # compare modulo generalisation rounds
                if events_loop is None or rounds < 10:
                    events_loop = evs
                    changed = True
            if not changed:
                break
        res = []
        for o in outs:
            if o.kind == "back" and o.val[0] == hdr.name:
                continue
            res.append(o)
        return res

    def initial_of(self, s0, obj, off, y):
        size = y[0]
        v = y[1]
        if isinstance(v, T) and isinstance(v.w, int):
            ty = Ty("int", v.w)
        elif isinstance(v, T) and v.w == "ptr":
            ty = Ty("ptr")
        else:
            ty = Ty("x86_fp80")
        return self.load(s0, ptr(obj, off), size, ty)

    THR = [0, 1, 2, 3, 4, 8, 15, 16, 20, 21, 22, 31, 32, 64, 127, 128, 255, 1000, 32767, 32768, (1 << 20), (1 << 26), (1 << 27) - 1, (1 << 31) - 1]

    def widen_iv(self, cur, new, w):
        """interval widening with thresholds"""
        h = hull(cur, new)
        if h == cur:
            return cur
        ulo, uhi, slo, shi = cur
        F = full(w)
        def up(x, m):
            for t in self.THR:
                if t >= x and t <= m:
                    return t
            return m
        if h[1] > uhi:
            uhi = up(h[1], F[1])
        if h[0] < ulo:
            ulo = 0 if h[0] < 1 else max([t for t in self.THR if t <= h[0]])
        if h[3] > shi:
            shi = up(h[3], F[3])
        if h[2] < slo:
            slo = -up(-h[2], -F[2]) if h[2] < 0 else (0 if h[2] < 1 else max([t for t in self.THR if t <= h[2]]))
            slo = max(slo, F[2])
        return norm((ulo, uhi, slo, shi), w) or (ulo, uhi, slo, shi)

    def gen_phi(self, r, W, init, widen, lst, loopid, plan, phis):
        cur = W[r]
        new = lst[0][1]
        if not isinstance(cur, T) or not isinstance(cur.w, int):
            # non-integer: opaque loop value
            nm = "loop(%s,%s)" % (loopid, r)
            k = cur.w if isinstance(cur, T) else "agg"
            g = ptr(("loopptr", nm), 0) if k == "ptr" else sym(nm, k)
            if W[r] == g:
                return False
            W[r] = g
            return True
        w = cur.w
        g = sym("loop(%s,%s,%s)" % (loopid, r, show(init[r])), w)
        if cur is not g:
            iv = rng(init[r], lst[0][2].st.facts)
            for _, b, o in lst:
                iv = hull(iv, rng(b, o.st.facts))
            # first generalisation: keep the initial interval only, grow afterwards
            widen[r] = rng(init[r], None) if not is_c(init[r]) else rng(init[r])
            widen[r] = rng(init[r], lst[0][2].st.facts) if is_c(init[r]) else hull(rng(init[r], None), rng(init[r], None))
            W[r] = g
            for _, b, o in lst:
                widen[r] = self.widen_iv(widen[r], rng(b, o.st.facts), w)
            return True
        ch = False
        for _, b, o in lst:
            n = self.widen_iv(widen[r], rng(b, o.st.facts), w)
            if n != widen[r]:
                widen[r] = n
                ch = True
        return ch

    def gen_mem(self, key, memgen, base_st, widen, lst, loopid, size, plan):
        cur = memgen[key][1]
        _, new, o = lst[0]
        if not isinstance(cur, T) or not isinstance(cur.w, int):
            if cur == new:
                return False
            nm = "loop(%s,%s)" % (loopid, (self.objname(key[0]), key[1]))
            kk = cur.w if isinstance(cur, T) else "agg"
            g = ptr(("loopptr", nm), 0) if kk == "ptr" else sym(nm, kk)
            if cur == g:
                return False
            memgen[key] = (size, g)
            return True
        if cur == new:
            return False
        nm = "loop(%s,%s+%s)" % (loopid, self.objname(key[0]), key[1] if isinstance(key[1], int) else "v")
        g = sym(nm, cur.w)
        if not isinstance(new, T) or not isinstance(new.w, int):
            new = sym(nm + "?", cur.w)
        if cur is not g:
            widen[key] = rng(cur, base_st.facts)
            widen[key] = self.widen_iv(widen[key], rng(new, o.st.facts), cur.w)
            memgen[key] = (size, g)
            return True
        n = self.widen_iv(widen[key], rng(new, o.st.facts), cur.w)
        if n != widen[key]:
            widen[key] = n
            return True
        return False

    def gen_vec(self, vo, a, b, base_st, vec_gen, widen, loopid, o):
        return False

    def vec_size_sym(self, v):
        return v.size

    def exec_body(self, fn, hdr, prev, env, st, active):
        """execute from the loop header (phis already in env)"""
        outs = []
        # emulate exec_from starting after phis
        nphi = 0
        for I in hdr.ins:
            if I.op != "phi":
                break
            nphi += 1
        return self._exec_loop(fn, hdr, prev, env, st, active, nphi)

    def _exec_loop(self, fn, hdr, prev, env, st, active, start):
        # same as exec_from but beginning inside the header block
        saved = None
        outs = []
        work = [(hdr, prev, env, st, max(start, 0))]
        # run the header block from `start`; exec_from handles start>0 as a resumed block,
        # for start==0 (no phis) we must not treat it as a header again
        return self.exec_resume(fn, hdr, prev, env, st, active, start)

    def exec_resume(self, fn, blk, prev, env, st, active, start):
        """exec_from variant that begins at instruction index `start` of a header"""
        # temporarily mark: use a sentinel block wrapper
        class _B:
            pass
        b = _B()
        b.name = blk.name
        b.ins = blk.ins[start:]
        b.fn = fn
        b.succ = blk.succ
        # exec_from with a start index of -1 semantic: emulate through work list
        return self._exec(fn, b, blk, prev, env, st, active)

    def _exec(self, fn, b, real, prev, env, st, active):
        stop = real.name
        # run the straight-line part of the header ourselves
        outs = []
        pend = [(0, dict(env), st)]
        while pend:
            i, env, st = pend.pop()
            ins = b.ins
            while i < len(ins):
                I = ins[i]
                op = I.op
                if op == "call":
                    cont = []
                    for o in self.call(I, env, st):
                        (cont if o.kind == "ret" else outs).append(o)
                    if not cont:
                        break
                    for o in cont[1:]:
                        e2 = dict(env)
                        if I.res is not None:
                            e2[I.res] = o.val
                        pend.append((i + 1, e2, o.st))
                    if I.res is not None:
                        env[I.res] = cont[0].val
                    st = cont[0].st
                    i += 1
                    continue
                if op == "invoke":
                    for o in self.call(I, env, st):
                        if o.kind == "ret":
                            e2 = dict(env)
                            if I.res is not None:
                                e2[I.res] = o.val
                            outs += self.exec_from(fn, fn.blocks[I.x[1]], real.name, e2, o.st, active, stop)
                        elif o.kind == "throw":
                            lp = fn.blocks[I.x[2]]
                            lpi = next((x for x in lp.ins if x.op == "landingpad"), None)
                            if lpi is not None and any(c[0] == "catch" for c in lpi.x):
                                e2 = dict(env)
                                e2["$exc"] = o.val
                                outs += self.exec_from(fn, lp, real.name, e2, o.st, active, stop)
                            else:
                                outs.append(o)
                        else:
                            outs.append(o)
                    break
                if op in ("br", "switch"):
                    work = []
                    if op == "br":
                        if len(I.x) == 1:
                            work.append((fn.blocks[I.x[0]], real.name, env, st, 0))
                        else:
                            self.branch(fn, real, I, self.val(I.ops[0], env), env, st, work)
                    else:
                        self.do_switch(fn, real, I, env, st, work)
                    for (bb, pp, ee, ss, _) in work:
                        outs += self.exec_from(fn, bb, pp, ee, ss, active, stop)
                    break
                if op == "ret":
                    outs.append(Out("ret", self.val(I.ops[0], env) if I.ops else None, st, I.loc))
                    break
                if op == "unreachable":
                    break
                if op == "resume":
                    outs.append(Out("throw", env.get("$exc"), st, I.loc))
                    break
                if op == "select" and self.fork_select:
                    alts = self.split_select(I, env, st)
                    if alts is not None:
                        for e2, s2 in alts:
                            pend.append((i + 1, e2, s2))
                        break
                self.step(I, env, st)
                i += 1
        return outs

    # ---------------------------------------------------------- instructions
    def step(self, I, env, st):
        op = I.op
        F = st.facts
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = self.val(I.ops[0], env), self.val(I.ops[1], env)
            env[I.res] = self.binop(I, op, a, b, st)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = self.val(I.ops[0], env), self.val(I.ops[1], env)
            o = op if I.ty.k == "x86_fp80" else op + "." + I.ty.k
            env[I.res] = fop(op, a, b) if o == op else self.fop_narrow(o, a, b)
            self.float_check(I, op, a, b, st)
        elif op == "fneg":
            env[I.res] = fneg(self.val(I.ops[0], env))
        elif op == "icmp":
            a, b = self.val(I.ops[0], env), self.val(I.ops[1], env)
            if not (isinstance(a, T) and isinstance(b, T)):
                env[I.res] = self.fresh("cmp", 1)
            else:
                env[I.res] = icmp(I.x, a, b, F)
        elif op == "fcmp":
            a, b = self.val(I.ops[0], env), self.val(I.ops[1], env)
            env[I.res] = fcmp(I.x, a, b, F)
        elif op in ("zext", "sext", "trunc"):
            a = self.val(I.ops[0], env)
            w = I.ty.a
            if not isinstance(a.w, int):
                a = self.fresh("int", I.ops[0].ty.a)
            env[I.res] = zext(a, w, F) if op == "zext" else sext(a, w, F) if op == "sext" else trunc(a, w, F)
        elif op in ("sitofp", "uitofp"):
            a = self.val(I.ops[0], env)
            t = itof(a, op == "sitofp", F)
            if I.ty.k == "double" and I.ops[0].ty.a > 53 or I.ty.k == "float":
                r = rng(a, F)
                if max(abs(r[2]), r[3]) > (1 << 53):
                    t = mk("fptrunc." + I.ty.k, (t,), "fp")
            env[I.res] = t
        elif op in ("fptosi", "fptoui"):
            a = self.val(I.ops[0], env)
            env[I.res] = self.fptoi(I, op, a, st)
        elif op == "fpext":
            env[I.res] = self.val(I.ops[0], env)
        elif op == "fptrunc":
            a = self.val(I.ops[0], env)
            if a.op == "fc" and isinstance(a.a[0], Fraction) and Fraction(float(a.a[0])) == a.a[0]:
                env[I.res] = a
            else:
                env[I.res] = mk("fptrunc." + I.ty.k, (a,), "fp")
        elif op in ("ptrtoint",):
            a = self.val(I.ops[0], env)
            env[I.res] = mk("ptrtoint", (a,), I.ty.a)
        elif op in ("inttoptr", "bitcast", "freeze"):
            a = self.val(I.ops[0], env)
            env[I.res] = a if op != "inttoptr" else mk("inttoptr", (a,), "ptr")
        elif op == "load":
            p = self.val(I.ops[0], env)
            env[I.res] = self.do_load(I, p, st)
        elif op == "store":
            v, p = self.val(I.ops[0], env), self.val(I.ops[1], env)
            self.do_store(I, p, v, st)
        elif op == "alloca":
            o = self.freshobj("%s.%s" % (I.fn.short, I.res))
            st.mem[o] = {}
            st.fresh.add(o)
            self.objsize[o] = self.prog.layout.size(I.x)
            env[I.res] = ptr(o, 0)
        elif op == "getelementptr":
            base = self.val(I.ops[0], env)
            off = self.gep_off(I.x, [self.val(x, env) for x in I.ops[1:]], st)
            self.gep_check(I, base, env, st)
            env[I.res] = self.gep(base, off)
        elif op == "select":
            c, a, b = (self.val(x, env) for x in I.ops)
            v = self.decide(st, c)
            if v is not None:
                env[I.res] = a if v else b
            elif isinstance(a, T) and isinstance(b, T):
                env[I.res] = ite(c, a, b)
            else:
                env[I.res] = a
        elif op == "extractvalue":
            a = self.val(I.ops[0], env)
            for ix in I.x:
                if isinstance(a, Agg):
                    a = a.v[ix]
                else:
                    L = self.prog.layout.resolve(I.ops[0].ty)
                    ty = L.a[ix]
                    nm = (a, ".%d" % ix)
                    a = sym(nm, ty.a) if ty.k == "int" else ptr(("field", a, ix), 0) if ty.k == "ptr" else sym(nm, "fp")
            env[I.res] = a
        elif op == "insertvalue":
            a, b = self.val(I.ops[0], env), self.val(I.ops[1], env)
            if isinstance(a, Agg):
                n = Agg(a.v)
            else:
                n = Agg([self.undef(x) for x in self.prog.layout.resolve(I.ops[0].ty).a])
            if len(I.x) != 1:
                raise AnalysisError("nested insertvalue")
            n.v[I.x[0]] = b
            env[I.res] = n
        elif op == "landingpad":
            env[I.res] = Agg([mk("exc", (), "ptr"), self.selector(I, env)])
        else:
            raise AnalysisError("unhandled instruction " + repr(I))

    def selector(self, I, env):
        """which clause of the landing pad takes the exception"""
        if self.catches is None:
            return self.fresh("sel", 32)
        for k, v in I.x:
            if k == "catch":
                nm = getattr(v, "v", None) if getattr(v, "k", "") == "glob" else None
                if nm is None or self.catches(env.get("$exc"), nm):
                    return const(self.type_id(nm), 32)
        return const(0, 32)

    def type_id(self, nm):
        return self.tids.setdefault(nm, len(self.tids) + 1)

    def float_check(self, I, op, a, b, st):
        pass

    def gep_check(self, I, base, env, st):
        pass

    def fop_narrow(self, o, a, b):
        base = o.split(".")[0]
        if a.op == "fc" and b.op == "fc":
            r = fop(base, a, b)
            if r.op == "fc":
                return r
        if base in ("fadd", "fmul") and b.id < a.id:
            a, b = b, a
        return mk(o, (a, b), "fp")

    def fptoi(self, I, op, a, st):
        return self.fptoi_term(a, I.ty.a, st, op)

    def fptoi_term(self, a, w, st, op="fptosi"):
        if a.op == "fc" and isinstance(a.a[0], Fraction):
            return const(int(a.a[0]), w)
        if a.op == "sitofp" and a.a[0].w <= w:
            return sext(a.a[0], w, st.facts)
        return mk(op, (a,), w)

    def binop(self, I, op, a, b, st):
        F = st.facts
        w = I.ty.a
        for x in (a, b):
            if not isinstance(x, T) or not isinstance(x.w, int):
                return self.fresh("int", w)
        if op in ("add", "sub", "mul"):
            if "nsw" in I.flags:
                self.check_overflow(I, op, a, b, st)
            if op == "add":
                return add(a, b)
            if op == "sub":
                return sub(a, b)
            return mul(a, b)
        if op in ("and", "or", "xor"):
            return bit(op, [a, b], F)
        if op in ("shl", "lshr", "ashr"):
            rb = rng(b, F)
            self.oblige("shift-range", I, rb[1] < w, "shift amount %s may reach %d for a %d-bit value" % (show(b), rb[1], w), st)
            if op == "shl" and "nsw" in I.flags:
                pass
            if op == "shl":
                return shl(a, b, F)
            if op == "lshr":
                return lshr(a, b, F)
            if rng(a, F)[2] >= 0:
                return lshr(a, b, F)
            if is_c(a) and is_c(b):
                return const(sval(a) >> cval(b), w)
            return mk("ashr", (a, b), w)
        if op in ("sdiv", "udiv", "srem", "urem"):
            rb = rng(b, F)
            nz = not (rb[0] <= 0 <= rb[1]) or self.decide(st, icmp("eq", b, const(0, w), F)) is False
            self.oblige("div-zero", I, nz, "divisor %s may be zero" % show(b), st)
            if op[0] == "s":
                ra = rng(a, F)
                bad = ra[2] == -(1 << (w - 1)) and rb[2] <= -1 <= rb[3]
                self.oblige("div-overflow", I, not bad, "INT_MIN / -1", st)
            return TT.divide(op, a, b, F)
        raise AnalysisError(op)

    def check_overflow(self, I, op, a, b, st):
        if not self.check_enabled:
            return
        w = I.ty.a
        ra, rb = rng(a, st.facts), rng(b, st.facts)
        if op == "add":
            lo, hi = ra[2] + rb[2], ra[3] + rb[3]
        elif op == "sub":
            lo, hi = ra[2] - rb[3], ra[3] - rb[2]
            if a is b:
                lo = hi = 0
        else:
            c = [x * y for x in ra[2:] for y in rb[2:]]
            lo, hi = min(c), max(c)
        ok = lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))
        if not ok:
            ok = self.overflow_excuse(I, op, a, b, st)
        self.oblige("signed-overflow", I, ok,
                    "%s %s %s ranges over [%d, %d], outside %d-bit signed" % (show(a), op, show(b), lo, hi, w), st)

    def overflow_excuse(self, I, op, a, b, st):
        return False

    def do_load(self, I, p, st):
        if I.ty.k in ("struct", "named"):
            t = self.prog.layout.resolve(I.ty)
            offs, _ = self.prog.layout.offsets(t)
            return Agg([self.load(st, self.gep(p, o), self.prog.layout.size(x), x, I) for o, x in zip(offs, t.a)])
        return self.load(st, p, self.prog.layout.size(I.ty), I.ty, I)

    def do_store(self, I, p, v, st):
        if isinstance(v, Agg):
            t = self.prog.layout.resolve(I.ops[0].ty)
            offs, _ = self.prog.layout.offsets(t)
            for o, x, y in zip(offs, t.a, v.v):
                self.store(st, self.gep(p, o), self.prog.layout.size(x), y)
            return
        self.store(st, p, self.prog.layout.size(I.ops[0].ty), v)

    # ---------------------------------------------------------------- calls
    def call(self, I, env, st):
        callee = I.x[0]
        if callee.k == "reg":
            return self.indirect(I, env, st)
        if callee.k == "asm":
            return [Out("ret", self.fresh("asm", I.ty.a if I.ty.k == "int" else "fp"), st)]
        name = callee.v
        args = [self.val(a, env) if a.k != "meta" else None for a in I.ops]
        if name.startswith("llvm."):
            return self.intrinsic(I, name, args, st)
        sh = self.prog.shortname(name)
        fn = self.prog.lookup(I.fn.mod, name)
        h = self.models.get(sh)
        if h is not None:
            r = h(self, I, args, st, fn)
            if r is not None:
                return r
        if fn is not None and self.prog.is_repo(fn):
            return self.run(fn, args, st)
        if self.default_model:
            r = self.default_model(self, I, sh, args, st, fn)
            if r is not None:
                return r
        raise AnalysisError("no model for call to %s (from %s)" % (sh, self.where()))

    def indirect(self, I, env, st):
        raise AnalysisError("indirect call in %s" % I.fn.short)

    def ret(self, I, st, v=None):
        return [Out("ret", v, st)]

    def opaque_ret(self, I, name, args, st):
        ty = I.ty
        if ty.k == "void":
            return None
        if ty.k == "int":
            return self.fresh(name, ty.a)
        if ty.k == "ptr":
            return ptr(self.freshobj(name), 0)
        if ty.k in ("struct", "named"):
            return self.fresh(name, "agg")
        return self.fresh(name, "fp")

    def intrinsic(self, I, name, args, st):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            n = args[2]
            if is_c(n):
                self.copy_mem(st, args[0], args[1], cval(n))
            else:
                self.havoc_obj(st, args[0].a[0])
            return [Out("ret", None, st)]
        if name.startswith("llvm.memset"):
            n = args[2]
            if args[0].op == "ptr" and is_c(n) and isinstance(args[0].a[1], int) and is_c(args[1]) and cval(args[1]) == 0:
                obj, off = args[0].a
                m = st.mem.setdefault(obj, {})
                for k in list(m):
                    if isinstance(k, int) and off <= k < off + cval(n):
                        del m[k]
                for k in range(off, off + cval(n), 4):
                    m[k] = (4, const(0, 32))
                st.tags[("zeroed", obj)] = (off, cval(n))
            elif args[0].op == "ptr":
                self.havoc_obj(st, args[0].a[0])
            return [Out("ret", None, st)]
        if name.startswith("llvm.eh.typeid.for") and self.catches is not None:
            return [Out("ret", const(self.type_id(str(args[0].a[0])[1:]), 32), st)]
        if name.startswith("llvm.eh.typeid.for"):
            return [Out("ret", self.fresh("typeid", 32), st)]
        if name.startswith("llvm.fabs"):
            return [Out("ret", mk("fabs", (args[0],), "fp"), st)]
        if name.startswith(("llvm.floor", "llvm.round", "llvm.ceil", "llvm.trunc", "llvm.rint", "llvm.nearbyint",
                            "llvm.sqrt", "llvm.sin", "llvm.cos", "llvm.exp", "llvm.log", "llvm.pow")):
            return [Out("ret", mk(name.split(".")[1], tuple(args), "fp"), st)]
        if name.startswith("llvm.is.fpclass"):
            return [Out("ret", mk("fpclass", (args[0], cval(args[1])), 1), st)]
        if name.startswith(("llvm.stacksave", "llvm.stackrestore", "llvm.assume", "llvm.prefetch", "llvm.va_")):
            return [Out("ret", ptr("stacksave", 0), st)]
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            a, b = args
            p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[name.split(".")[1]]
            return [Out("ret", ite(icmp(p, a, b, st.facts), a, b), st)]
        if name.startswith("llvm.expect"):
            return [Out("ret", args[0], st)]
        if name.startswith("llvm.abs"):
            a = args[0]
            if self.fork_select:
                neg = icmp("slt", a, const(0, a.w), st.facts)
                v = self.decide(st, neg)
                r = []
                for k, x in ((True, sub(const(0, a.w), a)), (False, a)):
                    s2 = st.copy() if v is None else st
                    if v is None and not self.assume(s2, neg, k) or v is (not k):
                        continue
                    r.append(Out("ret", x, s2))
                return r
            return [Out("ret", ite(icmp("slt", a, const(0, a.w), st.facts), sub(const(0, a.w), a), a), st)]
        if name.startswith(("llvm.trap", "llvm.ubsantrap")):
            return [Out("exit", "trap", st)]
        raise AnalysisError("intrinsic " + name)


# --------------------------------------------------------------------- loops
def find_loops(fn):
    """natural loops: header block name -> set of block names"""
    blocks = fn.blocks
    entry = next(iter(blocks))
    # dominators
    order, seen = [], set()
    stack = [(entry, iter(blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(blocks[s].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = list(reversed(order))
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in blocks[b].pred if p in idom and p in num]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in blocks[b].succ:
            if s in num and dom(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(p for p in blocks[x].pred if p in num)
            elif s in num and num[s] <= num[b]:
                return {}     # irreducible: paths are followed as they come, within the path budget
    return loops
