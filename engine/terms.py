"""Value-number terms with interval information.

Every SSA value is abstracted to a hash-consed term; two values with the same
term are equal on every execution of the analysed path (Herbrand / global value
numbering domain).  Integer terms are kept in a linear normal form, and each
term has an interval, refined by the branch conditions collected in `facts`.
"""
from fractions import Fraction

INF = float("inf")


class T:
    __slots__ = ("op", "a", "w", "id", "_h", "_r")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, a, w):
    k = (op, a, w)
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w = op, a, w
        t._h = hash(k)
        t._r = None
        T._n += 1
        t.id = T._n
        T._tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12:
        return "…"
    if t.op == "c":
        v = t.a[0]
        if isinstance(t.w, int) and t.w > 8 and v >> (t.w - 1):
            v -= 1 << t.w
        return str(v)
    if t.op == "fc":
        v = t.a[0]
        return "%sf" % (float(v) if isinstance(v, Fraction) and abs(v) < 10**300 else v)
    if t.op == "sym":
        return str(t.a[0]) if not isinstance(t.a[0], tuple) else show(t.a[0], d + 1)
    if t.op == "lin":
        c, ts = t.a
        s = []
        for b, k in ts:
            k2 = k - (1 << t.w) if k >> (t.w - 1) else k
            s.append(("" if k2 == 1 else "-" if k2 == -1 else "%d*" % k2) + show(b, d + 1))
        c2 = c - (1 << t.w) if c >> (t.w - 1) else c
        if c2:
            s.append(str(c2))
        return "(" + " + ".join(s) + ")"
    if t.op == "ptr":
        return "&%s%s" % (show(t.a[0], d + 1), "" if t.a[1] == 0 else "+" + show(t.a[1], d + 1))
    return "%s(%s)" % (t.op, ", ".join(show(x, d + 1) for x in t.a))


def const(v, w):
    return mk("c", (v & ((1 << w) - 1),), w)


def fconst(v, kind="fp"):
    if isinstance(v, (int,)):
        v = Fraction(v)
    if isinstance(v, float) and v == v and v not in (INF, -INF) and not (v == 0 and str(v)[0] == "-"):
        v = Fraction(v)
    if isinstance(v, float):
        return mk("fc", (repr(v),), "fp")
    return mk("fc", (v,), "fp")


def sym(name, w, lo=None, hi=None):
    """opaque value; for ints an unsigned range may be attached to the name"""
    return mk("sym", (name, lo, hi), w)


def is_c(t):
    return isinstance(t, T) and t.op == "c"


def cval(t):
    return t.a[0]


def sval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- intervals
# rng(t, facts) -> (ulo, uhi, slo, shi)
def full(w):
    return (0, (1 << w) - 1, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def from_u(lo, hi, w):
    if hi < lo:
        return None
    half = 1 << (w - 1)
    if hi < half:
        return (lo, hi, lo, hi)
    if lo >= half:
        return (lo, hi, lo - 2 * half, hi - 2 * half)
    return (lo, hi, -half, half - 1)


def from_s(lo, hi, w):
    if hi < lo:
        return None
    m = 1 << w
    if lo >= 0:
        return (lo, hi, lo, hi)
    if hi < 0:
        return (lo + m, hi + m, lo, hi)
    return (0, m - 1, lo, hi)


def meet(a, b):
    if a is None or b is None:
        return None
    r = (max(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), min(a[3], b[3]))
    if r[0] > r[1] or r[2] > r[3]:
        return None
    return r


def norm(r, w):
    """propagate between the signed and unsigned halves"""
    if r is None:
        return None
    a = meet(r, from_u(r[0], r[1], w))
    if a is None:
        return None
    return meet(a, from_s(a[2], a[3], w))


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3]))


RANGES = {}  # op name -> function(term, facts) -> signed range tuple (lo, hi)


def rng(t, facts=None, depth=0):
    w = t.w
    if t.op == "c":
        v = t.a[0]
        s = sval(t)
        return (v, v, s, s)
    r = _rng(t, facts, depth)
    if facts is not None:
        f = facts.get(t)
        if f is not None:
            r2 = norm(meet(r, f), w)
            r = r2 if r2 is not None else f
        if t.op == "lin" and len(t.a[1]) > 1:
            n = _NEG.get(t)
            if n is None:
                n = _NEG[t] = scale(t, -1)
            f = facts.get(n)
            if f is not None and f[2] > -(1 << (w - 1)):
                r2 = meet(r, from_s(-f[3], -f[2], w))
                r2 = norm(r2, w) if r2 is not None else None
                r = r2 if r2 is not None else r
    return r


_NEG = {}


def _rng(t, facts, depth):
    w = t.w
    if not isinstance(w, int):
        return (0, 0, 0, 0)
    F = full(w)
    if depth > 40:
        return F
    op, a = t.op, t.a
    if op == "sym":
        lo, hi = a[1], a[2]
        if lo is None and hi is None:
            return F
        if lo is not None and lo < 0:
            return from_s(lo, hi, w)
        return from_u(lo or 0, F[1] if hi is None else hi, w)
    if op == "lin":
        c, ts = a
        # mathematical evaluation with signed coefficients, unsigned bases then signed bases
        res = F
        for base_signed in (False, True):
            for cs in ((c,) if c < (1 << (w - 1)) else (c - (1 << w), c)):
                lo = hi = cs
                for b, k in ts:
                    r = rng(b, facts, depth + 1)
                    bl, bh = (r[2], r[3]) if base_signed else (r[0], r[1])
                    k = sgn(k, w)
                    x, y = k * bl, k * bh
                    lo += min(x, y)
                    hi += max(x, y)
                if lo >= 0 and hi < (1 << w):
                    m = meet(res, from_u(lo, hi, w))
                    res = m or res
                if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    m = meet(res, from_s(lo, hi, w))
                    res = m or res
        return res
    if op == "zext":
        r = rng(a[0], facts, depth + 1)
        return from_u(r[0], r[1], w)
    if op == "sext":
        r = rng(a[0], facts, depth + 1)
        return from_s(r[2], r[3], w)
    if op == "trunc":
        r = rng(a[0], facts, depth + 1)
        if r[1] < (1 << w):
            return from_u(r[0], r[1], w)
        if r[2] >= -(1 << (w - 1)) and r[3] < (1 << (w - 1)):
            return from_s(r[2], r[3], w)
        return F
    if op == "and":
        rs = [rng(x, facts, depth + 1) for x in a]
        hi = min(r[1] for r in rs)
        return from_u(0, hi, w)
    if op in ("or", "xor"):
        rs = [rng(x, facts, depth + 1) for x in a]
        hi = 0
        for r in rs:
            hi = max(hi, r[1])
        hi = (1 << hi.bit_length()) - 1
        lo = max(r[0] for r in rs) if op == "or" else 0
        return from_u(lo, hi, w)
    if op == "lshr":
        r = rng(a[0], facts, depth + 1)
        if is_c(a[1]):
            k = cval(a[1])
            return from_u(r[0] >> k, r[1] >> k, w) if k < w else F
        s = rng(a[1], facts, depth + 1)
        return from_u(r[0] >> min(s[1], w), r[1] >> min(s[0], w), w)
    if op == "ashr" and is_c(a[1]):
        r = rng(a[0], facts, depth + 1)
        k = cval(a[1])
        return from_s(r[2] >> k, r[3] >> k, w)
    if op == "shl" and is_c(a[1]):
        r = rng(a[0], facts, depth + 1)
        k = cval(a[1])
        if (r[1] << k) < (1 << w):
            return from_u(r[0] << k, r[1] << k, w)
        return F
    if op == "udiv":
        r, s = rng(a[0], facts, depth + 1), rng(a[1], facts, depth + 1)
        return from_u(r[0] // max(s[1], 1), r[1] // max(s[0], 1), w)
    if op == "urem":
        s = rng(a[1], facts, depth + 1)
        r = rng(a[0], facts, depth + 1)
        return from_u(0, min(r[1], max(s[1] - 1, 0)), w)
    if op == "sdiv":
        r, s = rng(a[0], facts, depth + 1), rng(a[1], facts, depth + 1)
        m = max(abs(r[2]), abs(r[3]))
        if s[2] > 0:
            cand = [_tdiv(x, y) for x in (r[2], r[3]) for y in (s[2], s[3])]
            return from_s(min(cand), max(cand), w)
        return from_s(max(-m, F[2]), min(m, F[3]), w)
    if op == "srem":
        s = rng(a[1], facts, depth + 1)
        m = max(abs(s[2]), abs(s[3])) - 1
        r = rng(a[0], facts, depth + 1)
        m2 = max(abs(r[2]), abs(r[3]))
        m = max(min(m, m2), 0)
        return from_s(0 if r[2] >= 0 else -m, m if r[3] > 0 else 0, w)
    if op == "mul":
        r, s = rng(a[0], facts, depth + 1), rng(a[1], facts, depth + 1)
        c = [x * y for x in (r[2], r[3]) for y in (s[2], s[3])]
        if min(c) >= F[2] and max(c) <= F[3]:
            return from_s(min(c), max(c), w)
        c = [r[0] * s[0], r[1] * s[1]]
        if c[1] <= F[1]:
            return from_u(c[0], c[1], w)
        return F
    if op == "ite":
        return hull(rng(a[1], facts, depth + 1), rng(a[2], facts, depth + 1))
    if op in RANGES:
        return from_s(*RANGES[op](t, facts), w)
    return F


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


# ---------------------------------------------------------------- builders
def lin_parts(t):
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d, w):
    m = (1 << w) - 1
    c &= m
    d = {b: k & m for b, k in d.items() if k & m}
    if not d:
        return const(c, w)
    if c == 0 and len(d) == 1:
        (b, k), = d.items()
        if k == 1:
            return b
    return mk("lin", (c, tuple(sorted(d.items(), key=lambda x: x[0].id))), w)


def add(a, b, k=1):
    w = a.w
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for x, q in d2.items():
        d[x] = d.get(x, 0) + k * q
    return mk_lin(c1 + k * c2, d, w)


def sub(a, b):
    return add(a, b, -1)


def addc(a, n):
    return add(a, const(n, a.w))


def scale(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {x: q * n for x, q in d.items()}, a.w)


def mul(a, b):
    if is_c(a):
        return scale(b, sval(a))
    if is_c(b):
        return scale(a, sval(b))
    if b.id < a.id:
        a, b = b, a
    return mk("mul", (a, b), a.w)


def divide(op, a, b, F=None):
    """quotient or remainder"""
    w = a.w
    if op[0] == "s" and rng(a, F)[2] >= 0 and rng(b, F)[2] >= 0:
        op = "u" + op[1:]
    if is_c(b) and cval(b) == 1:
        return a if op.endswith("div") else const(0, w)
    if is_c(a) and is_c(b) and cval(b):
        x, y = (cval(a), cval(b)) if op[0] == "u" else (sval(a), sval(b))
        q = _tdiv(x, y)
        return const(q if op.endswith("div") else x - q * y, w)
    if op == "sdiv" and is_c(b) and rng(a, F)[3] <= 0 and sval(b) > 0:
        # truncation: -((-a) / b)
        return scale(divide("udiv", scale(a, -1), b, F), -1)
    if is_c(b) and cval(b) and cval(b) & (cval(b) - 1) == 0 and op in ("udiv", "urem"):
        k = cval(b).bit_length() - 1
        return lshr(a, const(k, w), F) if op == "udiv" else bit("and", [a, const(cval(b) - 1, w)], F)
    return mk(op, (a, b), w)


def zext(t, w, facts=None):
    if t.w == w:
        return t
    if is_c(t):
        return const(cval(t), w)
    if t.op == "zext":
        return zext(t.a[0], w, facts)
    if t.op == "trunc" and t.a[0].w == w:
        r = rng(t.a[0], facts)
        if r[1] < (1 << t.w):
            return t.a[0]
    if t.op == "lin":
        # distribute when no wrap is possible
        lo, hi = lin_math(t, facts, False)
        if lo is not None and lo >= 0 and hi < (1 << t.w):
            c, ts = t.a
            r = const(sgn(c, t.w), w)
            for b, k in ts:
                r = add(r, zext(b, w, facts), sgn(k, t.w))
            return r
        c, ts = t.a
        lo = hi = sgn(c, t.w)
        for b, k in ts:
            g = rng(b, facts)
            k = sgn(k, t.w)
            x, y = k * g[2], k * g[3]
            lo += min(x, y)
            hi += max(x, y)
        if lo >= 0 and hi < (1 << (t.w - 1)):
            r = const(sgn(c, t.w), w)
            for b, k in ts:
                r = add(r, sext(b, w, facts), sgn(k, t.w))
            return r
    return mk("zext", (t,), w)


def lin_math(t, facts, signed):
    """mathematical bounds of a linear term with signed coefficients"""
    best = (None, None)
    c, ts = t.a
    for bs in (False, True):
        lo = hi = sgn(c, t.w)
        for b, k in ts:
            r = rng(b, facts)
            bl, bh = (r[2], r[3]) if bs else (r[0], r[1])
            k = sgn(k, t.w)
            x, y = k * bl, k * bh
            lo += min(x, y)
            hi += max(x, y)
        # the bases are extended by zext only when they are non-negative
        if not bs or all(rng(b, facts)[2] >= 0 for b, _ in ts):
            if best[0] is None or hi - lo < best[1] - best[0]:
                best = (lo, hi)
    # a direct fact about the term narrows the bounds only if no wrap happened
    if facts is not None and t in facts and best[0] is not None:
        f = facts[t]
        m = 1 << t.w
        # unwrapped value v with v mod 2^w in [f0,f1]; if exactly one unwrapped interval matches
        ks = [q for q in range(best[0] // m, best[1] // m + 1)
              if max(best[0], f[0] + q * m) <= min(best[1], f[1] + q * m)]
        if len(ks) == 1:
            q = ks[0]
            return (max(best[0], f[0] + q * m), min(best[1], f[1] + q * m))
    return best


def sext(t, w, facts=None):
    if t.w == w:
        return t
    if is_c(t):
        return const(sval(t), w)
    if t.op == "sext":
        return sext(t.a[0], w, facts)
    if t.op == "zext":
        return zext(t.a[0], w, facts)
    r = rng(t)
    if r[2] >= 0:
        return zext(t, w, facts)
    if t.op == "trunc" and t.a[0].w == w:
        q = rng(t.a[0], facts)
        if q[2] >= -(1 << (t.w - 1)) and q[3] < (1 << (t.w - 1)):
            return t.a[0]
    if t.op == "lin":
        c, ts = t.a
        lo = hi = sgn(c, t.w)
        for b, k in ts:
            r = rng(b, facts)
            k = sgn(k, t.w)
            x, y = k * r[2], k * r[3]
            lo += min(x, y)
            hi += max(x, y)
        if lo >= -(1 << (t.w - 1)) and hi < (1 << (t.w - 1)):
            r = const(sgn(c, t.w), w)
            for b, k in ts:
                r = add(r, sext(b, w, facts), sgn(k, t.w))
            return r
    return mk("sext", (t,), w)


def trunc(t, w, facts=None):
    if t.w == w:
        return t
    if is_c(t):
        return const(cval(t), w)
    if t.op in ("zext", "sext"):
        x = t.a[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w, facts)
        return zext(x, w, facts) if t.op == "zext" else sext(x, w, facts)
    if t.op == "trunc":
        return trunc(t.a[0], w, facts)
    if t.op == "lin":
        c, ts = t.a
        r = const(c, w)
        for b, k in ts:
            r = add(r, trunc(b, w, facts), k)
        return r
    if t.op in ("and", "or", "xor"):
        return bit(t.op, [trunc(x, w, facts) for x in t.a], facts)
    if t.op == "shl" and is_c(t.a[1]):
        return shl(trunc(t.a[0], w, facts), const(cval(t.a[1]), w), facts) if cval(t.a[1]) < w else const(0, w)
    if t.op == "ite":
        return ite(t.a[0], trunc(t.a[1], w, facts), trunc(t.a[2], w, facts))
    return mk("trunc", (t,), w)


def ismask(v):
    return v & (v + 1) == 0


def bit(op, args, facts=None):
    w = args[0].w
    full_ = (1 << w) - 1
    if w > 1 and all(x.op == "zext" and x.a[0].w == 1 or x.op == "c" and x.a[0] <= 1 for x in args):
        return zext(bit(op, [x.a[0] if x.op == "zext" else const(x.a[0], 1) for x in args], facts), w, facts)
    flat = []
    for x in args:
        if x.op == op:
            flat.extend(x.a)
        else:
            flat.append(x)
    c = full_ if op == "and" else 0
    rest = []
    for x in flat:
        if is_c(x):
            c = c & cval(x) if op == "and" else c | cval(x) if op == "or" else c ^ cval(x)
        else:
            rest.append(x)
    if op in ("and", "or"):
        rest = list(dict.fromkeys(rest))
    else:
        q = {}
        for x in rest:
            q[x] = q.get(x, 0) ^ 1
        rest = [x for x, n in q.items() if n]
        if w == 1 and len(rest) == 1:
            return bnot(rest[0]) if c else rest[0]
    if op == "and":
        if c == 0:
            return const(0, w)
        if len(rest) == 1 and c != full_:
            x = rest[0]
            r = rng(x, facts)
            if ismask(c) and r[1] <= c:
                return x
            if r[0] ^ r[1] != full_:
                # bits above the highest differing bit of the bounds are known
                d = (r[0] ^ r[1]).bit_length()
                if c >> d << d == c:
                    return const(r[0] & c, w)
            if x.op == "zext":
                y = x.a[0]
                return zext(bit("and", [y, const(c & ((1 << y.w) - 1), y.w)], facts), w, facts)
            if x.op in ("or", "xor"):
                # distribute over parts whose bits are disjoint from / inside the mask
                parts = []
                for y in x.a:
                    z = bit("and", [y, const(c, w)], facts)
                    parts.append(z)
                if all(p.op != "and" for p in parts):
                    return bit(x.op, parts, facts)
                if ismask(c):
                    nz = [p for p in parts if not (is_c(p) and cval(p) == 0)]
                    if len(nz) < len(parts):
                        return bit(x.op, nz, facts) if len(nz) > 1 else (nz[0] if nz else const(0, w))
            if x.op == "shl" and is_c(x.a[1]):
                k = cval(x.a[1])
                if c & (full_ ^ ((1 << k) - 1)) == 0:
                    return const(0, w)
                hi = (rng(x.a[0], facts)[1] << k)
                if hi <= full_ and ismask(c | ((1 << k) - 1)) and hi <= (c | ((1 << k) - 1)):
                    return x
            if x.op == "lin" and ismask(c):
                # (t + m*2^k) & (2^j-1) with m*2^k multiple of c+1
                cc, ts = x.a
                m = c + 1
                y = mk_lin(_small(cc % m, m), {b: _small(k % m, m) for b, k in ts}, w)
                if y is not x:
                    return bit("and", [y, const(c, w)], facts)
            if x.op == "lshr" and is_c(x.a[1]):
                r = rng(x, facts)
                if r[1] <= c and ismask(c):
                    return x
    if op == "or" and c == full_:
        return const(c, w)
    ident = full_ if op == "and" else 0
    out = sorted(rest, key=lambda x: x.id)
    if c != ident:
        out.append(const(c, w))
    if not out:
        return const(c, w)
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(out), w)


def _small(k, m):
    k %= m
    return k - m if k > m // 2 else k


def lshr(t, s, facts=None):
    w = t.w
    if is_c(s):
        k = cval(s)
        if k == 0:
            return t
        if k >= w:
            return const(0, w)
        if is_c(t):
            return const(cval(t) >> k, w)
        r = rng(t, facts)
        if r[1] >> k == 0:
            return const(0, w)
        if t.op == "zext":
            return zext(lshr(t.a[0], const(k, t.a[0].w), facts), w, facts)
        if t.op == "lshr" and is_c(t.a[1]):
            return lshr(t.a[0], const(k + cval(t.a[1]), w), facts)
        if t.op == "shl" and is_c(t.a[1]):
            j = cval(t.a[1])
            if (rng(t.a[0], facts)[1] << j) < (1 << w):
                return lshr(t.a[0], const(k - j, w), facts) if k >= j else shl(t.a[0], const(j - k, w), facts)
        if t.op in ("or", "xor"):
            return bit(t.op, [lshr(x, s, facts) for x in t.a], facts)
        if t.op == "and" and len(t.a) == 2 and is_c(t.a[1]):
            return bit("and", [lshr(t.a[0], s, facts), const(cval(t.a[1]) >> k, w)], facts)
        if t.op == "lin":
            # high*2^k + low with low < 2^k
            c, d = lin_parts(t)
            m = 1 << k
            hi = {x: q // m for x, q in d.items() if q % m == 0}
            if hi:
                lo = mk_lin(c % m, {x: q for x, q in d.items() if q % m}, w)
                if rng(lo, facts)[1] < m:
                    h = mk_lin(c // m, hi, w)
                    return zext(trunc(h, w - k, facts), w, facts)
    return mk("lshr", (t, s), w)


def shl(t, s, facts=None):
    w = t.w
    if is_c(s):
        k = cval(s)
        if k == 0:
            return t
        if k >= w:
            return const(0, w)
        if is_c(t):
            return const(cval(t) << k, w)
        return scale(t, 1 << k) if t.op != "or" else bit("or", [shl(x, s, facts) for x in t.a], facts)
    return mk("shl", (t, s), w)


def ite(c, a, b):
    if is_c(c):
        return a if cval(c) else b
    if a is b:
        return a
    if a.w == 1 and is_c(a) and is_c(b):
        return c if cval(a) == 1 else bnot(c)
    return mk("ite", (c, a, b), a.w)


# --------------------------------------------------------------- predicates
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
FNEG = {"oeq": "une", "une": "oeq", "olt": "uge", "uge": "olt", "ogt": "ule", "ule": "ogt", "ole": "ugt",
        "ugt": "ole", "oge": "ult", "ult": "oge", "one": "ueq", "ueq": "one", "ord": "uno", "uno": "ord"}
FSWAP = {"oeq": "oeq", "une": "une", "one": "one", "ueq": "ueq", "olt": "ogt", "ogt": "olt", "ole": "oge",
         "oge": "ole", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "ord": "ord", "uno": "uno"}


def bnot(t):
    if is_c(t):
        return const(1 - cval(t), 1)
    if t.op == "icmp":
        return icmp(NEG[t.a[0]], t.a[1], t.a[2])
    if t.op == "fcmp":
        return fcmp(FNEG[t.a[0]], t.a[1], t.a[2])
    if t.op == "not":
        return t.a[0]
    return mk("not", (t,), 1)


def icmp(p, a, b, facts=None):
    if a is b:
        return const(1 if p in ("eq", "ule", "uge", "sle", "sge") else 0, 1)
    if a.w == 1 and b.w == 1 and p in ("eq", "ne") and a.op != "ptr" and b.op != "ptr":
        x = bit("xor", [a, b], facts)
        return bnot(x) if p == "eq" else x
    if not (isinstance(a.w, int) and isinstance(b.w, int)):
        # pointers
        if a.op == "ptr" and b.op == "ptr":
            if a.a[0] != b.a[0]:
                return const(0 if p == "eq" else 1, 1)
            if p in ("eq", "ne") and isinstance(a.a[1], int) and isinstance(b.a[1], int):
                return const(int((a.a[1] == b.a[1]) == (p == "eq")), 1)
        if {a.op, b.op} == {"ptr", "null"}:
            return const(0 if p == "eq" else 1, 1)
        if a.op == "iter" and b.op == "iter" and a.a[0] == b.a[0] and is_c(a.a[1]) and is_c(b.a[1]) and p in ("eq", "ne"):
            return const(int((cval(a.a[1]) == cval(b.a[1])) == (p == "eq")), 1)
        if p in ("eq", "ne"):
            if b.id < a.id:
                a, b = b, a
            t = mk("icmp", ("eq", a, b), 1)
            return t if p == "eq" else mk("not", (t,), 1)
        return mk("icmp", (p, a, b), 1)
    ra, rb = rng(a, facts), rng(b, facts)
    v = _cmp_rng(p, ra, rb)
    if v is not None:
        return const(v, 1)
    if is_c(a) and not is_c(b):
        a, b, p = b, a, SWAP[p]
        ra, rb = rb, ra
    # strip extensions against constants
    if is_c(b):
        k = cval(b)
        if a.op == "zext" and p in ("eq", "ne", "ult", "ule", "ugt", "uge") and k < (1 << a.a[0].w):
            return icmp(p, a.a[0], const(k, a.a[0].w), facts)
        if a.op == "zext" and p in ("slt", "sle", "sgt", "sge") and 0 <= sval(b) < (1 << a.a[0].w):
            return icmp({"slt": "ult", "sle": "ule", "sgt": "ugt", "sge": "uge"}[p], a.a[0],
                        const(k, a.a[0].w), facts)
        if a.op == "sext" and p in ("eq", "ne", "slt", "sle", "sgt", "sge"):
            s, n = sval(b), a.a[0].w
            if -(1 << (n - 1)) <= s < (1 << (n - 1)):
                return icmp(p, a.a[0], const(s, n), facts)
        if a.op == "and" and p in ("eq", "ne") and k and k & (k - 1) == 0 and is_c(a.a[-1]) and cval(a.a[-1]) == k:
            return icmp("ne" if p == "eq" else "eq", a, const(0, a.w), facts)
        if a.op == "lin" and p in ("eq", "ne"):
            c, ts = a.a
            if len(ts) == 1 and ts[0][1] == 1:
                return icmp(p, ts[0][0], const(k - c, a.w), facts)
            if c:
                return icmp(p, mk_lin(0, dict(ts), a.w), const(k - c, a.w), facts)
        if a.op == "ite" and p in ("eq", "ne") and is_c(a.a[1]) and is_c(a.a[2]):
            t1, t2 = a.a[1] is b, a.a[2] is b
            if p == "ne":
                t1, t2 = not t1, not t2
            return ite(a.a[0], const(int(t1), 1), const(int(t2), 1))
        # canonical strictness: use lt / ge with constants
        if p in ("ule",) and k < (1 << a.w) - 1:
            return icmp("ult", a, const(k + 1, a.w), facts)
        if p in ("ugt",) and k < (1 << a.w) - 1:
            return icmp("uge", a, const(k + 1, a.w), facts)
        if p in ("sle",) and sval(b) < (1 << (a.w - 1)) - 1:
            return icmp("slt", a, const(k + 1, a.w), facts)
        if p in ("sgt",) and sval(b) < (1 << (a.w - 1)) - 1:
            return icmp("sge", a, const(k + 1, a.w), facts)
        # prefer eq/ne for boundary tests
        if p == "ult" and k == 1:
            return icmp("eq", a, const(0, a.w), facts)
        if p == "uge" and k == 1:
            return icmp("ne", a, const(0, a.w), facts)
        # signedness does not matter for known non-negative values
        if p in ("slt", "sge") and ra[2] >= 0 and sval(b) >= 0:
            return icmp({"slt": "ult", "sge": "uge"}[p], a, b, facts)
    else:
        if p in ("eq", "ne"):
            if a.op == b.op == "zext" and a.a[0].w == b.a[0].w or a.op == b.op == "sext" and a.a[0].w == b.a[0].w:
                return icmp(p, a.a[0], b.a[0], facts)
            d = sub(a, b)
            if is_c(d):
                return const(int((cval(d) == 0) == (p == "eq")), 1)
            if b.id < a.id:
                a, b = b, a
        else:
            if a.op == b.op == "sext" and p[0] == "s" and a.a[0].w == b.a[0].w:
                return icmp(p, a.a[0], b.a[0], facts)
            if a.op == b.op == "zext" and a.a[0].w == b.a[0].w:
                return icmp("u" + p[1:], a.a[0], b.a[0], facts)
            if p in ("ugt", "ule", "sgt", "sle"):
                a, b, p = b, a, SWAP[p]
            d = _lin_cmp(p, a, b, facts)
            if d is not None:
                return const(d, 1)
    if p in ("ne",):
        return mk("icmp", ("ne", a, b), 1)
    return mk("icmp", (p, a, b), 1)


def _lin(t):
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _lin_cmp(p, a, b, facts):
    """order of two sums with common terms, when neither sum wraps"""
    if a.op != "lin" and b.op != "lin":
        return None
    w, sg = a.w, p[0] == "s"
    lo_ok, hi_ok = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

    def signed(k):
        return k - (1 << w) if k >> (w - 1) & 1 else k
    parts = []
    for t in (a, b):
        c, ts = _lin(t)
        parts.append((signed(c & ((1 << w) - 1)), {k: signed(v & ((1 << w) - 1)) for k, v in ts.items()}))
    if not set(parts[0][1]) & set(parts[1][1]):
        return None

    def span(c, ts):
        lo = hi = c
        for t, k in ts.items():
            r = rng(t, facts)
            x, y = (r[2], r[3]) if sg else (r[0], r[1])
            lo += min(k * x, k * y)
            hi += max(k * x, k * y)
        return lo, hi
    for c, ts in parts:
        lo, hi = span(c, ts)
        if lo < lo_ok or hi > hi_ok:
            return None
    ts = dict(parts[0][1])
    for t, k in parts[1][1].items():
        ts[t] = ts.get(t, 0) - k
    lo, hi = span(parts[0][0] - parts[1][0], {t: k for t, k in ts.items() if k})
    if p[1:] == "lt":
        return 1 if hi < 0 else 0 if lo >= 0 else None
    if p[1:] == "ge":
        return 1 if lo >= 0 else 0 if hi < 0 else None
    return None


def _cmp_rng(p, a, b):
    if p == "eq":
        if a[0] == a[1] == b[0] == b[1]:
            return 1
        if a[1] < b[0] or b[1] < a[0] or a[3] < b[2] or b[3] < a[2]:
            return 0
    elif p == "ne":
        r = _cmp_rng("eq", a, b)
        return None if r is None else 1 - r
    elif p == "ult":
        if a[1] < b[0]:
            return 1
        if a[0] >= b[1]:
            return 0
    elif p == "slt":
        if a[3] < b[2]:
            return 1
        if a[2] >= b[3]:
            return 0
    elif p in ("uge", "sge"):
        r = _cmp_rng(p[0] + "lt", a, b)
        return None if r is None else 1 - r
    elif p in ("ugt", "sgt"):
        return _cmp_rng(p[0] + "lt", b, a)
    elif p in ("ule", "sle"):
        r = _cmp_rng(p[0] + "lt", b, a)
        return None if r is None else 1 - r
    return None


def int_of(x):
    if x.op == "sitofp" and x.a[0].w <= 63:
        return x.a[0]
    if x.op == "uitofp" and x.a[0].w <= 32:
        return zext(x.a[0], 64)
    if x.op == "fc" and isinstance(x.a[0], Fraction) and x.a[0].denominator == 1 and abs(x.a[0]) < (1 << 62):
        v = int(x.a[0])
        return const(v, 64 if abs(v) >= (1 << 31) else 32)
    return None


def fcmp(p, a, b, facts=None):
    if a.op == "fc" and b.op == "fc" and isinstance(a.a[0], Fraction) and isinstance(b.a[0], Fraction):
        x, y = a.a[0], b.a[0]
        q = p[1:]
        if q in ("eq", "ne", "lt", "le", "gt", "ge") and p not in ("one",):
            return const(int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q]), 1)
    if p in ("ogt", "oge", "ugt", "uge"):
        a, b, p = b, a, FSWAP[p]
    if p in ("oeq", "une", "one", "ueq") and b.id < a.id:
        a, b = b, a
    # operands are never NaN (results of the conversion primitives and of checked maths)
    if p == "ueq":
        p = "oeq"
    if p == "one":
        p = "une"
    # comparison of exact integers
    ia, ib = int_of(a), int_of(b)
    if ia is not None and ib is not None and p in ("oeq", "une", "olt", "ole", "ult", "ule"):
        w = max(ia.w, ib.w)
        return icmp({"oeq": "eq", "une": "ne", "olt": "slt", "ult": "slt", "ole": "sle", "ule": "sle"}[p],
                    sext(ia, w, facts), sext(ib, w, facts), facts)
    if p == "une":
        return mk("not", (mk("fcmp", ("oeq", a, b), 1),), 1)
    if p in ("ole",):   # a <= b  is  not (b < a)
        return mk("not", (mk("fcmp", ("olt", b, a), 1),), 1)
    if p == "ule":   # not (b < a)
        return mk("not", (mk("fcmp", ("olt", b, a), 1),), 1)
    if p == "ult":
        return mk("fcmp", ("olt", a, b), 1)
    return mk("fcmp", (p, a, b), 1)


# ------------------------------------------------------------ floating point
def fop(op, a, b):
    if op in ("fadd", "fmul") and b.id < a.id:
        a, b = b, a
    if a.op == "fc" and b.op == "fc" and isinstance(a.a[0], Fraction) and isinstance(b.a[0], Fraction):
        x, y = a.a[0], b.a[0]
        # fold only when exact in 53 bits
        r = None
        if op == "fadd":
            r = x + y
        elif op == "fsub":
            r = x - y
        elif op == "fmul":
            r = x * y
        elif op == "fdiv" and y != 0:
            r = x / y
        if r is not None and (r == 0 or Fraction(float(r)) == r):
            return fconst(r)
    return mk(op, (a, b), "fp")


def fneg(a):
    if a.op == "fneg":
        return a.a[0]
    if a.op == "fc" and isinstance(a.a[0], Fraction) and a.a[0] != 0:
        return fconst(-a.a[0])
    return mk("fneg", (a,), "fp")


def itof(t, signed=True, facts=None):
    if is_c(t):
        return fconst(sval(t) if signed else cval(t))
    if not signed and isinstance(t.w, int) and rng(t, facts)[2] >= 0:
        signed = True
    if t.op in ("sext",) and signed:
        t = t.a[0]
    elif t.op == "zext":
        return itof(t.a[0], rng(t.a[0], facts)[2] >= 0, facts)
    return mk("sitofp" if signed else "uitofp", (t,), "fp")


PTR0 = mk("null", (), "ptr")


def ptr(obj, off=0):
    if isinstance(off, T) and is_c(off):
        off = sval(off)
    return mk("ptr", (obj, off), "ptr")
