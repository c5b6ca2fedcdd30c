"""Value of a term under an assignment of its free symbols.

Used only to confirm that two unequal normal forms really denote different
functions: a difference that no assignment separates is not reported."""
from fractions import Fraction
from math import floor as ffloor
from terms import *
import hashlib

INFP, INFN, NAN, NZ = "inf", "-inf", "nan", "-0"
SPECIAL = (INFP, INFN, NAN, NZ)


class NoValue(Exception):
    pass


def num(v):
    """numeric value of a finite float value"""
    if v == NZ:
        return Fraction(0)
    if v in (INFP, INFN, NAN):
        raise NoValue(v)
    return v


def neg_bit(v):
    if v in (INFN, NZ):
        return True
    if v in (INFP, NAN):
        return False
    return v < 0


def fromfloat(x):
    if x == float("inf"):
        return INFP
    if x == -float("inf"):
        return INFN
    if x != x:
        return NAN
    return Fraction(x)


def exp2of(x):
    """e with 2^(e-1) <= |x| < 2^e"""
    a, b = abs(x).numerator, abs(x).denominator
    e = a.bit_length() - b.bit_length()
    if abs(x) >= Fraction(2) ** e:
        e += 1
    return e


def rnd(x, bits=64, emin=-16445, emax=16384):
    """x rounded to a binary format, ties to even"""
    if x == 0:
        return x
    q = max(exp2of(x) - bits, emin)
    s = x / Fraction(2) ** q
    f = ffloor(s)
    d = s - f
    if d > Fraction(1, 2) or d == Fraction(1, 2) and f & 1:
        f += 1
    r = Fraction(f) * Fraction(2) ** q
    if abs(r) >= Fraction(2) ** emax:
        return INFP if r > 0 else INFN
    return r


def neg(v):
    t = {INFP: INFN, INFN: INFP, NAN: NAN, NZ: Fraction(0)}
    if v in t:
        return t[v]
    return NZ if v == 0 else -v


def cmpv(p, a, b):
    un = a == NAN or b == NAN
    if un:
        return p[0] == "u" and p != "uno" or p == "uno"
    key = lambda v: (1, 0) if v == INFP else (-1, 0) if v == INFN else (0, num(v))
    x, y = key(a), key(b)
    r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}
    if p == "ord":
        return True
    if p == "uno":
        return False
    return r[p[1:]]


class Ev:
    """evaluator; env maps symbol terms to values, anything uninterpreted is
    given an arbitrary but consistent value"""

    def __init__(self, env, salt=0):
        self.env, self.memo, self.salt = dict(env), {}, salt

    def __call__(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self(x) for x in t)
            return t
        v = self.memo.get(t)
        if v is None:
            v = self.memo[t] = self.ev(t)
        return v

    def u(self, v, w):
        return v & ((1 << w) - 1)

    def free(self, t):
        """value of an uninterpreted term"""
        a = tuple(self(x) for x in t.a) if t.op != "sym" else t.a
        h = int.from_bytes(hashlib.sha256(repr((self.salt, t.op, a, t.w)).encode()).digest()[:12], "big")
        if t.w == "fp":
            k = h % 7
            return Fraction([0, 1, -1, h % 1000, -(h % 1000), Fraction(h % 99991, 64), Fraction(-(h % 99991), 32)][k])
        if not isinstance(t.w, int):
            raise NoValue(t.op)
        r = rng(t)
        lo, hi = r[2], r[3]
        m = [lo, hi, 0, 1, -1, lo + 1, hi - 1][h % 7] if h % 5 < 2 else lo + (h >> 3) % (hi - lo + 1)
        if h % 11 < 4:
            m = (h >> 5) % 41 - 20
        return self.u(min(max(m, lo), hi), t.w)

    def ev(self, t):
        op, w = t.op, t.w
        if t in self.env:
            return self.env[t]
        if op == "c":
            return t.a[0]
        if op == "fc":
            v = t.a[0]
            return v if isinstance(v, Fraction) else fromfloat(v)
        f = getattr(self, "op_" + op.replace(".", "_"), None)
        if f is None:
            if op.startswith("fptrunc"):
                v = self(t.a[0])
                if v in SPECIAL:
                    return v
                b = (53, -1074, 1024) if "double" in op else (24, -149, 128)
                return rnd(v, *b)
            if op.endswith(".double") and op[:-7] in ("fadd", "fsub", "fmul", "fdiv"):
                return self.dbl(t, {"fadd": lambda a, b: a + b, "fsub": lambda a, b: a - b, "fmul": lambda a, b: a * b,
                                    "fdiv": lambda a, b: a / b if b else self.none()}[op[:-7]])
            if isinstance(w, int) or op in ("x2r",):
                return self.free(t)     # a read of memory or another opaque word
            raise NoValue(op)
        return f(t)

    def none(self):
        raise NoValue("division by zero")

    def s(self, t):
        return sgn(self(t), t.w)

    def op_sym(self, t):
        return self.free(t)

    def op_lin(self, t):
        c, ts = t.a
        return self.u(c + sum(k * self(b) for b, k in ts), t.w)

    def op_mul(self, t):
        r = 1
        for x in t.a:
            r *= self(x)
        return self.u(r, t.w)

    def op_and(self, t):
        r = -1
        for x in t.a:
            r &= self(x)
        return self.u(r, t.w)

    def op_or(self, t):
        r = 0
        for x in t.a:
            r |= self(x)
        return r

    def op_xor(self, t):
        r = 0
        for x in t.a:
            r ^= self(x)
        return r

    def op_shl(self, t):
        n = self(t.a[1])
        return self.u(self(t.a[0]) << n, t.w) if n < t.w else 0

    def op_lshr(self, t):
        n = self(t.a[1])
        return self(t.a[0]) >> n if n < t.w else 0

    def op_ashr(self, t):
        return self.u(self.s(t.a[0]) >> min(self(t.a[1]), t.w), t.w)

    def op_zext(self, t):
        return self(t.a[0])

    def op_sext(self, t):
        return self.u(self.s(t.a[0]), t.w)

    def op_trunc(self, t):
        return self.u(self(t.a[0]), t.w)

    def op_udiv(self, t):
        b = self(t.a[1])
        return self(t.a[0]) // b if b else self.free(t)

    def op_urem(self, t):
        b = self(t.a[1])
        return self(t.a[0]) % b if b else self.free(t)

    def op_sdiv(self, t):
        a, b = self.s(t.a[0]), self.s(t.a[1])
        if not b:
            raise NoValue("division by zero")
        q = abs(a) // abs(b)
        return self.u(q if (a < 0) == (b < 0) else -q, t.w)

    def op_srem(self, t):
        a, b = self.s(t.a[0]), self.s(t.a[1])
        if not b:
            raise NoValue("division by zero")
        r = abs(a) % abs(b)
        return self.u(-r if a < 0 else r, t.w)

    def op_ite(self, t):
        return self(t.a[1] if self(t.a[0]) else t.a[2])

    def op_not(self, t):
        return 1 - self(t.a[0])

    def op_icmp(self, t):
        p, a, b = t.a
        if not isinstance(a.w, int):
            return self.free(t)
        if p in ("eq", "ne"):
            r = self(a) == self(b)
            return int(r == (p == "eq"))
        x, y = (self.s(a), self.s(b)) if p[0] == "s" else (self(a), self(b))
        return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]])

    def op_fcmp(self, t):
        p, a, b = t.a
        return int(cmpv(p, self(a), self(b)))

    # ---- reals
    def arith(self, t, f):
        a, b = self(t.a[0]), self(t.a[1])
        if a in (INFP, INFN, NAN) or b in (INFP, INFN, NAN):
            raise NoValue("special")
        return rnd(f(num(a), num(b)))

    def op_fadd(self, t):
        return self.arith(t, lambda a, b: a + b)

    def op_fsub(self, t):
        return self.arith(t, lambda a, b: a - b)

    def op_fmul(self, t):
        return self.arith(t, lambda a, b: a * b)

    def op_fdiv(self, t):
        if num(self(t.a[1])) == 0:
            raise NoValue("special")
        return self.arith(t, lambda a, b: a / b)

    def op_pow(self, t):
        a, b = self(t.a[0]), self(t.a[1])
        if b in (INFP, INFN, NAN) or num(b).denominator != 1 or num(a) <= 0 or abs(num(b)) > 5000:
            raise NoValue("power")
        return rnd(num(a) ** int(num(b)))

    def op_log10(self, t):
        from decimal import Decimal, localcontext
        a = self(t.a[0])
        if a in SPECIAL or a <= 0:
            raise NoValue("logarithm")
        with localcontext() as c:
            c.prec = 60
            return rnd(Fraction(Decimal(a.numerator).log10() - Decimal(a.denominator).log10()))

    def dbl(self, t, f):
        a, b = self(t.a[0]), self(t.a[1])
        if a in (INFP, INFN, NAN) or b in (INFP, INFN, NAN):
            raise NoValue("special")
        return rnd(f(num(a), num(b)), 53, -1074, 1024)

    def op_fneg(self, t):
        return neg(self(t.a[0]))

    def op_fabs(self, t):
        v = self(t.a[0])
        return neg(v) if neg_bit(v) else v

    def op_signbit(self, t):
        return int(neg_bit(self(t.a[0])))

    def op_fpclass(self, t):
        v, m = self(t.a[0]), t.a[1]
        c = 3 if v == NAN else 4 if v == INFN else 512 if v == INFP else 32 if v == NZ else 64 if v == 0 else 8 if v < 0 else 256
        return int(bool(m & c))

    def op_fmant(self, t):
        v = self(t.a[0])
        if v in SPECIAL or v == 0:
            return v
        return v / Fraction(2) ** exp2of(v)

    def op_fexp(self, t):
        v = self(t.a[0])
        if v in (INFP, INFN, NAN):
            raise NoValue("special")
        return self.u(0 if v == NZ or v == 0 else exp2of(v), 32)

    def op_ldexp(self, t):
        v = self(t.a[0])
        if v in SPECIAL or v == 0:
            return v
        return rnd(v * Fraction(2) ** sgn(self(t.a[1]), t.a[1].w))

    op_scalbn = op_ldexp

    def rounded(self, t, f):
        v = self(t.a[0])
        if v in SPECIAL:
            return v
        r = Fraction(f(v))
        return r if r or v >= 0 else NZ

    def op_floor(self, t):
        return self.rounded(t, ffloor)

    def op_ceil(self, t):
        return self.rounded(t, lambda v: -ffloor(-v))

    def op_round(self, t):
        return self.rounded(t, lambda v: ffloor(v + Fraction(1, 2)) if v >= 0 else -ffloor(-v + Fraction(1, 2)))

    def op_rint(self, t):
        return self.rounded(t, lambda v: round(v))

    op_nearbyint = op_rint

    def toint(self, t):
        v = self(t.a[0])
        if v in (INFP, INFN, NAN):
            raise NoValue("special")
        v = num(v)
        return int(v) if v >= 0 else -int(-v)

    def op_fptosi(self, t):
        v = self.toint(t)
        if not -(1 << (t.w - 1)) <= v < 1 << (t.w - 1):
            raise NoValue("range")
        return self.u(v, t.w)

    def op_fptoui(self, t):
        v = self.toint(t)
        if not 0 <= v < 1 << t.w:
            raise NoValue("range")
        return v

    def op_sitofp(self, t):
        return Fraction(self.s(t.a[0]))

    def op_uitofp(self, t):
        return Fraction(self(t.a[0]))

    # ---- words
    def op_x2i(self, t):
        v = self(t.a[0])
        if v >> 27:
            raise NoValue("word")
        return self.u(-(v ^ ((1 << 27) - 1)) if v >> 26 else v, 32)

    def op_i2x(self, t):
        v = self.s(t.a[0])
        if abs(v) >= 1 << 26:
            raise NoValue("range")
        return v if v >= 0 else (-v) ^ ((1 << 27) - 1)

    def op_int27(self, t):
        return int(abs(self.s(t.a[0])) < 1 << 26)

    def op_w2r(self, t):
        return self(t.a[0]) << 27 | self(t.a[1])

    def op_x2r(self, t):
        v = self(t.a[0])
        n = v >> 53
        if n:
            v ^= (1 << 54) - 1
        m = (v >> 27) << 14 | (v >> 12) & 0x3fff
        r = Fraction(m) * Fraction(2) ** ((v & 4095) - 2048 - 40)
        return neg(r) if n else r

    def op_realfit(self, t):
        v = self(t.a[0])
        if v in (INFP, INFN, NAN):
            return 0
        v = num(v)
        return int(v == 0 or exp2of(rnd(v, 40)) < 2048)

    def op_r2x(self, t):
        v = self(t.a[0])
        if v in (INFP, INFN, NAN):
            raise NoValue("special")
        n = neg_bit(v)
        a = abs(num(v))
        z = (1 << 54) - 1 if n else 0
        if a == 0:
            return z
        e = exp2of(a)
        m = ffloor(a / Fraction(2) ** (e - 40) + Fraction(1, 2))
        if m == 1 << 40:
            m >>= 1
            e += 1
        if e > 2047:
            raise NoValue("range")
        if e < -2048:
            return z
        r = (m >> 14) << 27 | (m & 0x3fff) << 12 | (e + 2048)
        return r ^ z

    def op_sel(self, t):
        return self.free(t)


def holds(st, ev):
    """does the path with these facts and predicates admit the assignment"""
    for p, v in st.preds.items():
        if bool(ev(p)) != v:
            return False
    for t, f in st.facts.items():
        if isinstance(t, T) and isinstance(t.w, int):
            v = ev(t)
            s = sgn(v, t.w)
            if not (f[0] <= v <= f[1] and f[2] <= s <= f[3]):
                return False
    return True
