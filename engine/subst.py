"""Substitution and rebuilding of hash-consed terms."""
from terms import *
import terms as TT


def rebuild(t, a, F=None):
    """term with the operator of t and arguments a, re-normalised"""
    if t.op in ("and", "or", "xor"):
        return bit(t.op, a, F)
    if t.op == "zext":
        return zext(a[0], t.w, F)
    if t.op == "sext":
        return sext(a[0], t.w, F)
    if t.op == "trunc":
        return trunc(a[0], t.w, F)
    if t.op == "icmp" and isinstance(a[1], T) and isinstance(a[1].w, int):
        return icmp(a[0], a[1], a[2], F)
    if t.op == "fcmp":
        return fcmp(a[0], a[1], a[2], F)
    if t.op == "not":
        return bnot(a[0])
    if t.op == "ite":
        return ite(a[0], a[1], a[2])
    if t.op == "sitofp":
        return itof(a[0], True, F)
    if t.op in ("fadd", "fsub", "fmul", "fdiv"):
        return fop(t.op, a[0], a[1])
    if t.op == "mul":
        return mul(a[0], a[1])
    if t.op == "lshr":
        return lshr(a[0], a[1], F)
    if t.op == "shl":
        return shl(a[0], a[1], F)
    if t.op in ("udiv", "sdiv", "urem", "srem"):
        return TT.divide(t.op, a[0], a[1], F)
    if tuple(a) == t.a:
        return t
    return mk(t.op, tuple(a), t.w)


class Subst:
    def __init__(self, m, F=None):
        self.m, self.F = m, F
        self.memo = dict(m)
        self.names = set(m)

    def __call__(self, t):
        if isinstance(t, T):
            r = self.memo.get(t)
            if r is None:
                r = self._go(t)
                self.memo[t] = r
            return r
        if isinstance(t, tuple):
            r = tuple(self(x) for x in t)
            return t if all(x is y for x, y in zip(r, t)) else r
        if isinstance(t, list):
            return [self(x) for x in t]
        if hasattr(t, "base") and hasattr(t, "log"):
            return type(t)(self(t.base), self(t.size), self(t.log))
        if hasattr(t, "v") and type(t).__name__ == "Agg":
            return type(t)(self(t.v))
        return t

    def _go(self, t):
        if t.op in ("c", "sym", "fc", "undef", "exc"):
            return t
        if t.op == "lin":
            c, ts = t.a
            r = const(c, t.w)
            for b, k in ts:
                r = add(r, self(b), k)
            return r
        if not isinstance(t.a, tuple):
            return t
        a = [self(x) for x in t.a]
        if all(x is y for x, y in zip(a, t.a)):
            return t
        return rebuild(t, a, self.F)


def mentions(t, s, memo=None):
    """does t contain the atom s"""
    if memo is None:
        memo = {}
    if isinstance(t, T):
        if t is s:
            return True
        r = memo.get(t)
        if r is None:
            r = memo[t] = any(mentions(x, s, memo) for x in t.a) if isinstance(t.a, tuple) else False
        return r
    if isinstance(t, (tuple, list)):
        return any(mentions(x, s, memo) for x in t)
    if hasattr(t, "base") and hasattr(t, "log"):
        return mentions(t.base, s, memo) or mentions(t.size, s, memo) or mentions(t.log, s, memo)
    if type(t).__name__ == "Agg":
        return mentions(t.v, s, memo)
    return False
