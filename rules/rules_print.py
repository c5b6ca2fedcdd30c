"""Layout of printed numbers: every (n, m) within the limits, any value."""
from rules_prim import *
from models import emit_out
from spec import run_spec

OS = ptr("OS", 0)
X = sym("x", "fp")
TEN = fconst(10)
HALF = fconst(0.5)
ONE = fconst(1)
SIGNED = sym("need_sign", 1)


def pow10(k):
    return mk("pow", (TEN, fconst(k) if isinstance(k, int) else k), "fp")


def text(m, s):
    emit_out(m.st, OS.a, "text", ("text", s))


def fixed_ref(n, k):
    """n digits before and k after the point"""
    def f(m):
        signed = m.test(SIGNED)
        x, s = X, "+" if signed else " "
        if m.test(mk("signbit", (x,), 1)):
            s = "-" if signed else " "
            x = fneg(x)
        x = fop("fadd", x, fop("fdiv", HALF, pow10(k)))
        if 0 < n <= 21:
            x = fop("fdiv", x, pow10(n))
        if n < 0 or k < 0 or not 1 <= n + k <= 21 or m.test(fcmp("oge", x, ONE)):
            m.event("floating", const(13, 32), const(3, 32), X)
            return
        text(m, s)
        lead = True
        for i in range(n + k):
            x = fop("fmul", x, TEN)
            d = real2int(m, x)
            x = fop("fsub", x, mk("sitofp", (d,), "fp"))
            if i == n - 1:
                lead = False
            if i == n and k > 0:
                text(m, ".")
            if lead and m.eq(d, const(0, 32)):
                text(m, " ")
            else:
                lead = False
                emit_out(m.st, OS.a, "int", d)
        text(m, " ")
    return f


def float_ref(n0, k0):
    def f(m):
        n, k = (n0, k0) if 1 <= n0 <= 13 and 1 <= k0 <= 3 else (13, 3)
        while True:
            x, s = X, "+"
            if m.test(mk("signbit", (x,), 1)):
                x, s = fneg(x), "-"
            if m.test(fcmp("oeq", x, fconst(0))):
                e = const(0, 32)
            else:
                lg = mk("floor", (mk("fptrunc.double", (mk("log10", (x,), "fp"),), "fp"),), "fp")
                e = real2int(m, mk("fadd.double", (ONE, lg), "fp"))
            if not m.eq(e, const(0, 32)):
                x = fop("fdiv", x, pow10(mk("sitofp", (e,), "fp")))
            x = fop("fadd", x, fop("fdiv", HALF, pow10(n)))
            if m.test(fcmp("oge", x, ONE)):
                x = fop("fdiv", x, TEN)
                e = addc(e, 1)
            lim = 10 ** k - 1
            F = m.st.facts
            if k < 3 and (m.test(icmp("sgt", e, const(lim, 32), F)) or m.test(icmp("slt", e, const(-lim, 32), F))):
                n, k = 13, 3
                continue
            break
        text(m, s + ".")
        for i in range(n):
            x = fop("fmul", x, TEN)
            d = real2int(m, x)
            x = fop("fsub", x, mk("sitofp", (d,), "fp"))
            emit_out(m.st, OS.a, "int", d)
        text(m, "\u23e8")
        F = m.st.facts
        if m.test(icmp("slt", e, const(0, 32), F)):
            text(m, "-")
            e = sub(const(0, 32), e)
        else:
            text(m, "+")
        lead = True
        for i in reversed(range(k)):
            d = divide("sdiv", e, const(10 ** i, 32), F) if i else e
            d = divide("srem", d, const(10, 32), F)
            if i and lead and m.eq(d, const(0, 32)):
                text(m, " ")
            else:
                lead = False
                emit_out(m.st, OS.a, "int", d)
        text(m, " ")
    return f


VALUES = [Fraction(a) for a in ("0", "1", "-1", "7", "9.5", "99.5", "0.5", "-0.25", "0.9375", "123.456", "-99999.9", "0.001", "0.0001220703125",
                                "999999", "1000000", "12345678901", "-8", "100", "0.09999", "0.1", "5e30", "-3e-20", "7e120", "2e-130", "40", "1050", "10", "0.96",
                                "5e8", "5e9", "-5e-10", "5e-11", "5e98", "-5e99", "5e-100", "5e-101", "3e104", "3e-105", "3e500", "-3e-500", "4e200", "9.9999999999999e9")]


@group("printnum")
def _(sim):
    plain = lambda: sim.init_state(frame=None)
    pts = [{X: x, SIGNED: b} for x in VALUES for b in (1, 0)]
    r = []
    K = dict(points=pts, result=False, cut=40)
    lims = [(n, k) for n in range(-1, 23) for k in range(-1, 23) if n + k <= 22]
    for n, k in lims:
        r.append(Prim("Machine::print_fixed_point", "%d digits before and %d after the point" % (n, k),
                      [OS, const(n, 32), const(k, 32), X, SIGNED], fixed_ref(n, k), plain, **K))
    for n in range(0, 15):
        for k in range(0, 5):
            r.append(Prim("Machine::print_floating_point", "%d digits, %d exponent digits" % (n, k),
                          [OS, const(n, 32), const(k, 32), X], float_ref(n, k), plain, **K))
    return r
