"""Identifiers and constants of the source program."""
from fractions import Fraction
from rules_comp import *
from rules_lib import NUMBERS, tagged

MCOUNT = 9


def reader(prefix=(), first=None, lo=0, hi=123):
    """model of the symbol reader: the next symbol of the input into dl"""
    def f(it, I, args, st, fn):
        n = count(st, "sym")
        st.events += (("sym",),)
        if n < len(prefix):
            v = const(prefix[n], 32)
        else:
            l, h = first if first and n == 0 else (lo, hi)
            v = sym(("in", n), 32, l, h)
        it.store(st, ptr("@dl", 0), 4, v)
        return [Out("ret", None, st)]
    return f


def pack(name):
    """words of an identifier given by its symbol numbers: nine symbols count"""
    c = list(name[:MCOUNT])
    if len(c) <= 4:
        w = 0
        for k, x in enumerate(c):
            w += x << (21 - 6 * (len(c) - 1 - k))
        return w, None
    w1 = c[4] << 21 | c[3] << 15 | c[2] << 9 | c[1] << 3 | c[0] >> 3
    w2 = c[0] & 7
    for k in range(4):
        w2 |= (c[5 + k] if 5 + k < len(c) else 63) << (3 + 6 * k)
    return w1, w2


def ident_sits():
    L = []
    ends = [64, 72, 87, 91, 93, 98, 99, 100, 89, 88, 121, 63 + 1]
    alnum = list(range(0, 36)) + list(range(37, 63))
    for c in alnum:
        if c >= 10:
            L += [[c], [c, 0], [c] * 5, [c] * 9, [c, 11, 12, 13, 14, 15]]
        for n in range(1, 13):
            L.append([10 + n] + [20 + k for k in range(n - 1)] + [c])
            L.append([62] + [62] * (n - 1) + [c])
            L.append([10] + [0] * (n - 1) + [c])
    return [(x, e) for k, x in enumerate(L) for e in (ends[k % len(ends)], ends[(k * 7 + 3) % len(ends)])]


def ident_check(comp):
    diffs, n, paths = [], 0, 0
    memo = {}
    for name, end in ident_sits():
        key = tuple(name)
        if key not in memo:
            # the symbols of the name are constants of this summary, what follows is not
            memo[key] = summary(comp, "read_until_next_delimiter", cut=16, models={"read_next_symbol": reader(key, None, 63, 122)}, kind="sym", maxp=2000)
        s = memo[key]
        paths += len(s.outs)
        sit = Situation({"dflag": 5, "kflag": 5, "nflag": 5, "oflag": 5}, {}, {"in": list(name) + [end, 64, 64]})
        e, evs, r = s.step(sit)
        n += 1
        w1, w2 = pack(name)
        want = {"inw": w1, "dflag": int(w2 is not None), "kflag": 0, "nflag": 1, "oflag": 0, "dl": end}
        if w2 is not None:
            want["fnw"] = w2
        got = {k: r.vals.get(k) for k in want}
        if got != want or len(r.inputs["in"]) != 2 or e[0] != "ret":
            diffs.append("the name %s followed by symbol %d: %s, expected %s" % (show(name), end, {k: v for k, v in got.items() if want[k] != v} or e,
                                                                                 {k: v for k, v in want.items() if got[k] != v}))
            if len(diffs) > 4:
                break
    return diffs, n, paths, s.it.analysed


# ---------------------------------------------------------------- constants
def literals(part):
    L = []
    if part == 0:
        L = [str(x) for x in (0, 1, 2, 5, 7, 8, 9, 10, 11, 63, 64, 99, 100, 127, 128, 255, 999, 1000, 1023, 4095, 4096, 9999, 32767, 32768, 65535, 65536, 99999, 131071,
                              524288, 999999, 1048575, 1234567, 4194303, 4194304, 8388608, 9999999, 16777216, 33554431, 33554432, 50000000, 67108862, 67108863)]
        L += ["0" * k + str(x) for k in (1, 3, 6) for x in (0, 7, 255, 67108863)]
        L += [str(d) * k for d in range(1, 10) for k in range(1, 8)]
    elif part == 1:
        L = [str(x) for x in (67108864, 67108865, 67108866, 99999999, 100000000, 134217727, 134217728, 999999999, 4294967295, 4294967296, 10 ** 10, 10 ** 11 + 1, 10 ** 12 - 1,
                              549755813887, 549755813888, 1099511627775, 1099511627776, 1099511627777, 2199023255551, 2199023255553, 10 ** 13, 281474976710655,
                              281474976710656, 4503599627370495, 10 ** 15 + 7, 10 ** 16, 12345678901234567, 99999999999999999999, 10 ** 25, 123456789012345678901234567890)]
        L += ["1" + "0" * k for k in range(8, 24)] + ["9" * k for k in range(8, 24)]
        L += [str(2 ** e + d) for e in range(27, 72) for d in (-1, 0, 1)]
        L += [str(d) * k for d in range(1, 9) for k in range(13, 18)]
        L += [str(k) + "0" * j for k in (13, 15, 28, 33, 41, 55, 56, 57, 62, 67, 68, 71, 89) for j in range(11, 18)]
    elif part == 2:
        for i in ("0", "1", "3", "9", "12", "", "100", "67108863", "123456789", "99999999999"):
            for f in ("0", "5", "1", "25", "125", "3", "7", "001", "999", "3333333333", "14159265358979", "00000000001", "999999999999999999"):
                L.append(i + "." + f)
    elif part == 3:
        for m in ("1", "2", "9", "1.5", ".5", "", "123456789", "0.001", "99.99", "67108864", "7"):
            for e in ("0", "1", "2", "3", "5", "10", "20", "38"):
                for sg in ("", "+", "-"):
                    L.append(m + "@" + sg + e)
    else:
        L = [m + "@" + e for m in ("1", "9.87654321", "3") for e in ("99", "-99", "300", "-300", "600", "-600")]
        L += ["0@0", "0.0", "0@5", ".0@-3", "1@616", "1.7@616", "9@616", "1@617", "1@700", "1@-617", "1@-630", "1@-632", "9@-633", "1@-650", "1@99999999", "1@-99999999", "1@67108864", "0.5@617", "1@-700"]
    return L


def textcodes(t):
    return [CODE[c] for c in t]


def value_of(t):
    m, _, e = t.partition("@")
    i, _, f = m.partition(".")
    x = Fraction(int((i + f) or "1"), 10 ** len(f))
    return x, int(e or "0")


def constant_check(part):
    def run(comp):
        diffs, n, paths, fs = [], 0, 0, set()
        for t in literals(part):
            x, e10 = value_of(t)
            pre = textcodes(t)
            s = summary(comp, "read_until_next_delimiter", cut=1200, models={"read_next_symbol": reader(pre, None, 90, 111)}, kind="sym", maxp=100000)
            paths += len(s.outs)
            fs |= set(s.it.analysed)
            sit = Situation({"dflag": 5, "kflag": 5, "nflag": 5, "oflag": 5, "inw": -1, "fnw": -1, "dl": -1}, {}, {"in": pre + [91, 64, 64]})
            e, evs, r = s.step(sit)
            n += 1
            v = r.vals
            d = judge_constant(t, x, e10, e, v)
            if d is None and not failed(e) and (v.get("dl") != 91 or len(r.inputs["in"]) != 2):
                d = "the symbol behind it is lost"
            if d is None and not failed(e) and (v["kflag"], v["nflag"], v["oflag"]) != (1, 1, 0):
                d = "it is not taken for a constant"
            if d:
                diffs.append("the constant %s: %s" % (t, d))
                if len(diffs) > 4:
                    break
        return diffs, n, paths, fs
    return run


BIG = Fraction(2) ** 2047


def judge_constant(t, x, e10, e, v):
    if abs(e10) >= 1 << 26:
        return None if failed(e) else "an exponent beyond the integers is accepted"
    if abs(e10) > 100000:
        if x == 0 or e10 < 0:
            return None if not failed(e) and v["inw"] == 0 and v["dflag"] == 0 else "expected 0"
        return None if failed(e) else "a value beyond the reals is accepted"
    x = x * Fraction(10) ** e10
    if x >= BIG:
        return None if failed(e) else "a value beyond the reals is accepted"
    if failed(e):
        return None if x > BIG * Fraction(99, 100) else "is rejected"
    if "." not in t and "@" not in t and x < 1 << 26:
        return None if v["dflag"] == 0 and v["inw"] == x else "integer %s, expected %d" % (v["inw"] if v["dflag"] == 0 else "not", x)
    if v["dflag"] == 0:
        if v["inw"] == x or (v["inw"] == 0 and x < Fraction(2) ** -2000):
            return None
        return "integer %s" % v["inw"]
    fnw, inw = v["fnw"], v["inw"]
    if not (1 << 25 <= fnw < 1 << 26 and 0 <= inw < 1 << 26):
        return "the words %s %s are no machine real" % (fnw, inw)
    exp = inw & 4095
    m = (fnw << 26) + inw - exp
    unit = Fraction(2) ** (exp - 2100)
    err = abs(m * unit - x) / (unit * 4096)
    # the decimal exponent is worked in by truncating steps of 52 bits
    steps = abs(e10) + len(t) + 2
    if err > Fraction(1, 2) + Fraction(3 * steps, 4096):
        return "the machine real differs from it by %.3f units of the last place" % float(err)
    return None


def logic_check(comp):
    diffs, n, fs, paths = [], 0, set(), 0
    for sym_, val in ((116, 0), (117, 1)):
        s = summary(comp, "read_until_next_delimiter", cut=4, models={"read_next_symbol": reader([sym_], None, 63, 122)}, kind="sym")
        for nx in (64, 91, 99, 77, 105):
            e, evs, r = s.step(Situation({"dflag": 5, "kflag": 5, "nflag": 5, "oflag": 5, "inw": -1}, {}, {"in": [sym_, nx, 3]}))
            n += 1
            want = {"inw": val, "dflag": 0, "kflag": 1, "nflag": 1, "oflag": 0, "dl": nx}
            got = {k: r.vals.get(k) for k in want}
            if got != want:
                diffs.append("%s: %s, expected %s" % ("true" if val == 0 else "false", got, want))
        fs |= set(s.it.analysed)
        paths += len(s.outs)
    # a delimiter alone: no operand
    s = summary(comp, "read_until_next_delimiter", cut=4, models={"read_next_symbol": reader((), (63, 87))}, kind="sym")
    s2 = summary(comp, "read_until_next_delimiter", cut=4, models={"read_next_symbol": reader((), (90, 115))}, kind="sym")
    for d in list(range(63, 88)) + list(range(90, 116)):
        e, evs, r = (s if d < 88 else s2).step(Situation({"nflag": 5, "oflag": 5}, {}, {"in": [d, 1, 2]}))
        n += 1
        if r.vals.get("nflag") != 0 or r.vals.get("oflag") != 5 or r.vals.get("dl") != d or len(r.inputs["in"]) != 2:
            diffs.append("delimiter %d alone: operand flag %s, delimiter %s" % (d, r.vals.get("nflag"), r.vals.get("dl")))
    return diffs, n, paths + len(s.outs) + len(s2.outs), fs


def pool_check(comp):
    s = summary(comp, "look_for_constant", cut=8)
    diffs, n = [], 0
    for consts in ([], [5], [5, 7], [40000000, 2100, 5], [5, 40000000, 2100], [1, 2, 3, 4], [40000000, 2100, 40000000, 2200]):
        for want in ((5,), (7,), (9,), (0,), (40000000, 2100), (40000000, 2200), (2100, 5), (5, 7), (33554432, 2101)):
            for room in ("free", "move", "full"):
                klib, klsc, nlsc = 3000, len(consts), 4
                nlib = klib + klsc + (8 if room == "free" else len(want) - 1)
                plib = nlib + nlsc + 16 + (0 if room == "full" else 1)
                st = {klib + i: c for i, c in enumerate(consts)}
                for i in range(nlsc):
                    st[nlib + i] = 900 + i
                v = {"klib": klib, "klsc": klsc, "nlib": nlib, "nlsc": nlsc, "plib": plib, "dflag": len(want) - 1, "inw": want[-1], "fnw": want[0] if len(want) > 1 else 0,
                     "jflag": 1, "pflag": 1, "fflag": 1, "id": -1}
                e, evs, r = s.step(Situation(v, {"store": st}))
                n += 1
                if room == "full":
                    if not failed(e):
                        diffs.append("no room for a constant: not reported")
                    continue
                x, store = r.vals, r.arrays["store"]
                i = (x["id"] & 32767)
                d = None
                if e[0] != "ret":
                    d = "ends with %s" % (e,)
                elif x["id"] - i != (3 << 24) + (1 << 19 if len(want) == 1 else 0):
                    d = "descriptor %d" % x["id"]
                elif tuple(store.get(klib + i + k, 0) for k in range(len(want))) != want or i + len(want) > x["klsc"]:
                    d = "entry %d holds something else" % i
                elif [store.get(klib + k, 0) for k in range(klsc)] != consts or x["klsc"] > klsc + len(want):
                    d = "the list of constants changes to %s" % [store.get(klib + k, 0) for k in range(x["klsc"])]
                elif [store.get(x["nlib"] + k) for k in range(nlsc)] != [900 + k for k in range(nlsc)] or x["klib"] + x["klsc"] > x["nlib"] or x["nlsc"] != nlsc or x["nlib"] + nlsc > plib:
                    d = "the name list is damaged"
                elif (x["jflag"], x["pflag"], x["fflag"]) != (0, 0, 0):
                    d = "the operand flags are wrong"
                if d:
                    diffs.append("constant %s among %s (%s): %s" % (want, consts, room, d))
    return diffs, n, len(s.outs), s.it.analysed


@group("constants")
def _(comp):
    R = "read_until_next_delimiter"
    return [Check("integer constants", R, constant_check(0)), Check("long constants", R, constant_check(1)), Check("decimal fractions", R, constant_check(2)),
            Check("exponents", R, constant_check(3)), Check("large exponents, overflow and underflow", R, constant_check(4)),
            Check("logical values and missing operands", R, logic_check), Check("the list of constants", "look_for_constant", pool_check)]


# --------------------------------------------------------------- predefined
OPPROC = {"read": 102, "print": 103, "TAB": 104, "NLCR": 105, "XEEN": 106, "SPACE": 107, "stop": 108, "abs": 76, "sign": 77, "sqrt": 78, "sin": 79,
          "cos": 80, "arctan": 81, "ln": 82, "exp": 83, "entier": 84, "FLOT": 110, "FIXT": 111, "ABSFIXT": 112}
D15, D18 = 1 << 15, 1 << 18


def name_list(comp):
    """the name list when the main scan begins: (list words, base, length)"""
    mem, vecs = tagged(comp, "main_scan")
    key = next(k for k in vecs if k[0] == "arr" and k[2] == "store")
    ev = CEv(Situation({"rnsb": 3000, "plib": 6700}))
    w = {}
    for idx, off, sz, v in vecs[key].log:
        try:
            w[sgn_(ev(idx), 64) // sz] = sgn_(ev(v), 8 * sz)
        except NoValue:
            pass
    get = lambda n: sgn_(ev(next(iter(mem["@" + n].values()))[1]), 32)
    return w, get("nlib"), get("nlsc")


def predefined_check(comp):
    w, base, n = name_list(comp)
    found, i, diffs = {}, base + n, []
    order = []
    while i > base:
        id_, w1 = w.get(i - 1), w.get(i - 2)
        if id_ is None or w1 is None:
            return ["the name list is not filled at %d of %d" % (i - base, n)], 1, 1, {"main"}
        if w1 & 7:
            found[w1, w.get(i - 3)] = id_
            i -= 3
        else:
            found[w1, None] = id_
            i -= 2
        order.append(id_)
    if i != base:
        diffs.append("the entries of the name list do not fill it")
    for name, op in OPPROC.items():
        k = pack([CODE[c] for c in name])
        # operator of a function or procedure: its operation is formed from the low part
        n_ = 57 if 76 <= op <= 84 else 40
        want = D18 + 12 * 256 + n_ + op
        if found.get(k) != want:
            diffs.append("the predefined %s means %s, expected operation %d" % (name, found.get(k), op))
        found.pop(k, None)
    for name, num in NUMBERS.items():
        k = pack([CODE[c] for c in name])
        if found.get(k) != D18 + D15 + num:
            diffs.append("the predefined %s means %s, expected library procedure %d" % (name, found.get(k), num))
        found.pop(k, None)
    if found:
        diffs.append("further predefined names %s" % sorted(found.items(), key=str)[:3])
    # library procedures are those below nlsc0, operations those up to nlscop
    for id_, k in zip(order[::-1], range(len(order))):
        if (id_ & D15 == 0) != (k < len(OPPROC)):
            diffs.append("entry %d of the predefined names is out of order" % k)
    return diffs, len(order), 1, {"main"}


def lookup_check(comp):
    s = summary(comp, "look_for_name", cut=6, models={"show_id": p_event("shown")})
    diffs, n = [], 0
    base = 4000
    names = [("a", 111), ("abcde", 222), ("b", 1 << 17), ("abcdeg", 1 << 18), ("a", 333 + (1 << 16)), ("abcdf", 7 << 16), ("abcd", 5)]
    lists = [names[:k] for k in range(1, 6)] + [names[k:k + 3] for k in range(5)] + [names[3:], [names[1], names[5]], [names[0], names[4]], [names[4], names[0]],
                                                                                  [("abcde", 1), ("abcdf", 2), ("abcde", 3)]]
    for l in lists:
        st, i, pos = {base - 1: 10 << 21, base - 2: 77, base - 3: 88}, base, []
        for nm, id_ in l:
            w1, w2 = pack([CODE[c] for c in nm])
            if w2 is not None:
                st[i] = w2
                i += 1
            st[i] = w1
            st[i + 1] = id_
            i += 2
            pos.append((nm, id_, i - 1))
        for nm in {x[0] for x in names} | {"zz", "abcdeh", "bbcde"}:
            w1, w2 = pack([CODE[c] for c in nm])
            sit = Situation({"nlib": base, "nlsc": i - base, "inw": w1, "fnw": w2 if w2 is not None else 4444, "nid": -1, "id": -1, "pflag": 9, "jflag": 9, "fflag": 9},
                            {"store": st, "alnum_table": {}})
            hit = [p for p in pos if p[0] == nm]
            n += 1
            try:
                e, evs, r = s.step(sit)
            except NoPath:
                if not hit:
                    continue
                raise
            if not hit:
                if not failed(e):
                    diffs.append("the undeclared name %s is accepted among %s" % (nm, [x[0] for x in l]))
                continue
            _, id_, p = hit[-1]
            want = {"nid": p - base, "id": id_, "pflag": id_ >> 18 & 1, "jflag": id_ >> 17 & 1, "fflag": id_ >> 16 & 1}
            got = {k: r.vals.get(k) for k in want}
            if got != want or e[0] != "ret":
                diffs.append("the name %s among %s: %s, expected %s" % (nm, [x[0] for x in l], got, want))
    return diffs, n, len(s.outs), s.it.analysed


def undeclared_check(comp):
    """a search that ends without a find is an error: the list holds two names
    and neither is the one looked for"""
    it = comp.interp()
    it.cut = 3
    it.models["show_id"] = p_event("shown")
    outs = it.run(comp.prog.one("look_for_name"), [], State())
    s = Summary(comp, it, outs, "in", None)
    diffs, n = [], 0
    for a, b, c in (("a", "b", "c"), ("abcde", "abcdf", "abcdg"), ("abcd", "x", "abcde"), ("abcde", "abcdefgh", "abcdefghi"), ("abcde", "z", "abcd")):
        st, i = {}, 4000
        for nm in (a, b):
            w1, w2 = pack([CODE[x] for x in nm])
            if w2 is not None:
                st[i] = w2
                i += 1
            st[i], st[i + 1] = w1, 1
            i += 2
        w1, w2 = pack([CODE[x] for x in c])
        e, evs, r = s.step(Situation({"nlib": 4000, "nlsc": i - 4000, "inw": w1, "fnw": w2 or 0}, {"store": st}))
        n += 1
        if not failed(e):
            diffs.append("the undeclared name %s is accepted after %s and %s" % (c, a, b))
    return diffs, n, len(outs), it.analysed


@group("names")
def _(comp):
    return [Check("identifiers: significant symbols and packing", "read_until_next_delimiter", ident_check),
            Check("predefined names", "main", predefined_check),
            Check("the latest declaration of a name is found", "look_for_name", lookup_check),
            Check("undeclared names are errors", "look_for_name", undeclared_check)]
