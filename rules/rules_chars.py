"""Character codes: printing and reading symbols, console switches, numbers."""
from rules_prim import *
from models import emit_out

OS = ptr("OS", 0)
IS = ptr("IS", 0)

# the ALGOL code of every printable symbol (independent of the source's tables)
CODES = {}
for i in range(10):
    CODES[i] = chr(48 + i)
for i in range(26):
    CODES[10 + i] = chr(97 + i)
    CODES[37 + i] = chr(65 + i)
for i, s in enumerate(["+", "-", "\u00d7", "/", "\u00f7", "\u2191", ">", "\u2265", "=", "\u2264", "<", "\u2260", "\u00ac", "\u2227", "\u2228", "\u2283", "\u2261"]):
    CODES[64 + i] = s
CODES.update({87: ",", 88: ".", 89: "\u23e8", 90: ":", 91: ";", 92: ":=", 93: " ", 98: "(", 99: ")", 100: "[", 101: "]", 102: "`", 103: "'",
              118: "\t", 119: "\n", 121: '"', 122: "?"})
UNUSED = "\u2395"

# symbols read from the input: the printable ones of one symbol each, and the
# alternative spellings
READ = {s: c for c, s in CODES.items() if len(s) == 1}
READ.update({"*": 66, "@": 89, "|": 162, "_": 163})
EOF_CODE = 0o377


def trie():
    t = {}
    for s, c in READ.items():
        b = s.encode()
        d = t
        for x in b[:-1]:
            d = d.setdefault(x, {})
        d[b[-1]] = c
    return t


def byte(k):
    return sym("in%d" % k, 8)


def p_get(it, I, args, st, fn):
    """istream::get(char&): one byte, or failure at the end"""
    k = sum(1 for e in st.events if e[0] == "get")
    s2 = st.copy()
    s2.tags[("fail", args[0].a[0])] = True
    s2.events += (("end",),)
    st.tags[("fail", args[0].a[0])] = False
    st.events += (("get",),)
    it.store(st, args[1], 1, byte(k))
    return [Out("ret", args[0], st), Out("ret", args[0], s2)]


def p_get0(it, I, args, st, fn):
    """int istream::get(): the byte as unsigned, or -1"""
    if len(args) > 1:
        return p_get(it, I, args, st, fn)
    k = sum(1 for e in st.events if e[0] == "get")
    s2 = st.copy()
    s2.tags[("fail", args[0].a[0])] = True
    s2.events += (("end",),)
    st.events += (("get",),)
    return [Out("ret", zext(byte(k), 32, st.facts), st), Out("ret", const(-1, 32), s2)]


def good(neg):
    def f(it, I, args, st, fn):
        v = st.tags.get(("fail", args[0].a[0]))
        if v is None:
            raise AnalysisError("state of a stream that has not been read")
        return [Out("ret", const(int(v == neg), 1), st)]
    return f


IN_MODELS = {"std::istream::get": p_get0, "std::basic_istream::get": p_get0,
             "std::basic_ios::operator!": good(True), "std::basic_ios::operator bool": good(False), "std::basic_ios::fail": good(True),
             "std::basic_ios::good": good(False), "std::basic_ios::eof": good(True)}


def decode(seq):
    """what reading this input must deliver: (outcome, bytes taken) or None
    when more input is needed; None in seq is the end of the input"""
    i, d = 0, trie()
    while True:
        if i == len(seq):
            return None
        b = seq[i]
        if b is None:
            return EOF_CODE, i
        i += 1
        if b == 13 and (i == 1 or seq[i - 2] == 13 and set(seq[:i]) == {13}):
            continue
        if b not in d:
            return "error", i
        d = d[b]
        if not isinstance(d, dict):
            return d, i


def behaviour(outs, seq):
    """what the code's path for this input does"""
    env = {byte(k): b for k, b in enumerate(seq) if b is not None}
    r = []
    for o in outs:
        n = sum(1 for e in o.st.events if e[0] == "get")
        end = any(e[0] == "end" for e in o.st.events)
        if n > len(env) or end and (n != len(env) or None not in seq):
            continue
        ev = evalt.Ev(env)
        if all(bool(ev(p)) == v for p, v in o.st.preds.items()) and evalt.holds(o.st, ev):
            r.append(("error" if o.kind == "throw" else sgn(ev(o.val), 32) if o.kind == "ret" else o.kind, n))
    return r


def printable(seq):
    return "end of input" if seq == (None,) else "bytes " + " ".join("end" if b is None else "%02x" % b for b in seq)


def input_cases(sim, it, outs):
    d = []
    work = [()]
    seen = 0
    for o in outs:
        other = [e for e in o.st.events if e[0] not in ("get", "end")]
        if other:
            d.append("reading a symbol has the effect %s" % (other[0],))
    while work:
        pre = work.pop()
        for b in list(range(256)) + [None]:
            seq = pre + (b,)
            seen += 1
            want = decode(seq)
            got = behaviour(outs, seq)
            if want is None:
                if got:
                    d.append("%s: the code gives %s before the symbol is complete" % (printable(seq), got[0][0]))
                elif len(seq) < 3 and not (len(seq) == 2 and b == 13):
                    work.append(seq)
                continue
            if len(got) > 1:
                raise AnalysisError("paths are not disjoint at " + printable(seq))
            if not got:
                if b is None or want[0] == "error":
                    d.append("%s: more input is read, expected %s" % (printable(seq), want[0]))
                else:
                    d.append("%s: more input is read, expected symbol %s" % (printable(seq), want[0]))
            elif got[0] != want:
                d.append("%s: the outcome is %s after %d bytes, expected %s after %d" % ((printable(seq),) + got[0] + want))
            if len(d) > 5:
                return d
    return d


@group("chars")
def _(sim):
    plain = lambda: sim.init_state(frame=None)
    r = []
    for c in range(256):
        def put(m, c=c):
            emit_out(m.st, OS.a, "text", ("text", CODES.get(c & 127, UNUSED)))
        r.append(Prim("algol_putc", "symbol %d" % c, [const(c, 32), OS], put, plain, result=False, points=[{}]))
    r.append(Prim("Machine::input_char", "every byte sequence", [IS], None, plain, cut=3, models=IN_MODELS, custom=input_cases))
    return r


# ---------------------------------------------------------------- numbers, switches
INTER = "@_ZN7Machine14is_interactiveE"


def fork(it, st, c):
    """both ways of a condition; [(taken, state)]"""
    r = []
    for v in (True, False):
        s = st.copy()
        if it.assume(s, c, v):
            r.append((v, s))
    return r


def count(st, kind):
    return sum(1 for e in st.events if e[0] == kind)


def flag(nm, k):
    return sym("%s%d" % (nm, k), 1)


def p_getline(it, I, args, st, fn):
    k = count(st, "line")
    st.events += (("line", args[0].a[0]),)
    r = []
    for v, s in fork(it, st, flag("line read ", k)):
        s.tags[("good", args[0].a[0])] = const(int(v), 1)
        s.tags[("line of", args[1].a)] = k if v else None
        r.append(Out("ret", args[0], s))
    return r


def p_stoul(it, I, args, st, fn):
    k = st.tags.get(("line of", args[0].a))
    base = cval(args[2]) if len(args) > 2 and is_c(args[2]) else None
    n = count(st, "digits")
    st.events += (("digits", "line %s" % k, base),)
    r = []
    for v, s in fork(it, st, flag("number found ", n)):
        r.append(Out("ret", sym("number%d" % n, 64), s) if v else Out("throw", ("exc", "std::invalid_argument", None), s, I.loc))
    return r


def p_state(neg):
    def f(it, I, args, st, fn):
        v = st.tags.get(("good", args[0].a[0]))
        if v is None:
            raise AnalysisError("state of a stream that has not been read")
        return [Out("ret", const(cval(v) ^ neg, 1), st)]
    return f


def p_eof(it, I, args, st, fn):
    return [Out("ret", flag("end ", count(st, "line") + count(st, "read")), st)]


def p_nop(it, I, args, st, fn):
    return [Out("ret", args[0] if args else None, st)]


def p_wrap(it, I, args, st, fn):
    st.tags[("wraps", args[0].a[0])] = args[1].a[0]
    return [Out("ret", None, st)]


def p_number(it, I, args, st, fn):
    k = count(st, "read")
    src = st.tags.get(("wraps", args[0].a[0]), args[0].a[0])
    st.events += (("read", src, "with exponent mark" if ("wraps", args[0].a[0]) in st.tags else "plain"),)
    r = []
    for v, s in fork(it, st, flag("number read ", k)):
        s.tags[("good", args[0].a[0])] = const(int(v), 1)
        it.store(s, args[1], 16, sym("value%d" % k, "fp") if v else fconst(0))
        r.append(Out("ret", args[0], s))
    return r


def prompts(e):
    return e[0] != "out"


LINE_MODELS = {"std::getline": p_getline, "std::stoul": p_stoul, "std::basic_ios::operator bool": p_state(0), "std::basic_ios::operator!": p_state(1),
               "std::basic_ios::fail": p_state(1), "std::basic_ios::eof": p_eof, "std::basic_ios::clear": p_nop, "std::istream::ignore": p_nop,
               "std::istream::operator{shr}": p_number, "ReplaceTenWithEStream::ReplaceTenWithEStream": p_wrap,
               "ReplaceTenWithEStream::~ReplaceTenWithEStream": p_nop}


def interactive(m):
    return m.test(trunc(m.it.load(m.st, ptr(INTER, 0), 1, I8), 1, m.st.facts))


def retry(m, k):
    if k > 3:
        raise Unspec()
    if m.test(flag("end ", k + 1)) or not interactive(m):
        m.throw()


def switches_ref(mask):
    def f(m):
        o = m.sim.mf["switches_are_valid"][0]
        c = m.sim.mf["console_switches"][0]
        old = m.it.load(m.st, ptr("M", c), 4, I32)
        if m.test(trunc(m.it.load(m.st, ptr("M", o), 1, I8), 1, m.st.facts)):
            return bit("and", [old, mask], m.st.facts)
        k = n = 0
        while True:
            m.event("line", "IS")
            if m.test(flag("line read ", k)):
                m.event("digits", "line %d" % k, 2)
                if m.test(flag("number found ", n)):
                    v = trunc(sym("number%d" % n, 64), 32, m.st.facts)
                    m.it.store(m.st, ptr("M", c), 4, v)
                    m.it.store(m.st, ptr("M", o), 1, const(1, 8))
                    return bit("and", [v, mask], m.st.facts)
                n += 1
            retry(m, k)
            k += 1
    return f


def number_ref(m):
    k = 0
    while True:
        m.event("read", "IS", "with exponent mark")
        if m.test(flag("number read ", k)):
            return sym("value%d" % k, "fp")
        retry(m, k)
        k += 1


@group("numbers")
def _(sim):
    plain = lambda: sim.init_state(frame=None)
    mask = sym("mask", 32)
    K = dict(models=LINE_MODELS, cut=3)
    return [Prim("Machine::read_console_switches", "first use, later use, wrong input", [ptr("M", 0), IS, mask], switches_ref(mask), plain, events=prompts, **K),
            Prim("Machine::input_real", "number, wrong input, end of input", [IS], number_ref, plain, events=prompts, **K),
            Prim("ReplaceTenWithEStreamBuf::underflow", "every byte sequence", [ptr("B", 0)], None, plain, custom=mark_cases,
                 models={"std::basic_streambuf::sbumpc": p_bump, "std::basic_streambuf::setg": p_setg})]


def p_bump(it, I, args, st, fn):
    k = count(st, "get")
    s2 = st.copy()
    s2.events += (("end",),)
    st.events += (("get",),)
    return [Out("ret", zext(byte(k), 32, st.facts), st), Out("ret", const(-1, 32), s2)]


def p_setg(it, I, args, st, fn):
    # the buffer may still be filled after the call: only its place is noted
    st.events += (("area",) + tuple(args[1:4]),)
    return [Out("ret", None, st)]


def marks(seq):
    """bytes delivered for these input bytes, None: more needed"""
    mark = "\u23e8".encode()
    for i, b in enumerate(seq):
        if b is None:
            return (), i
        if b != mark[i]:
            return tuple(seq[:i + 1]), i + 1
        if i == 2:
            return (ord("E"),), 3
    return None


def mark_cases(sim, it, outs):
    d = []
    work = [()]
    while work:
        pre = work.pop()
        for b in list(range(256)) + [None]:
            seq = pre + (b,)
            want = marks(seq)
            env = {byte(k): x for k, x in enumerate(seq) if x is not None}
            got = []
            for o in outs:
                n = count(o.st, "get")
                end = count(o.st, "end")
                if n != len(env) or end != (None in seq):
                    continue
                ev = evalt.Ev(env)
                if all(bool(ev(p)) == v for p, v in o.st.preds.items()) and evalt.holds(o.st, ev):
                    got.append((delivered(it, o, ev), n))
            if want is None:
                if got:
                    d.append("%s: input is delivered before the exponent mark is complete" % printable(seq))
                else:
                    work.append(seq)
            elif got != [want]:
                d.append("%s: delivers %s, expected %s" % (printable(seq), got, want))
            if len(d) > 4:
                return d
    return d


def delivered(it, o, ev):
    r = sgn(ev(o.val), 32)
    if r == -1:
        return ()
    a = [e for e in o.st.events if e[0] == "area"]
    if len(a) != 1:
        raise AnalysisError("the buffer is set %d times" % len(a))
    b, c, e = a[0][1:]
    if not all(isinstance(x.a[1], int) for x in (b, c, e)):
        raise AnalysisError("buffer bounds")
    t = tuple(ev(it.load(o.st, ptr(c.a[0], i), 1, I8)) & 255 for i in range(c.a[1], e.a[1]))
    return t if t and t[0] == r else (r, "differs from the buffer", t)


# ---------------------------------------------------------------- default layout
def p_snprintf(it, I, args, st, fn):
    st.events += (("snprintf", args[0], cval(args[1]) if is_c(args[1]) else None, it.strval(st, args[2])) + tuple(args[3:]),)
    return [Out("ret", fresh_len(st), st)]


def fresh_len(st):
    return sym("printed%d" % count(st, "snprintf"), 32)


def real_text(val):
    def f(sim, it, outs):
        d = []
        want = mk("x2r", (val,), "fp")
        for o in outs:
            ev = o.st.events
            if o.kind != "ret":
                d.append("printing a real ends with " + o.kind)
            elif len(ev) == 2 and ev[0][0] == "snprintf" and ev[1][0] == "out" and ev[1][1] == OS.a and ev[1][3] is ev[0][1]:
                if ev[0][3] != "%.13Lg":
                    d.append("a real is printed with the format %s, expected 13 significant digits" % ev[0][3])
                if ev[0][4] is not want:
                    d.append("the number printed is %s, expected %s" % (ev[0][4], want))
                if ev[0][2] is None or ev[0][2] < 21:
                    d.append("room for %s characters only" % ev[0][2])
            else:
                raise AnalysisError("printing of a real is done by %s" % (str(ev)[:200],))
        return d
    return f


@group("show")
def _(sim):
    plain = lambda: sim.init_state(frame=None)
    w = sym("val", 32)
    r = sym("real", 64)

    def integer(m):
        if m.test(icmp("ne", m.and_(w, 1 << 26), const(0, 32), m.st.facts)):
            emit_out(m.st, OS.a, "text", ("text", "-"))
            emit_out(m.st, OS.a, "unsigned int", m.and_(bit("xor", [w, const(M27, 32)], m.st.facts), M26))
        else:
            emit_out(m.st, OS.a, "unsigned int", m.and_(w, M26))
    pts = [{w: v} for v in (0, 1, M26, M27, M27 - 1, 1 << 26, 12345, M27 - 12345, 1 << 25, 1000000)]
    return [Prim("x1_print_integer", "any word", [OS, w], integer, plain, result=False, points=pts),
            Prim("x1_print_real", "any real", [OS, r], None, plain, custom=real_text(r), models={"snprintf": p_snprintf, "std::snprintf": p_snprintf})]
