"""Rules over the command line, the compilation and the loader.  Every routine
is summarised with symbolic texts and an environment that forks the path at
each call; the summary is then compared with a reference description of the
outcome for each class of environments ("world")."""
import itertools, os, re
from core import *
from spec import *
from sim import *
from host import Host, S, text, EFFECTS
from evalt import Ev, holds, NoValue
from absint import Out, State
from rules_prim import Prim, group

WR, RDWR, CREAT, TRUNC, EXCL, APPEND = 1, 2, 0o100, 0o1000, 0o200, 0o2000


class World:
    """one class of environments: texts, files, outcomes of calls"""

    def __init__(self, **k):
        self.k = k
        self.text = {}             # symbolic text -> concrete text
        self.val = {}              # symbolic number -> value

    def __repr__(self):
        return ", ".join("%s=%s" % (a, b) for a, b in self.k.items())

    def __getattr__(self, n):
        try:
            return self.__dict__["k"][n]
        except KeyError:
            raise AttributeError(n)


class Unknown(Exception):
    pass


def fsname(p):
    return p.rsplit("/", 1)[-1]


def fsext(p):
    n = fsname(p)
    if n in (".", "..") or "." not in n[1:]:
        return ""
    return n[n.rindex("."):]


def fsparent(p):
    if "/" not in p:
        return ""
    d = p.rsplit("/", 1)[0].rstrip("/")
    return d or "/"


class Eval:
    """evaluates symbolic texts, conditions and terms in a world"""

    def __init__(self, w):
        self.w = w
        outer = self

        class E(Ev):
            def op_sym(s, t):
                n = t.a[0]
                if isinstance(n, tuple) and n[0] in ("char", "length", "scan"):
                    return outer.special(n, t.w)
                if n in outer.w.val:
                    return s.u(outer.w.val[n], t.w)
                return s.free(t)
        self.ev = E({})

    def special(self, n, w):
        v = self.t(n[1])
        if n[0] == "char":
            b = v.encode("latin-1", "replace") + b"\0"
            if not isinstance(n[2], int) or n[2] >= len(b):
                raise NoValue("character beyond the end")
            return b[n[2]]
        if n[0] == "length":
            return len(v)
        r = scan(v, n[2])
        if n[3] < 0:
            return r[0] & 0xffffffff
        if n[3] >= len(r[1]) or not isinstance(r[1][n[3]], int):
            raise NoValue("value of a failed scan")
        return r[1][n[3]] & 0xffffffff

    def t(self, v):
        if v is None:
            raise Unknown("unknown text")
        return "".join(self.part(p) for p in v)

    def part(self, p):
        if isinstance(p, str):
            return p
        k = p[0]
        if k == "sym":
            if isinstance(p[1], tuple) and p[1][0] == "scan":
                r = scan(self.t(p[1][1]), p[1][2])
                return r[1][p[1][3]]
            v = self.w.text.get(p[1])
            if v is None:
                raise Unknown("text " + str(p[1]))
            return v
        if k == "ext":
            return fsext(self.t(p[1]))
        if k == "name":
            return fsname(self.t(p[1]))
        if k == "stem":
            n = fsname(self.t(p[1]))
            return n[:len(n) - len(fsext(n))] if fsext(n) else n
        if k == "parent":
            return fsparent(self.t(p[1]))
        if k == "join":
            a, b = self.t(p[1]), self.t(p[2])
            return b if b.startswith("/") or not a else a + ("" if a.endswith("/") else "/") + b
        if k == "cat":
            return self.t(p[1]) + self.t(p[2])
        if k == "dec":
            x = self.ev(p[1])
            return str(sgn(x, p[1].w))
        raise Unknown(k)

    def answer(self, what):
        """outcome of a forked call in this world"""
        k, w = what[0], self.w
        if k == "eq":
            return self.t(what[1]) == self.t(what[2])
        if k == "scan":
            return scan(self.t(what[1]), what[2])[0]
        if k == "getenv":
            return "$" + self.t(what[1]) in w.text
        if k == "access":
            return self.t(what[1]) in w.readable
        if k == "open":
            p, fl = self.t(what[1]), what[2]
            return p in (w.writable if fl & 3 else w.readable)
        if k == "file":
            return self.t(what[2]) in (w.readable if what[1] == "read" else w.writable)
        if k == "getline":
            return what[1] < len(w.lines)
        if k == "strrchr":
            return "/" in self.t(what[1])
        if k == "getopt":
            return getopt(w.argv, what[1], what[2], what[3])[0]
        f = w.k.get("answers", {}).get(k)
        if f is None and k == "exists":
            return True        # possible in every world
        if f is None:
            raise Unknown("outcome of " + str(k))
        return f(what) if callable(f) else f

    def admits(self, st):
        unknown = None
        for what, v in st.tags.get("conds", ()):
            if what[0] == "getopt":
                self.w.text["optarg%d" % what[1]] = getopt(self.w.argv, what[1], what[2], what[3])[1] or ""
            try:
                if self.answer(what) != v:
                    return False
            except Unknown as x:
                unknown = x
        if not holds(st, self.ev):
            return False
        if unknown:
            raise unknown
        return True


def scan(line, fmt):
    """sscanf for the conversions the loader uses: (count, values)"""
    i, vals = 0, []
    toks = re.findall(r"%\d*[a-z]|\s+|[^%\s]", fmt)
    for t in toks:
        if t.isspace():
            while i < len(line) and line[i].isspace():
                i += 1
            continue
        if t[0] != "%":
            if i < len(line) and line[i] == t:
                i += 1
                continue
            return (len(vals) if vals or i < len(line) else -1), vals
        wd = int(t[1:-1] or 1 << 30)
        while i < len(line) and line[i].isspace():
            i += 1
        if i >= len(line):
            return (len(vals) if vals else -1), vals
        if t[-1] == "s":
            j = i
            while j < len(line) and j - i < wd and not line[j].isspace():
                j += 1
            vals.append(line[i:j])
        else:
            pat = {"u": r"[+-]?\d+", "d": r"[+-]?\d+", "o": r"[+-]?[0-7]+", "x": r"[+-]?(?:0[xX])?[0-9a-fA-F]+", "i": r"[+-]?(?:0[xX][0-9a-fA-F]+|\d+)"}[t[-1]]
            m = re.match(pat, line[i:i + wd])
            if not m:
                return len(vals), vals
            j = i + m.end()
            s = m.group()
            vals.append(int(s, {"u": 10, "d": 10, "o": 8, "x": 16, "i": 0}[t[-1]]) if not (t[-1] == "i" and len(s) > 1 and s[0] == "0" and s[1] not in "xX") else int(s, 8))
        i = j
    return len(vals), vals


def getopt(argv, n, opts, table):
    """n-th result of GNU getopt_long over argv (without the program name):
    (code, argument)"""
    mode = opts[:1] if opts[:1] in "-+" else ""
    short = opts[len(mode):]
    seq = []
    i, end = 0, False
    rest = []
    while i < len(argv):
        a = argv[i]
        i += 1
        if end or a == "-" or not a.startswith("-"):
            if mode == "-":
                seq.append((1, a))
            elif mode == "+":
                break
            else:
                rest.append(a)
            continue
        if a == "--":
            end = True
            continue
        if a.startswith("--"):
            nm, eq, val = a[2:].partition("=")
            c = [t for t in table if t[0] == nm] or [t for t in table if t[0].startswith(nm)]
            if len(c) != 1 or (eq and c[0][1] == 0):
                seq.append((ord("?"), None))
            elif c[0][1] == 1 and not eq:
                if i < len(argv):
                    seq.append((c[0][2], argv[i]))
                    i += 1
                else:
                    seq.append((ord("?"), None))
            else:
                seq.append((c[0][2], val if eq else None))
            continue
        j = 1
        while j < len(a):
            c = a[j]
            j += 1
            k = short.find(c)
            if k < 0 or c == ":":
                seq.append((ord("?"), None))
            elif short[k + 1:k + 3] == "::":
                seq.append((ord(c), a[j:] or None))
                break
            elif short[k + 1:k + 2] == ":":
                if j < len(a):
                    seq.append((ord(c), a[j:]))
                elif i < len(argv):
                    seq.append((ord(c), argv[i]))
                    i += 1
                else:
                    seq.append((ord("?"), None))
                break
            else:
                seq.append((ord(c), None))
    return seq[n] if n < len(seq) else (-1, None)


# what a routine of the simulator and the library under it can throw
THROWN = ("_ZTISt13runtime_error", "_ZTISt12out_of_range", "_ZTISt9bad_alloc", "_ZTISt12length_error", "_ZTISt16invalid_argument",
          "_ZTINSt10filesystem7__cxx1116filesystem_errorE")


def other_effects(o, but=()):
    """calls with an outside effect that no rule models"""
    return tuple(v[1] for v in o.st.events if v[0] == "call" and v[1] not in but and any(re.match(p, v[1]) for _, p, _ in EFFECTS))


def event_model(name, nargs=(), ret=None, extra=None, throws=True):
    """call of a routine of the simulator with its own rule: an event that may
    fail; nargs: positions of text arguments"""
    def f(it, I, args, st, fn):
        a = tuple(it.host.string(it, st, args[i]) for i in nargs)
        e = (name,) + a + ((extra(it, st, args),) if extra else ())
        st.events += (e,)
        r = []
        s2 = st.copy()
        if it.host.cond(st, (name,), True):
            r.append(Out("ret", ret(args) if callable(ret) else ret, st))
        if throws and it.host.cond(s2, (name,), False):
            for t in THROWN:
                r.append(Out("throw", ("exc", t, S(("sym", "error of " + name))), s2.copy(), I.loc))
        return r
    return f


def judge(worlds, outs, ref, see, must=True):
    """compare the summary with the reference in every world"""
    d = []
    for w in worlds:
        e = Eval(w)
        hit = []
        for o in outs:
            try:
                if e.admits(o.st):
                    hit.append(o)
            except NoValue:
                pass
        if not hit:
            raise AnalysisError("no path for %s" % w)
        exp = ref(w)
        for o in hit:
            got = see(w, e, o)
            eff = other_effects(o)
            if eff:
                d.append("for %s there is a further effect: %s" % (w, eff[0]))
                break
            if got != exp:
                d.append("for %s the outcome is %s, expected %s" % (w, got, exp))
                break
    return d


def host_it(sim, it, cut=4):
    h = it.host = Host(sim)
    h.install(it)
    it.cut = cut
    for f in ("compiler_path", "default_library"):
        if f in sim.mf:
            h.initial[("M", sim.mf[f][0])] = S(("sym", f))
    h.initial[("M", sim.mf["input_files"][0])] = "file"
    return h


def paths(it, outs):
    if it.dropped:
        raise AnalysisError("a loop does not end within the explored number of iterations")


def files_state(sim, n):
    st = sim.init_state(frame=None)
    k = ("M", sim.mf["input_files"][0])
    st.vecs[k] = Vec(("init", k), const(n, 64))
    return st


# ------------------------------------------------------- compile, load, run
def child(e, st, o):
    """what the child process does"""
    fds, out = [], None
    for v in st.events:
        if v[0] == "open":
            fds.append((e.t(v[1]), v[2], v[3]))
        if v[0] == "dup2":
            m = re.match(r"fd(\d+)$", str(v[1].a[0])) if v[1].op == "sym" else None
            if m and is_c(v[2]) and cval(v[2]) == 1:
                p, fl, mode = fds[int(m.group(1))]
                good = fl & 3 in (1, 2) and fl & CREAT and fl & TRUNC and not fl & (EXCL | APPEND) and mode is not None and mode & 0o600 == 0o600
                out = p if good else "%s opened with flags %o mode %s" % (p, fl, mode)
    changed = [p for p, fl, m in fds if fl & (TRUNC | CREAT | 3)]
    if o.kind == "exit" and o.val[0] == "exec":
        x = [v for v in st.events if v[0] == "exec"][-1]
        return ("compiler", e.t(x[1]), tuple(e.t(a) for a in x[2]), out, tuple(changed))
    if o.kind == "exit":
        s = o.val[1]
        return ("child fails" if is_c(s) and cval(s) & 255 else "child exits with success", tuple(changed))
    return ("child continues as the simulator",)


def car_runner(n):
    def run(sim, it, fn):
        host_it(sim, it)
        it.models.update({"Machine::load_object_program": event_model("load", (1,)),
                          "Machine::run": event_model("run", (), None, lambda it, st, a: a[1]),
                          "Machine::get_entry": event_model("entry", (), sym("entry", 32), lambda it, st, a: a[1])})
        outs = it.run(fn, [ptr("M", 0)], files_state(sim, n))
        paths(it, outs)
        ws = car_worlds(n)
        d = judge(ws, outs, car_ref, car_see)
        return d + child_messages(ws, outs), len(outs)
    return run


def child_messages(ws, outs):
    """the parent's message for each way the child fails names the file"""
    d = []
    for fail, who in (("src", "p.a60"), ("obj", "p.x1"), ("exec", "x1algc")):
        w = next(w for w in ws if w.k["file"] == "p.a60" and w.k.get(fail) is False)
        e = Eval(w)
        hit = [o for o in outs if e.admits(o.st)]
        if len(hit) != 1 or hit[0].kind != "exit" or not is_c(hit[0].val[1]):
            continue
        code = cval(hit[0].val[1]) & 255
        w2 = World(**dict(w.k, fork="parent"))
        w2.k["answers"] = dict(w.k["answers"], fork="parent")
        w2.text, w2.val = w.text, dict(w.val, status=code << 8)
        e = Eval(w2)
        for o in outs:
            if e.admits(o.st) and o.kind == "throw":
                m = e.t(o.val[2]) if o.val[2] else ""
                if who not in m:
                    d.append("when the child fails because of %s the message is %r" % (who, m))
    return d


def car_worlds(n):
    r = []
    names = ["p.a60", "d/q.a60", "p.x1", "/d/p.x1", "p.txt", "p", "p.a60.x1", "d.x1/p.a60", "p.x1.a60", ".a60", "p.a60x", "p.A60"]
    for nm in names:
        base = dict(file=nm, n=n)
        x = fsext(nm)
        envs = []
        if x == ".a60":
            envs += [dict(compiler="")]
            for f in ("failed", "child"):
                envs.append(dict(compiler="x1algc", fork=f))
            for ok in (dict(src=False), dict(obj=False), dict(exec=False), dict()):
                envs.append(dict(dict(compiler="x1algc", fork="child"), **ok))
            envs.append(dict(compiler="cc", fork="parent", wait=False))
            for s in (0, 1 << 8, 2 << 8, 3 << 8, 4 << 8, 5 << 8, 127 << 8, 128 << 8, 255 << 8, 9, 11, 6, 0x8b, 0x86, 15, 0x7f, 0x137f):
                envs.append(dict(compiler="x1algc", fork="parent", status=s))
        for e in envs or [dict()]:
            last = e.get("fork", "parent") == "parent" and e.get("status", 0) == 0 and e.get("wait", True)
            for ld, en, rn, old in ([(1, 1, 1, 0), (1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 1, 0), (1, 1, 0, 0)] if last else [(1, 1, 1, 0), (1, 1, 1, 1)]):
                k = dict(base, **e)
                k.update(load=bool(ld), entry=bool(en), run=bool(rn))
                w = World(**k)
                w.text = {"file[%d]" % i: (nm, "lib1", "lib2", "lib3")[i] for i in range(n)}
                w.text.update({"compiler_path": e.get("compiler", "x1algc"), "default_library": "deflib"})
                obj = fsname(nm)[:len(fsname(nm)) - len(fsext(nm))] + ".x1"
                # an object file of an earlier run may be there
                w.k["readable"] = ([] if e.get("src") is False else [nm]) + ([obj] if old and obj != nm else [])
                w.k["writable"] = [] if e.get("obj") is False else [obj]
                w.k["answers"] = {"fork": e.get("fork"), "waitpid": e.get("wait", True), "exec": e.get("exec", True), "load": bool(ld), "entry": bool(en), "run": bool(rn)}
                w.val = {"status": e.get("status", 0), "pid": 1234}
                w.text.update({"error of " + x: "E-" + x for x in ("load", "entry", "run")})
                r.append(w)
    return r


def car_ref(w):
    k = w.k
    nm = k["file"]
    x = fsext(nm)
    stem = fsname(nm)[:len(fsname(nm)) - len(x)] if x else fsname(nm)

    def go(obj):
        ev = ["load " + obj]
        for a, b in (("load", "entry 0"), ("entry", "run entry"), ("run", None)):
            if not k[a]:
                return ("error", tuple(ev))
            if b:
                ev.append(b)
        return ("done", tuple(ev))
    if x == ".a60":
        if not k["compiler"] or k.get("fork") == "failed":
            return ("error", ())
        if k["fork"] == "child":
            if k.get("src") is False:
                return ("child fails", ())
            if k.get("obj") is False:
                return ("child fails", (stem + ".x1",))
            if k.get("exec") is False:
                return ("child fails", (stem + ".x1",))
            files = [nm] + (["deflib"] if k["n"] < 2 else ["lib%d" % i for i in range(1, k["n"])])
            return ("compiler", k["compiler"], (k["compiler"],) + tuple(files), stem + ".x1", (stem + ".x1",))
        if k.get("wait") is False or k.get("status"):
            return ("error", ())
        return go(stem + ".x1")
    if x == ".x1":
        if k["n"] > 1:
            return ("error", ())
        return go(nm)
    return ("error", ())


def car_see(w, e, o):
    st = o.st
    conds = dict(st.tags.get("conds", ()))
    if conds.get(("fork",)) == "child":
        return child(e, st, o)
    ev = []
    for v in st.events:
        if v[0] == "load":
            ev.append("load " + e.t(v[1]))
        elif v[0] == "entry":
            ev.append("entry %d" % e.ev(v[1]))
        elif v[0] == "run":
            ev.append("run entry" if v[1] is sym("entry", 32) else "run %s" % v[1])
        elif v[0] in ("open", "exec", "open-file", "dup2"):
            ev.append("%s %s" % (v[0], v[1:]))
    if o.kind == "ret":
        return ("done", tuple(ev))
    if o.kind == "exit":
        s = o.val[1]
        return ("error" if s is not None and is_c(s) and cval(s) & 255 and any(v[0] == "out" and "cerr" in str(v[1]) for v in st.events) else "exit with status %s" % s, tuple(ev))
    if o.kind == "throw":
        what = o.val[2] if isinstance(o.val, tuple) and len(o.val) > 2 else None
        return ("error" if what else "exception without a message", tuple(ev))
    return (o.kind, tuple(ev))


@group("compile")
def _(sim):
    return [Prim("Machine::compile_and_run", "%d file%s given" % (n, "s" * (n > 1)), None, None, runner=car_runner(n)) for n in (1, 2, 3)]


# ------------------------------------------------------------ object loader
LINES = ["  100        5", "10048 134217727", "A       00 00 02", "LONGNAME9 12 31 31", " 9 26  0", "31 31 31", "", "END", "100", "x 1", "- 5", "A 1 2",
         "5 1 2 3", "12 x", "  ", "1,2", "\t7\t8", "0x10 5", "ABCDEFGHIJKL 1 2 3", "A 1 2 x", "1 2 3 4 5", "# 1", "; 1 2", "*", "%", "/ 1", "1 2 45", "0 0", "0 0 0", "77777 1"]


def load_line(l):
    """what a line of an object program denotes"""
    if l == "":
        return ()
    k, v = scan(l, "%9s %u %u %u")
    if k == 4:
        return ("symbol", v[0], (v[1] * 32 + v[2]) * 32 + v[3])
    k, v = scan(l, "%u %u %u")
    if k == 3:
        return ("entry", (v[0] * 32 + v[1]) * 32 + v[2])
    k, v = scan(l, "%u %u")
    if k == 2:
        return ("word",) + tuple(v)
    return None


def load_ref(w):
    if not w.k["exists"]:
        return ("error", True, ())
    ev = []
    for l in w.lines:
        x = load_line(l)
        if x is None:
            return ("error", True, tuple(ev))
        if x:
            ev.append(x)
    return ("done", True, tuple(ev))


def load_run(sim, it, fn):
    h = host_it(sim, it, 3)

    def p_store(it, I, args, st, fn):
        st.events += (("word", args[1], args[2]),)
        return [Out("ret", None, st)]

    def p_push(it, I, args, st, fn):
        if "basic_string" in I.x[0].v.split("E9push_back")[0] or args[0].a != ("M", sim.mf["entry_table"][0]):
            return None
        v = it.load(st, args[1], 4, I32)
        st.events += (("entry", v),)
        return [Out("ret", None, st)]
    it.models["Machine::mem_store"] = p_store
    it.models["std::vector::push_back"] = it.models["std::vector::emplace_back"] = p_push
    base = it.store

    def store(st, p, size, v):
        if p.op == "ptr" and isinstance(p.a[0], tuple) and p.a[0][0] == "symbol":
            st.events += (("symbol", p.a[0][1], v),)
            return
        return base(st, p, size, v)
    it.store = store
    h.initial[("arg", 0)] = S(("sym", "object"))
    outs = it.run(fn, [ptr("M", 0), ptr("arg", 0)], sim.init_state(frame=None))
    worlds = []
    for ls in [[]] + [[l] for l in LINES] + [[a, b] for a in LINES[:8] for b in LINES[:9]]:
        w = World(lines=ls, exists=True, readable=["o.x1"])
        w.text = {"object": "o.x1", **{"line%d" % i: l for i, l in enumerate(ls)}}
        worlds.append(w)
    w = World(lines=[], exists=False, readable=[])
    w.text = {"object": "o.x1"}
    worlds.append(w)

    def see(w, e, o):
        ev, big = [], True
        for v in o.st.events:
            if v[0] == "word":
                ev.append(("word", e.ev(v[1]), e.ev(v[2])))
            elif v[0] == "entry":
                ev.append(("entry", e.ev(v[1])))
            elif v[0] == "symbol":
                ev.append(("symbol", e.t(v[1]), e.ev(v[2])))
            elif v[0] == "scan-width":
                big = big and v[1] < v[2]
        if o.kind == "throw" and o.val[2]:
            m = e.t(o.val[2])
            if not w.k["exists"] and "o.x1" not in m:
                return ("error without the file name", big, tuple(ev))
            return ("error", big, tuple(ev))
        return ("done" if o.kind == "ret" else o.kind, big, tuple(ev))
    return judge(worlds, outs, load_ref, see), len(outs)


@group("loader")
def _(sim):
    i = sym("index", 32)
    k = ("M", sim.mf["entry_table"][0])
    n = sym("entries", 64, 0, 1 << 20)

    def state():
        st = sim.init_state(frame=None)
        st.vecs[k] = Vec(("init", k), n)
        st.tags[("layout", k)] = [(0, 4, I32)]
        return st

    def entry_run(sim, it, fn):
        it.catches = None
        outs = it.run(fn, [ptr("M", 0), i], state())
        d = []
        for o in outs:
            inside = it.decide(o.st, icmp("ult", zext(i, 64), n, o.st.facts))
            if inside is None:
                raise AnalysisError("the outcome does not depend on the number of entries")
            want = it.load(o.st, ptr(("cell", k, zext(i, 64)), 0), 4, I32)
            if inside and (o.kind != "ret" or o.val is not want):
                d.append("an existing entry yields %s %s" % (o.kind, o.val))
            if not inside and o.kind != "throw":
                d.append("a missing entry yields %s %s" % (o.kind, o.val))
        return d, len(outs)
    return [Prim("Machine::load_object_program", "files of up to two lines", None, None, runner=load_run),
            Prim("Machine::get_entry", "any index", None, None, runner=entry_run)]


# ---------------------------------------------------------- default library
def lib_ref(w):
    k = w.k
    if k["lib"] is not None:
        return ("found", k["lib"])
    c = []
    if k["home"] is not None:
        c.append(k["home"] + "/.x1algol.lib")
    p = fsparent(fsparent(k["argv0"])) or "/usr/local"
    c += [p + "/lib/x1algol.lib", p + "/../library/x1algol.lib"]
    for x in c:
        x = x.replace("//", "/")
        if x in w.readable:
            return ("found", x)
    return ("error", True)


def lib_run(sim, it, fn):
    h = host_it(sim, it)
    key = ("M", sim.mf["default_library"][0])
    st = sim.init_state(frame=None)
    argv0 = h.cs(S(("sym", "argv0")))
    outs = it.run(fn, [ptr("M", 0), argv0], st)
    paths(it, outs)
    worlds = []
    for argv0 in ("/opt/x/bin/x1sim", "x1sim", "build/simulator/x1sim", "./x1sim", "/x1sim"):
        p = fsparent(fsparent(argv0)) or "/usr/local"
        cand = ["/home/u/.x1algol.lib", (p + "/lib/x1algol.lib").replace("//", "/"), (p + "/../library/x1algol.lib").replace("//", "/")]
        for lib, home, have in itertools.product((None, "/l/my.lib"), (None, "/home/u"), range(8)):
            w = World(argv0=argv0, lib=lib, home=home, readable=[c for i, c in enumerate(cand) if have >> i & 1])
            w.text = {"argv0": argv0}
            if lib is not None:
                w.text["$X1ALGOL_LIB"] = lib
            if home is not None:
                w.text["$HOME"] = home
            worlds.append(w)

    def see(w, e, o):
        if o.kind == "ret":
            v = o.st.tags.get(("sv", key))
            return ("found", e.t(v) if v is not None else None)
        return ("error", bool(o.val[2])) if o.kind == "throw" else (o.kind,)
    return judge(worlds, outs, lib_ref, see), len(outs)


@group("library")
def _(sim):
    return [Prim("Machine::find_default_library", "every combination of places", None, None, runner=lib_run)]


# -------------------------------------------------------------------- trace
def trace_run(sim, it, fn):
    h = host_it(sim, it)
    on = sym("on", 1)
    d, n = [], 0
    old = it.init_load
    for given, was in itertools.product((False, True), (0, 1)):
        def load(it_, st, obj, off, size, ty):
            if isinstance(obj, str) and "debug_flag" in obj:
                return const(was, ty.a)
            return old(it_, st, obj, off, size, ty)
        it.init_load = load
        outs = it.run(fn, [h.cs(S(("sym", "trace"))) if given else PTR0, on], sim.init_state(frame=None))
        n += len(outs)
        worlds = []
        for nm, can, op, o in itertools.product(("", "t.out") if given else ("",), (True, False), (True, False), (0, 1)):
            w = World(name=nm if given else None, writable=[nm] if can else [], open_before=op, on=o)
            w.k["answers"] = {"is-open": op}
            w.text, w.val = {"trace": nm}, {"on": o}
            worlds.append(w)

        def ref(w):
            if not w.k["name"]:
                return ("done", (), max(was, w.k["on"]))
            if not w.writable:
                return ("error", (("write", w.k["name"], True),), None)
            return ("done", (("write", w.k["name"], True),), max(was, w.k["on"]))

        def see(w, e, o):
            op = tuple((v[1], e.t(v[2]), v[3] is None or v[3] & 1 == 0) for v in o.st.events if v[0] == "open-file")
            flag = it.load(o.st, ptr("@_ZN7Machine10debug_flagE", 0), 1, Ty("int", 8))
            if o.kind == "throw":
                return ("error" if o.val[2] and w.k["name"] in e.t(o.val[2]) else "error without the name", op, None)
            return ("done" if o.kind == "ret" else o.kind, op, e.ev(flag) & 1)
        d += judge(worlds, outs, ref, see)
    return d, n


@group("tracefile")
def _(sim):
    return [Prim("Machine::redirect_trace", "with and without a file", None, None, runner=trace_run)]


# --------------------------------------------------------------------- main
def main_run(sim, it, fn):
    h = host_it(sim, it, 4)
    fo = sim.mf["input_files"][0]

    def p_new(it, I, args, st, fn):
        m = args[0].a[0]
        st.tags["machine"] = m
        k = (m, fo)
        st.vecs[k] = Vec(("empty",), const(0, 64))
        st.tags[("sv", (m, sim.mf["compiler_path"][0]))] = ()
        st.tags[("sv", (m, sim.mf["default_library"][0]))] = ()
        it.store(st, ptr(m, sim.mf["exit_status"][0]), 4, sym("exit_status", 32, 0, 255))
        return [Out("ret", None, st)]

    def setup(it, st, args):
        m = args[0].a[0]
        k, v = it.vec(st, ptr(m, fo))
        if not is_c(v.size):
            raise AnalysisError("unknown number of files")
        fl = tuple(it.host.string(it, st, ptr(("cell", k, const(i, 64)), 0)) for i in range(cval(v.size)))
        dbg = it.load(st, ptr("@_ZN7Machine10debug_flagE", 0), 1, Ty("int", 8))
        return ("setup", fl, it.host.string(it, st, ptr(m, sim.mf["compiler_path"][0])), dbg)

    def nothing(it, I, args, st, fn):
        return [Out("ret", None, st)]

    def p_trace_stream(it, I, args, st, fn):
        return [Out("ret", ptr("tracestream", 0), st)]
    it.models.update({
        "Machine::Machine": p_new, "Machine::~Machine": nothing,
        "Machine::compile_and_run": event_model("go", (), None, setup),
        "Machine::find_default_library": event_model("findlib", (1,)),
        "Machine::redirect_trace": event_model("trace", (0,)),
        "Machine::get_trace_stream": p_trace_stream})
    old = it.init_load

    def load(it_, st, obj, off, size, ty):
        if obj == "argv" and ty.k == "ptr":
            return h.cs(S(("sym", "argv%d" % (off // 8)))) if isinstance(off, int) else None
        return old(it_, st, obj, off, size, ty)
    it.init_load = load
    st = sim.init_state(frame=None)
    it.store(st, ptr("@_ZN7Machine10debug_flagE", 0), 1, const(0, 8))
    outs = it.run(fn, [sym("argc", 32, 1, 100), ptr("argv", 0)], st)
    worlds = []
    cmds = [[], ["p.a60"], ["p.x1"], ["p.a60", "l1"], ["-h"], ["--help"], ["-V"], ["--version"], ["-d", "p.a60"], ["--debug", "p.a60"],
            ["p.a60", "--debug"], ["p.a60", "-d"], ["-T", "t.out", "p.a60"], ["--trace=t.out", "p.a60"], ["-Tt.out", "p.a60"], ["p.a60", "--trace=t.out"],
            ["--trace", "t.out", "p.a60"], ["-d", "--trace=t.out"], ["-x"], ["--nonsense"], ["p.a60", "-x"], ["p.a60", "-h"], ["p.a60", "l1", "l2"], ["-d"], ["--trace=t.out"],
            ["-d", "-T", "t.out"], ["-T"], ["--trace"], ["--debug=1", "p.a60"], ["-dTt.out", "p.a60"], ["-V", "p.a60"], ["-d", "-V"], ["-dh"], ["-T", "t", "-T", "u", "p.a60"]]
    for c in cmds:
        for tr, fi, go, es, a0 in itertools.product((True, False), (True, False), (True, False), (0, 1, 3), ("x1sim", "/b/x1sim")):
            if (a0 != "x1sim" or es) and not (tr and fi and go):
                continue
            w = World(argv=c, trace=tr, findlib=fi, go=go, status=es, argv0=a0)
            w.k["answers"] = {"trace": tr, "findlib": fi, "go": go}
            w.text = {"argv0": a0, "what": "MESSAGE"}
            w.val = {"exit_status": es, "argc": len(c) + 1}
            worlds.append(w)

    def see(w, e, o):
        st = o.st
        err = "".join(e.t(v[2]) for v in st.events if v[0] == "out" and "cerr" in str(v[1]))
        out = "".join(e.t(v[2]) for v in st.events if v[0] == "out" and "cout" in str(v[1]))
        act, lib, go = [], False, None
        for v in st.events:
            if v[0] == "trace":
                act.append("trace " + e.t(v[1]))
            elif v[0] == "findlib":
                lib = e.t(v[1])
            elif v[0] == "go":
                go = v[1]
        s = o.val if o.kind == "ret" else o.val[1] if o.kind == "exit" else None
        s = e.ev(s) & 255 if isinstance(s, T) else None
        run = None
        if go:
            run = (tuple(e.t(x) for x in go[1]), e.t(go[2]), e.ev(go[3]) & 1)
        msg = "message" if "MESSAGE" in err else "usage" if "Usage" in err else "other text" if err else ""
        kind = "end" if o.kind in ("ret", "exit") else "uncaught exception" if o.kind == "throw" else o.kind
        return (kind, s, msg, "usage" if "Usage" in out else "version" if "Version" in out else "", tuple(act), lib, run)

    def ref(w):
        """[kind, status, standard error, standard output, trace, library search, run]"""
        files, dbg, trace = [], 0, None
        a = list(w.argv)
        while a:
            x = a.pop(0)
            if x in ("-h", "--help", "-dh"):
                return ("end", 0, "", "usage", (), False, None)
            if x in ("-V", "--version"):
                return ("end", 0, "", "version", (), False, None)
            if x in ("-d", "--debug"):
                dbg = 1
            elif x == "-dTt.out":
                dbg, trace = 1, "t.out"
            elif x in ("-T", "--trace") and a:
                trace = a.pop(0)
            elif x.startswith("--trace="):
                trace = x[8:]
            elif x.startswith("-T") and len(x) > 2:
                trace = x[2:]
            elif x.startswith("-"):
                return ("end", 1, "usage", "", (), False, None)
            else:
                files.append(x)
        if not files:
            return ("end", 1, "usage", "", (), False, None)
        act = ("trace " + trace,) if trace else ()
        fail = lambda lib, run: ("end", 1, "message", "", act, lib, run)
        if trace and not w.k["trace"]:
            return fail(False, None)
        lib = w.argv0 if len(files) == 1 else False
        if lib and not w.k["findlib"]:
            return fail(lib, None)
        run = (tuple(files), "x1algc", dbg)
        if not w.k["go"]:
            return fail(lib, run)
        return ("end", w.k["status"], "", "", act, lib, run)
    return judge(worlds, outs, ref, see), len(outs)


@group("main")
def _(sim):
    return [Prim("main", "every kind of option", None, None, runner=main_run)]
