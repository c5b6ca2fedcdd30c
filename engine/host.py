"""Models of the library and system calls the simulator's command line uses:
texts are symbolic, every call with an outcome of its own forks the path and
leaves a condition, every call with an effect leaves an event.

A text is a tuple of parts; a part is a string constant or a symbolic part:
("sym", name), ("ext"|"stem"|"parent"|"name", text), ("join", text, text),
("dec", term)."""
import re
from terms import *
from ir import AnalysisError, Ty
from absint import Out, Agg
from models import Vec, gepc

I8, I32, I64 = Ty("int", 8), Ty("int", 32), Ty("int", 64)

BASE = {"exception": None, "runtime_error": "exception", "logic_error": "exception", "bad_alloc": "exception", "bad_cast": "exception",
        "out_of_range": "logic_error", "invalid_argument": "logic_error", "length_error": "logic_error", "domain_error": "logic_error",
        "overflow_error": "runtime_error", "underflow_error": "runtime_error", "range_error": "runtime_error",
        "system_error": "runtime_error", "filesystem_error": "system_error", "failure": "system_error"}


def ename(ti):
    m = re.match(r"_ZTISt\d+(?:__cxx11)?(\w+)$", ti or "") or re.match(r"_ZTINSt.*?(\d+)(filesystem_error|failure)", ti or "")
    return m.group(m.lastindex) if m else None


def catches(exc, ti):
    """does a handler for the typeinfo ti take the exception"""
    t, c = exc[1], ename(ti)
    t = ename(t) if str(t).startswith("_ZTI") else (t if t in BASE else "runtime_error")
    while t is not None:
        if t == c:
            return True
        t = BASE.get(t)
    return False


def text(*parts):
    r = []
    for p in parts:
        for q in (p if isinstance(p, tuple) and (not p or not isinstance(p[0], str) or p[0] not in KINDS) else (p,)):
            if q == "":
                continue
            if isinstance(q, str) and r and isinstance(r[-1], str):
                r[-1] += q
            else:
                r.append(q)
    return tuple(r)


KINDS = ("sym", "ext", "stem", "parent", "name", "join", "dec", "cat")


def S(x):
    """the text consisting of one symbolic part or one constant"""
    return (x,) if x != "" else ()


def is_path(sh):
    return "filesystem" in sh


class Host:
    """installed as the default model of an interpreter"""

    def __init__(self, sim):
        self.sim = sim
        self.initial = {}          # object/offset of a string -> text
        self.names = {}

    def install(self, it):
        self.fallback = it.libcall
        it.default_model = lambda it_, I, sh, args, st, fn: self.call(it_, I, sh, args, st, fn)
        it.strval = lambda st, p: self.sv(it, st, p)
        it.catches = catches
        old = it.init_load

        def load(it_, st, obj, off, size, ty):
            if isinstance(obj, tuple) and obj and obj[0] == "cs":
                return self.char(obj[1], off, size, ty)
            if obj == "@optarg" and ty.k == "ptr":
                return self.cs(st.tags.get("optarg", (("sym", "optarg"),)))
            return old(it_, st, obj, off, size, ty)
        it.init_load = load
        it.indirect = lambda I, env, st: self.indirect(it, I, env, st)
        it.models.pop("std::to_string", None)
        for k in dir(self):
            if k.startswith("sys_"):
                it.models[k[4:]] = getattr(self, k)

    # --- texts
    def char(self, v, off, size, ty):
        if ty.k != "int":
            return None
        if all(isinstance(x, str) for x in v) and isinstance(off, int):
            b = "".join(v).encode("latin-1", "replace") + b"\0"
            return const(b[off], ty.a) if off < len(b) and size == 1 else None
        if isinstance(off, int) and v and isinstance(v[0], str) and off < len(v[0]):
            return const(ord(v[0][off]), ty.a)
        return sym(("char", v, off), ty.a)

    def cs(self, v, off=0):
        return ptr(("cs", v), off)

    def sv(self, it, st, p):
        if not isinstance(p, T) or p.op != "ptr":
            return None
        o, off = p.a
        if isinstance(o, tuple) and o and o[0] == "cs":
            return o[1] if off == 0 else None
        v = st.tags.get(("sv", p.a))
        if v is not None:
            return v
        if isinstance(o, str) and o.startswith("@") and isinstance(off, int):
            try:
                s = self.sim.prog.cstring(None, o[1:], off)
                return S(s) if s is not None else None
            except Exception:
                return None
        return None

    def string(self, it, st, p):
        """text of a string object"""
        v = self.sv(it, st, p)
        if v is None:
            if p.op != "ptr":
                raise AnalysisError("a string at an unknown address: " + it.where())
            v = self.initial.get(p.a)
            if v is None:
                o, off = p.a
                if isinstance(o, tuple) and o[0] == "cell" and o[1] in self.initial and is_c(o[2]):
                    v = S(("sym", "%s[%d]" % (self.initial[o[1]], cval(o[2]))))
                else:
                    v = S(("sym", "%s" % (it.fieldname(o, off, 32) if o == "M" else show(p),)))
            st.tags[("sv", p.a)] = v
        return v

    def put(self, st, p, v):
        if p.op != "ptr":
            raise AnalysisError("assignment to a string at an unknown address")
        st.tags[("sv", p.a)] = v

    # --- forks
    def cond(self, st, what, val):
        """record the outcome of a condition; False when already decided otherwise"""
        c = st.tags.get("conds", ())
        for w, v in c:
            if w == what:
                return v == val
        st.tags["conds"] = c + ((what, val),)
        return True

    def fork(self, st, what, alts, loc=None):
        """alts: [(outcome, kind, value, action)]"""
        r = []
        for out, kind, val, act in alts:
            s = st.copy()
            if self.cond(s, what, out):
                v = act(s) if act else None
                r.append(Out(kind, val if v is None else v, s, loc))
        return r

    def equal(self, st, a, b, I):
        """comparison of two texts"""
        if a == b:
            return [Out("ret", const(1, 1), st)]
        if all(isinstance(x, str) for x in a + b):
            return [Out("ret", const(0, 1), st)]
        if b and not isinstance(b[0], str) and all(isinstance(x, str) for x in a):
            a, b = b, a
        if all(isinstance(x, str) for x in b):
            c = dict(st.tags.get("conds", ()))
            known = [w[2] for w, v in c.items() if w[0] == "eq" and w[1] == a and v]
            if known and known[0] != b:
                return [Out("ret", const(0, 1), st)]
        return self.fork(st, ("eq", a, b), [(True, "ret", const(1, 1), None), (False, "ret", const(0, 1), None)], I.loc)

    # --- calls
    def call(self, it, I, sh, args, st, fn):
        R = lambda v=None: [Out("ret", v, st)]
        tail = sh.split("::")[-1]
        nm = I.x[0].v
        get = lambda p: self.string(it, st, p)
        if is_path(sh) or "10filesystem" in nm and tail.startswith(("operator", "_ZNK")) or "path" in sh.split("::"):
            r = self.path_call(it, I, sh, tail, args, st)
            if r is not None:
                return r
        if "basic_string::" in sh:
            if tail in ("~basic_string", "reserve", "shrink_to_fit"):
                return R()
            if tail == "basic_string":
                self.put(st, args[0], get(args[1]) if len(args) > 1 else ())
                return R()
            if tail in ("operator=", "assign") and len(args) == 2:
                self.put(st, args[0], get(args[1]))
                return R(args[0])
            if tail in ("operator+=", "append") and len(args) == 2:
                self.put(st, args[0], text(get(args[0]), get(args[1])))
                return R(args[0])
            if tail in ("c_str", "data"):
                return R(self.cs(get(args[0])))
            if tail in ("size", "length"):
                v = get(args[0])
                return R(const(len("".join(v).encode()), 64) if all(isinstance(x, str) for x in v) else sym(("length", v), 64, 0, 1 << 20))
            if tail == "empty":
                v = get(args[0])
                if any(isinstance(x, str) for x in v):
                    return R(const(0, 1))
                return R(icmp("eq", self.char(v, 0, 1, I8), const(0, 8), st.facts) if v else const(1, 1))
            if tail in ("operator[]", "at", "front"):
                i = args[1] if len(args) > 1 else const(0, 64)
                if is_c(i):
                    return R(self.cs(get(args[0]), cval(i)))
            if tail in ("compare",) and len(args) == 2:
                r = self.equal(st, get(args[0]), get(args[1]), I)
                for o in r:
                    o.val = const(1 - cval(o.val), 32)
                return r
        if tail in ("operator==", "operator!=") and ("basic_string" in nm or "St7__cxx11" in nm) and len(args) == 2 and "normal_iterator" not in nm:
            r = self.equal(st, get(args[0]), get(args[1]), I)
            if tail == "operator!=":
                for o in r:
                    o.val = const(1 - cval(o.val), 1)
            return r
        if tail == "operator+" and "basic_string" in nm and len(args) == 3:
            a = text(*[S(chr(cval(x) & 255)) if isinstance(x.w, int) and is_c(x) else get(x) for x in args[1:]])
            self.put(st, args[0], a)
            return R(args[0] if I.ty.k == "ptr" else None)
        if sh in ("std::to_string", "std::__cxx11::to_string"):
            a = args[1]
            self.put(st, args[0], S(str(sval(a))) if is_c(a) else S(("dec", a)))
            return R(None)
        if sh.startswith(("std::allocator", "std::__new_allocator")):
            return R()
        if sh.endswith(("_error::runtime_error", "::invalid_argument", "::logic_error", "::out_of_range")) and len(args) == 2:
            st.tags[("what", args[0].a[0])] = get(args[1])
            return R()
        if sh == "std::exception::what" or sh.endswith("::what"):
            return R(self.cs(S(("sym", "what"))))
        if sh == "strrchr":
            v = self.sv(it, st, args[0])
            return self.fork(st, ("strrchr", v), [(True, "ret", self.cs((("name", v),)), None), (False, "ret", PTR0, None)])
        if sh.startswith("std::map::") and tail in ("operator[]", "insert_or_assign") and "basic_string" in nm:
            return R(ptr(("symbol", get(args[1])), 0))
        if sh.startswith("std::basic_ifstream::") or sh.startswith("std::basic_ofstream::") or sh.startswith("std::basic_fstream::"):
            return self.file_call(it, I, sh, tail, args, st)
        if sh == "std::getline":
            n = st.tags.get(("lines", args[0].a), 0)

            def got(s):
                s.tags[("lines", args[0].a)] = n + 1
                self.put(s, args[1], S(("sym", "line%d" % n)))
            return self.fork(st, ("getline", n), [(True, "ret", args[0], got), (False, "ret", args[0], lambda s: s.tags.__setitem__("eof", True))])
        if sh in ("std::basic_ios::operator bool", "std::basic_ios::good"):
            return R(const(0 if st.tags.get("eof") else 1, 1))
        if sh in ("std::basic_ios::operator!", "std::basic_ios::fail", "std::basic_ios::eof"):
            return R(const(1 if st.tags.get("eof") else 0, 1))
        if sh in ("sscanf", "__isoc23_sscanf", "__isoc99_sscanf"):
            return self.sscanf(it, I, args, st)
        if "operator{shl}" in sh:
            return self.out(it, I, sh, args, st)
        if sh.startswith("std::vector::") and tail in ("push_back", "emplace_back") and "basic_string" in nm.split("E" + str(len(tail)))[0] and len(args) == 2:
            key, v = it.vec(st, args[0])
            self.put(st, ptr(("cell", key, v.size), 0), get(args[1]))
            st.vecs[key] = Vec(v.base, addc(v.size, 1), v.log)
            return R(ptr(("cell", key, v.size), 0) if I.ty.k == "ptr" else None)
        return self.fallback(I, sh, args, st, fn)

    def path_call(self, it, I, sh, tail, args, st):
        R = lambda v=None: [Out("ret", v, st)]
        get = lambda p: self.string(it, st, p)
        if tail == "~path":
            return R()
        if tail == "path":
            src = args[1] if len(args) > 1 else None
            if src is not None and re.search(r"pathC[12]I(PKc|Pc)", I.x[0].v):
                src = it.load(st, src, 8, Ty("ptr", None))
            self.put(st, args[0], get(src) if src is not None else ())
            return R()
        if tail in ("operator=", "assign"):
            self.put(st, args[0], get(args[1]))
            return R(args[0])
        if tail in ("extension", "stem", "parent_path", "filename"):
            k = {"extension": "ext", "parent_path": "parent", "filename": "name"}.get(tail, tail)
            self.put(st, args[0], S((k, get(args[1]))))
            return R()
        if tail in ("string", "native") or "cvNSt7__cxx11" in tail or tail.startswith("operator std"):
            if len(args) == 2:
                self.put(st, args[0], get(args[1]))
                return R()
            return R(args[0])
        if tail == "c_str":
            return R(self.cs(get(args[0])))
        if tail == "empty":
            return self.equal(st, get(args[0]), (), I)
        if tail == "operator/":
            self.put(st, args[0], S(("join", get(args[1]), get(args[2]))))
            return R()
        if tail == "operator/=":
            self.put(st, args[0], S(("join", get(args[0]), get(args[1]))))
            return R(args[0])
        if tail in ("operator==", "operator!="):
            r = self.equal(st, get(args[0]), get(args[1]), I)
            for o in r if tail == "operator!=" else ():
                o.val = const(1 - cval(o.val), 1)
            return r
        if tail in ("replace_extension",):
            self.put(st, args[0], S(("cat", get(args[0]), get(args[1]))))
            return R(args[0])
        if sh.endswith("filesystem::exists"):
            return self.fork(st, ("exists", get(args[0])), [(True, "ret", const(1, 1), None), (False, "ret", const(0, 1), None)])
        return None

    def file_call(self, it, I, sh, tail, args, st):
        R = lambda v=None: [Out("ret", v, st)]
        mode = "read" if "ifstream" in sh else "write"
        key = ("file", args[0].a)
        if tail == "open" or tail.startswith("basic_") and len(args) > 1:
            v = self.string(it, st, args[1])
            m = cval(args[2]) if len(args) > 2 and is_c(args[2]) else None

            def act(ok):
                def f(s):
                    s.tags[key] = ok
                    s.events += (("open-file", mode, v, m),)
                return f
            return self.fork(st, ("file", mode, v), [(True, "ret", None, act(True)), (False, "ret", None, act(False))])
        if tail == "is_open":
            if key in st.tags:
                return R(const(1 if st.tags[key] else 0, 1))
            return self.fork(st, ("is-open", args[0].a), [(True, "ret", const(1, 1), lambda s: s.tags.__setitem__(key, True)),
                                                         (False, "ret", const(0, 1), lambda s: s.tags.__setitem__(key, False))])
        if tail in ("close",):
            st.tags[key] = False
            st.events += (("close-file", args[0].a),)
            return R()
        if tail.startswith(("~", "basic_")):
            return R()
        return self.fallback(I, sh, args, st, None)

    def sscanf(self, it, I, args, st):
        v, f = self.sv(it, st, args[0]), self.sv(it, st, args[1])
        if v is None or f is None or not all(isinstance(x, str) for x in f):
            raise AnalysisError("scan of an unknown text or format: " + it.where())
        f = "".join(f)
        conv = re.findall(r"%(\*?)(\d*)([a-z]+)", f)
        ptrs = args[2:]
        if any(c[0] for c in conv) or len(conv) != len(ptrs):
            raise AnalysisError("unsupported scan format " + f)
        for j, (_, w, kind) in enumerate(conv):
            if kind in ("u", "d", "i", "o", "x"):
                it.store(st, ptrs[j], 4, sym(("scan", v, f, j), 32))
            elif kind == "s":
                self.put(st, ptrs[j], S(("sym", ("scan", v, f, j))))
                room = it.objsize.get(ptrs[j].a[0], 0) - (ptrs[j].a[1] if isinstance(ptrs[j].a[1], int) else 0)
                st.events += (("scan-width", int(w or 1 << 20), room),)
            else:
                raise AnalysisError("unsupported scan format " + f)
        n = sym(("scan", v, f, -1), 32)
        st.facts[n] = norm((0, (1 << 32) - 1, -1, len(conv)), 32)
        return [Out("ret", n, st)]

    def out(self, it, I, sh, args, st):
        """text written to a standard stream"""
        if len(args) < 2 or args[0].op != "ptr":
            return self.fallback(I, sh, args, st, None)
        o = args[0].a[0]
        v = args[1]
        s = None
        if v.op == "ptr":
            s = self.sv(it, st, v)
            if s is None and ("sv", v.a) in st.tags:
                s = st.tags[("sv", v.a)]
        st.events += (("out", o, s if s is not None else ()),)
        return [Out("ret", args[0], st)]

    def indirect(self, it, I, env, st):
        a = [it.val(x, env) for x in I.ops]
        if len(a) == 1 and a[0].op == "ptr" and I.ty.k == "ptr":
            return [Out("ret", self.cs(S(("sym", "what"))), st)]
        raise AnalysisError("indirect call in %s" % I.fn.short)

    # --- system calls
    def sys_getenv(self, it, I, args, st, fn):
        v = self.sv(it, st, args[0])
        return self.fork(st, ("getenv", v), [(True, "ret", self.cs(S(("sym", "$" + "".join(v)))), None), (False, "ret", PTR0, None)])

    def sys_access(self, it, I, args, st, fn):
        v = self.sv(it, st, args[0])
        return self.fork(st, ("access", v, args[1]), [(True, "ret", const(0, 32), None), (False, "ret", const(-1, 32), None)])

    def sys_fork(self, it, I, args, st, fn):
        return self.fork(st, ("fork",), [("failed", "ret", const(-1, 32), None), ("child", "ret", const(0, 32), None),
                                         ("parent", "ret", sym("pid", 32, 1, (1 << 31) - 1), None)])

    def sys_open(self, it, I, args, st, fn):
        v = self.sv(it, st, args[0])
        n = len([e for e in st.events if e[0] == "open"])
        e = ("open", v, cval(args[1]), cval(args[2]) if len(args) > 2 else None)

        def act(s):
            s.events += (e,)
        return self.fork(st, e, [(True, "ret", sym("fd%d" % n, 32, 3, 1 << 20), act), (False, "ret", const(-1, 32), act)])

    def sys_close(self, it, I, args, st, fn):
        return [Out("ret", const(0, 32), st)]

    def sys_dup2(self, it, I, args, st, fn):
        st.events += (("dup2", args[0], args[1]),)
        return [Out("ret", args[1], st)]

    def sys_execvp(self, it, I, args, st, fn):
        argv = []
        for i in range(64):
            p = it.load(st, ptr(args[1].a[0], addc(args[1].a[1], 8 * i)) if not isinstance(args[1].a[0], tuple) or args[1].a[0][0] != "cell" else
                        ptr(("cell", args[1].a[0][1], addc(args[1].a[0][2], i)), 0), 8, Ty("ptr", None))
            if p.op == "null":
                break
            v = self.sv(it, st, p)
            if v is None:
                raise AnalysisError("argument list of a program is not known")
            argv.append(v)
        e = ("exec", self.sv(it, st, args[0]), tuple(argv))
        s2 = st.copy()
        st.events += (e,)
        s2.events += (e,)
        self.cond(st, ("exec",), True)
        self.cond(s2, ("exec",), False)
        return [Out("exit", ("exec", None), st, I.loc), Out("ret", const(-1, 32), s2, I.loc)]

    def sys_waitpid(self, it, I, args, st, fn):
        st.events += (("waitpid", args[0], args[2]),)

        def act(s):
            it.store(s, args[1], 4, sym("status", 32))
        return self.fork(st, ("waitpid",), [(True, "ret", args[0], act), (False, "ret", const(-1, 32), None)])

    def sys_exit(self, it, I, args, st, fn):
        return [Out("exit", ("exit", args[0]), st, I.loc)]

    sys__exit = sys_exit

    # --- command line options
    def sys_getopt_long(self, it, I, args, st, fn):
        opts = "".join(self.sv(it, st, args[2]))
        table = []
        for i in range(64):
            base = args[3]
            f = lambda o, n, ty: it.load(st, gepc(base, 32 * i + o), n, ty)
            nm = f(0, 8, Ty("ptr", None))
            if nm.op == "null":
                break
            has, flag, val = f(8, 4, I32), f(16, 8, Ty("ptr", None)), f(24, 4, I32)
            if flag.op != "null":
                raise AnalysisError("option with a flag variable")
            table.append(("".join(self.sv(it, st, nm)), cval(has), cval(val)))
        n = st.tags.get("getopt", 0)
        st.tags["getopt"] = n + 1
        codes = {-1, ord("?"), ord(":")} | {t[2] for t in table} | {ord(c) for c in opts if c not in "-+:"}
        if opts.startswith("-"):
            codes.add(1)
        what = ("getopt", n, opts, tuple(table))
        r = []
        for c in sorted(codes):
            s = st.copy()
            if self.cond(s, what, c):
                s.tags["optarg"] = S(("sym", "optarg%d" % n))
                s.mem.pop("@optarg", None)
                r.append(Out("ret", const(c, 32), s))
        return r


# calls of the C and C++ library with an effect outside the process, and the
# routines documented to have it
EFFECTS = [
    ("changes the file system", r"^(open|open64|openat|creat|fopen|fopen64|freopen|rename|remove|unlink|unlinkat|rmdir|mkdir|chmod|chown|truncate|ftruncate|link|symlink|mkstemp|tmpfile|mknod|utime)$"
     r"|^std::basic_(ofstream|fstream|filebuf)::(open|basic_ofstream|basic_fstream)$|^std::filesystem::(?!__cxx11::)(remove|remove_all|rename|copy\w*|create_\w+|resize_file|permissions|current_path)$",
     ("Machine::run_program", "Machine::redirect_trace")),
    ("starts or stops a process", r"^(fork|vfork|exec\w+|system|popen|posix_spawn\w*|kill|raise|waitpid|wait|dup|dup2|pipe|clone|daemon|setsid)$", ("Machine::run_program",)),
    ("uses the network", r"^(socket|connect|bind|listen|accept|send\w*|recv\w*|getaddrinfo)$", ()),
    ("changes the process environment", r"^(setenv|putenv|unsetenv|chdir|fchdir|setuid|setgid|setrlimit|signal|sigaction|umask|chroot|setlocale)$", ()),
    ("ends the process", r"^(exit|_exit|_Exit|quick_exit|abort|std::terminate|std::abort|std::exit|longjmp|__assert_fail)$",
     ("Machine::compile_and_run", "Machine::run_program", "main", "__clang_call_terminate")),
]
