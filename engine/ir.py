"""LLVM IR (textual) front end for the static analyses.

The sources of /repo are compiled to unoptimised LLVM IR on every run
(clang 18, real language standard, NDEBUG as in the RelWithDebInfo build), the
only transformation applied is `sroa` (promotion of local variables to SSA
values; it does not change control flow and does not exploit undefined
behaviour).  This module parses the text into plain Python objects.
"""
import os, re, subprocess, sys, tempfile, shutil, struct
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("X1_REPO", "/repo")
CLANGXX = "/usr/bin/clang++-18"
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"
CXXFILT = "/usr/bin/llvm-cxxfilt-18" if os.path.exists("/usr/bin/llvm-cxxfilt-18") else "c++filt"


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable input)."""


# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k in ("named",):
            return "%" + self.a
        if self.k == "array":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "struct":
            return "{" + ", ".join(map(repr, self.a)) + "}"
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a if not isinstance(self.a, list) else len(self.a)))


VOID, PTR = Ty("void"), Ty("ptr")
FLOATS = {"float": 4, "double": 8, "x86_fp80": 16, "half": 2, "fp128": 16}
I1, I8, I32, I64 = Ty("int", 1), Ty("int", 8), Ty("int", 32), Ty("int", 64)

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cstr>c"(?:[^"])*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#\d+)
  | (?P<str>"[^"]*")
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<id>[a-zA-Z_$.][a-zA-Z0-9_$.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[][(){}<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise AnalysisError("cannot tokenize IR near: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            t = m.group()
            if k in ("loc", "glob") and t[1:2] == '"':
                t = t[0] + t[2:-1]
            out.append((k, t))
    return out


class Val:
    """Operand of an instruction or constant."""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty=None):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


PARAM_ATTRS = {
    "noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "readnone", "noalias",
    "immarg", "returned", "writeonly", "inreg", "nest", "swiftself", "dead_on_unwind", "writable",
    "noreturn", "allocalign", "allocptr", "nofree",
}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ("eof", "")

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] not in ("str", "cstr"):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise AnalysisError("IR parse: expected %r got %r in %r" % (
                v, self.peek(), " ".join(x[1] for x in self.t)[:300]))

    def is_type(self):
        k, v = self.peek()
        if k == "id":
            return bool(re.fullmatch(r"i\d+", v)) or v in FLOATS or v in (
                "void", "ptr", "label", "metadata", "token")
        if k == "loc":
            return True
        return v in ("[", "{", "<")

    def type(self):
        k, v = self.next()
        if k == "id":
            if re.fullmatch(r"i\d+", v):
                t = Ty("int", int(v[1:]))
            elif v == "ptr":
                t = PTR
            elif v in FLOATS or v in ("void", "label", "metadata", "token", "opaque"):
                t = Ty(v)
            else:
                raise AnalysisError("type? " + v)
        elif k == "loc":
            t = Ty("named", v[1:])
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("array", n, e)
        elif v == "{":
            t = Ty("struct", self._tlist("}"), False)
        elif v == "<":
            if self.acc("{"):
                t = Ty("struct", self._tlist("}"), True)
                self.exp(">")
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vector", n, e)
        else:
            raise AnalysisError("type? " + v)
        # function type
        while self.peek()[1] == "(" and self.t[self.i - 1][1] != "asm":
            # function type "ret (args)"
            save = self.i
            self.i += 1
            ok, args, va = True, [], False
            try:
                while not self.acc(")"):
                    if self.acc("..."):
                        va = True
                    else:
                        args.append(self.type())
                    self.acc(",")
            except AnalysisError:
                ok = False
            if not ok:
                self.i = save
                break
            t = Ty("func", t, (args, va))
        return t

    def _tlist(self, end):
        r = []
        while not self.acc(end):
            r.append(self.type())
            self.acc(",")
        return r

    def param_attrs(self):
        sret = None
        while True:
            k, v = self.peek()
            if k == "id" and v in PARAM_ATTRS:
                self.i += 1
            elif k == "id" and v in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "elementtype", "initializes", "memory"):
                self.i += 1
                if self.peek()[1] == "(":
                    d, st = 0, self.i
                    while True:
                        x = self.next()[1]
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                            if d == 0:
                                break
                    if v in ("sret", "byval"):
                        sret = v
                else:
                    self.i += 1
            elif k == "str":
                self.i += 1
                if self.acc("="):
                    self.i += 1
            else:
                return sret

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return Val("reg", v[1:], ty)
        if k == "glob":
            return Val("glob", v[1:], ty)
        if k == "num":
            if ty.k == "int":
                return Val("int", int(v, 0) & ((1 << ty.a) - 1), ty)
            return Val("fp", parse_fp(v, ty), ty)
        if k == "cstr":
            return Val("bytes", unescape(v[2:-1]), ty)
        if k == "meta":
            # metadata operand: swallow
            if self.peek()[1] == "(":
                self._skip_par()
            return Val("meta", v, ty)
        if k == "id":
            if v == "true":
                return Val("int", 1, ty)
            if v == "false":
                return Val("int", 0, ty)
            if v in ("null", "undef", "poison", "zeroinitializer", "none"):
                return Val(v if v != "none" else "null", None, ty)
            if v == "getelementptr":
                while self.peek()[1] in ("inbounds", "nuw", "nusw", "inrange"):
                    self.i += 1
                    if self.peek()[1] == "(" and self.peek(1)[0] == "num":
                        self._skip_par()
                self.exp("(")
                bt = self.type()
                args = []
                while self.acc(","):
                    self.acc("inrange")
                    t = self.type()
                    args.append(self.value(t))
                self.exp(")")
                return Val("cgep", (bt, args), ty)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.exp("(")
                t = self.type()
                x = self.value(t)
                self.exp("to")
                t2 = self.type()
                self.exp(")")
                return Val("ccast", (v, x, t2), ty)
            if v in ("sub", "add", "mul", "and", "or", "xor", "shl"):
                while self.peek()[0] == "id":
                    self.i += 1
                self.exp("(")
                t = self.type(); a = self.value(t); self.exp(",")
                t = self.type(); b = self.value(t); self.exp(")")
                return Val("cbin", (v, a, b), ty)
            raise AnalysisError("constant? " + v)
        if v in ("{", "[", "<"):
            if v == "<" and self.peek()[1] == "{":
                self.next()
                end = "}"
            else:
                end = {"{": "}", "[": "]", "<": ">"}[v]
            r = []
            while not self.acc(end):
                t = self.type()
                r.append(self.value(t))
                self.acc(",")
            if v == "<" and end == "}":
                self.exp(">")
            return Val("agg", r, ty)
        raise AnalysisError("value? %r" % ((k, v),))

    def _skip_par(self):
        d = 0
        while True:
            x = self.next()[1]
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    return

    def tval(self):
        t = self.type()
        self.param_attrs()
        return self.value(t)


def unescape(s):
    out, i = bytearray(), 0
    b = s.encode("utf-8")
    while i < len(b):
        if b[i] == 0x5C:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def parse_fp(v, ty):
    """exact value as a python Fraction where finite, else float inf/nan"""
    from fractions import Fraction
    if v.startswith("0xK"):
        h = v[3:]
        se, man = int(h[:4], 16), int(h[4:], 16)
        s = -1 if se & 0x8000 else 1
        e = se & 0x7FFF
        if e == 0x7FFF:
            return float("inf") * s if man == 1 << 63 else float("nan")
        if man == 0:
            return Fraction(0) if s > 0 else -0.0
        return Fraction(s * man) * (Fraction(2) ** (e - 16383 - 63))
    if v.startswith("0x"):
        f = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
    else:
        f = float(v)
    if f != f or f in (float("inf"), float("-inf")):
        return f
    if f == 0 and str(f)[0] == "-":
        return -0.0
    return Fraction(f)


# ------------------------------------------------------------ instructions
class Ins:
    __slots__ = ("op", "res", "ty", "ops", "x", "dbg", "fn", "blk", "flags")

    def __init__(self, op):
        self.op = op
        self.res = self.ty = None
        self.ops = []
        self.x = None
        self.dbg = None
        self.fn = None
        self.blk = None
        self.flags = ()

    def __repr__(self):
        return "<%s %s %s %s>" % (self.res, self.op, self.ops, self.x if self.op != "call" else "")

    @property
    def loc(self):
        return self.fn.mod.loc(self.dbg) if self.dbg else self.fn.loc


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or",
       "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc",
        "ptrtoint", "inttoptr", "bitcast"}
FLAGS = {"nsw", "nuw", "exact", "nnan", "ninf", "nsz", "fast", "arcp", "contract", "reassoc", "afn",
         "disjoint", "nneg", "inbounds", "samesign", "nusw"}


def parse_ins(text):
    p = P(tokenize(text))
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = p.next()[1][1:]
        p.next()
    op = p.next()[1]
    if op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    I = Ins(op)
    I.res = res
    fl = []
    if op in BIN or op in ("getelementptr", "icmp", "fcmp", "fneg") or op in CAST or op in ("select", "phi"):
        while p.peek()[0] == "id" and p.peek()[1] in FLAGS:
            fl.append(p.next()[1])
    I.flags = tuple(fl)
    if op in BIN:
        I.ty = p.type()
        a = p.value(I.ty)
        p.exp(",")
        b = p.value(I.ty)
        I.ops = [a, b]
    elif op in ("fneg", "freeze"):
        I.ops = [p.tval()]
        I.ty = I.ops[0].ty
    elif op in CAST:
        a = p.tval()
        p.exp("to")
        I.ty = p.type()
        I.ops = [a]
    elif op in ("icmp", "fcmp"):
        I.x = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        I.ops = [a, b]
        I.ty = I1
    elif op == "br":
        if p.peek()[1] == "label":
            p.next()
            I.x = [p.next()[1][1:]]
        else:
            c = p.tval()
            I.ops = [c]
            p.exp(",")
            p.exp("label")
            a = p.next()[1][1:]
            p.exp(",")
            p.exp("label")
            b = p.next()[1][1:]
            I.x = [a, b]
    elif op == "switch":
        I.ops = [p.tval()]
        p.exp(",")
        p.exp("label")
        d = p.next()[1][1:]
        p.exp("[")
        cases = []
        while not p.acc("]"):
            v = p.tval()
            p.exp(",")
            p.exp("label")
            cases.append((v.v, p.next()[1][1:]))
        I.x = (d, cases)
    elif op == "ret":
        t = p.type()
        I.ty = t
        if t.k != "void":
            I.ops = [p.value(t)]
    elif op == "load":
        p.acc("volatile"); p.acc("atomic")
        I.ty = p.type()
        p.exp(",")
        I.ops = [p.tval()]
    elif op == "store":
        p.acc("volatile"); p.acc("atomic")
        a = p.tval()
        p.exp(",")
        b = p.tval()
        I.ops = [a, b]
    elif op == "alloca":
        I.x = p.type()
        I.ty = PTR
    elif op == "getelementptr":
        I.x = p.type()
        I.ty = PTR
        while p.acc(","):
            if not p.is_type():
                break
            I.ops.append(p.tval())
    elif op == "phi":
        I.ty = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(I.ty)
            p.exp(",")
            b = p.next()[1][1:]
            p.exp("]")
            inc.append((v, b))
            if not p.acc(","):
                break
            if p.peek()[0] == "meta":
                p.i -= 1
                break
        I.x = inc
    elif op == "select":
        I.ops = [p.tval()]
        p.exp(",")
        I.ops.append(p.tval())
        p.exp(",")
        I.ops.append(p.tval())
        I.ty = I.ops[1].ty
    elif op in ("extractvalue", "insertvalue"):
        I.ops = [p.tval()]
        if op == "insertvalue":
            p.exp(",")
            I.ops.append(p.tval())
        idx = []
        while p.acc(","):
            if p.peek()[0] != "num":
                p.i -= 1
                break
            idx.append(int(p.next()[1]))
        I.x = idx
        I.ty = I.ops[0].ty
    elif op in ("call", "invoke"):
        while True:
            k, v = p.peek()
            if k == "id" and v in ("fastcc", "coldcc", "ccc") or v in FLAGS:
                p.i += 1
            else:
                break
        p.param_attrs()
        t = p.type()
        if t.k == "func":
            t = t.a
        I.ty = t
        k, v = p.next()
        if k == "glob":
            callee = Val("glob", v[1:], PTR)
        elif k == "loc":
            callee = Val("reg", v[1:], PTR)
        elif v == "asm":
            callee = Val("asm", None, PTR)
            while p.peek()[1] != "(":
                p.i += 1
        else:
            raise AnalysisError("callee? " + text)
        p.exp("(")
        args = []
        while not p.acc(")"):
            t2 = p.type()
            p.param_attrs()
            args.append(p.value(t2))
            p.acc(",")
        I.ops = args
        I.x = [callee, None, None]
        if op == "invoke":
            while p.peek()[1] != "to":
                p.i += 1
            p.exp("to"); p.exp("label")
            I.x[1] = p.next()[1][1:]
            p.exp("unwind"); p.exp("label")
            I.x[2] = p.next()[1][1:]
    elif op == "landingpad":
        I.ty = p.type()
        cl = []
        while True:
            if p.acc("cleanup"):
                cl.append(("cleanup", None))
            elif p.acc("catch"):
                cl.append(("catch", p.tval()))
            elif p.acc("filter"):
                cl.append(("filter", p.tval()))
            else:
                break
        I.x = cl
    elif op == "resume":
        I.ops = [p.tval()]
    elif op == "unreachable":
        pass
    elif op in ("fence", "va_arg", "cmpxchg", "atomicrmw"):
        pass
    else:
        raise AnalysisError("instruction? " + text)
    # trailing metadata
    for j in range(p.i, len(p.t) - 1):
        if p.t[j][1] == "!dbg":
            I.dbg = p.t[j + 1][1]
            break
    return I


class Block:
    __slots__ = ("name", "ins", "succ", "pred", "fn")

    def __init__(self, name, fn):
        self.name, self.ins, self.succ, self.pred, self.fn = name, [], [], [], fn


class Function:
    def __init__(self, mod, header, lines):
        self.mod = mod
        self._lines = lines
        self._blocks = None
        p = P(tokenize(header.rstrip("{ ").strip()))
        p.exp("define")
        while True:
            k, v = p.peek()
            if k == "id" and v in ("dso_local", "internal", "linkonce_odr", "private", "weak_odr", "weak",
                                   "external", "available_externally", "hidden", "local_unnamed_addr",
                                   "unnamed_addr", "fastcc"):
                if v in ("internal", "private"):
                    self.local = True
                p.i += 1
            elif k == "id" and v == "noundef" or v in PARAM_ATTRS or v in ("align", "dereferenceable"):
                p.param_attrs()
            else:
                break
        self.ret = p.type()
        # type() may have swallowed nothing of "(": name follows
        self.name = p.next()[1][1:]
        p.exp("(")
        self.params = []
        self.sret = None
        while not p.acc(")"):
            if p.acc("..."):
                continue
            t = p.type()
            a = p.param_attrs()
            nm = p.next()[1][1:] if p.peek()[0] == "loc" else None
            if a == "sret":
                self.sret = nm
            self.params.append((nm, t))
            p.acc(",")
        self.dbg = None
        for j in range(p.i, len(p.t) - 1):
            if p.t[j][1] == "!dbg":
                self.dbg = p.t[j + 1][1]
        self.dem = self.name
        if self._autonames():
            pass

    local = False

    def _autonames(self):
        n = 0
        ps = []
        for nm, t in self.params:
            if nm is None:
                nm = str(n)
                n += 1
            ps.append((nm, t))
        self.params = ps
        return n

    @property
    def loc(self):
        return self.mod.loc(self.dbg) if self.dbg else (self.mod.src, 0)

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    @property
    def entry(self):
        return next(iter(self.blocks.values()))

    def _parse(self):
        blocks = {}
        cur = None
        pend = None
        for ln in self._lines:
            s = ln.rstrip()
            if not s.strip() or s.lstrip().startswith(";"):
                continue
            if not s.startswith(" "):
                m = re.match(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', s)
                if m:
                    nm = m.group(1) or m.group(2)
                    cur = Block(nm, self)
                    blocks[nm] = cur
                    continue
            if cur is None:
                cur = Block("0", self)
                blocks["0"] = cur
            s = s.strip()
            if pend is not None:
                pend += " " + s
                if s.startswith("]") or pend_kind == "inv" or pend_kind == "lp":
                    if pend_kind == "lp" and False:
                        pass
                    self._add(cur, pend)
                    pend = None
                continue
            if re.match(r"^switch ", s) and not s.endswith("]") and "]" not in s:
                pend, pend_kind = s, "sw"
                continue
            if re.match(r"^(%\S+ = |%\"[^\"]*\" = )?invoke ", s):
                pend, pend_kind = s, "inv"
                continue
            self._add(cur, s)
        # landingpad clauses come on their own lines: they were appended by _add
        for b in blocks.values():
            t = b.ins[-1] if b.ins else None
            if t is None:
                continue
            if t.op == "br":
                b.succ = list(t.x)
            elif t.op == "switch":
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "invoke":
                b.succ = [t.x[1], t.x[2]]
        for b in blocks.values():
            for s in b.succ:
                blocks[s].pred.append(b.name)
        self._blocks = blocks

    def _add(self, blk, s):
        if s.startswith(("cleanup", "catch ", "filter ")):
            # continuation of a landingpad
            lp = blk.ins[-1]
            p = P(tokenize(s))
            if p.acc("cleanup"):
                lp.x.append(("cleanup", None))
            elif p.acc("catch"):
                lp.x.append(("catch", p.tval()))
            elif p.acc("filter"):
                lp.x.append(("filter", p.tval()))
            for j in range(p.i, len(p.t) - 1):
                if p.t[j][1] == "!dbg":
                    lp.dbg = p.t[j + 1][1]
            return
        if "@llvm.dbg." in s or "@llvm.lifetime." in s or "@llvm.experimental.noalias" in s:
            return
        I = parse_ins(s)
        I.fn = self
        I.blk = blk
        blk.ins.append(I)

    def text_size(self):
        return len(self._lines)

    def instrs(self):
        for b in self.blocks.values():
            for i in b.ins:
                yield i

    def __repr__(self):
        return "<fn %s>" % self.dem


class Module:
    def __init__(self, text, src):
        self.src = src
        # unit-private constants get unit-specific names
        tag = re.sub(r"\W", "_", os.path.basename(src))
        text = re.sub(r"@(\.str|__const\.|switch\.table|_ZStL8__ioinit)", lambda m: "@" + tag + m.group(1), text)
        self.types, self.globals, self.functions = {}, {}, {}
        self.internal = set()
        self.meta = {}
        self._loc = {}
        self.decls = set()
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = Function(self, ln, lines[i + 1:j])
                self.functions[f.name] = f
                i = j
            elif ln.startswith("%") and " = type " in ln:
                nm, body = ln.split(" = type ", 1)
                nm = nm[1:].strip()
                if nm.startswith('"'):
                    nm = nm[1:-1]
                self.types[nm] = None if body.strip() == "opaque" else P(tokenize(body)).type()
            elif ln.startswith("@"):
                self._global(ln)
            elif ln.startswith("declare "):
                m = re.search(r"@([-a-zA-Z$._0-9]+|\"[^\"]*\")\(", ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif ln.startswith("!"):
                m = re.match(r"^(!\d+) = (?:distinct )?(.*)$", ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1

    def _global(self, ln):
        m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        nm = m.group(1).strip('"')
        body = m.group(2)
        m2 = re.match(r"^(.*?)\b(global|constant|alias)\b (.*)$", body)
        if not m2:
            return
        pre, kind, rest = m2.groups()
        if kind == "alias":
            return
        if "external" in pre.split():
            try:
                t = P(tokenize(rest.split(", align")[0].split(", !")[0])).type()
            except AnalysisError:
                t = None
            self.globals[nm] = (t, None, kind == "constant")
            return
        rest = re.split(r", comdat|, align \d+|, !dbg|, section", rest)[0] if 'c"' not in rest else rest
        p = P(tokenize(rest))
        t = p.type()
        try:
            v = p.value(t)
        except AnalysisError:
            v = None
        self.globals[nm] = (t, v, kind == "constant")
        if kind == "global" and ("internal" in pre.split() or "private" in pre.split()):
            self.internal.add(nm)

    # debug locations -------------------------------------------------
    def _scope_file(self, s, depth=0):
        d = self.meta.get(s, "")
        m = re.search(r"filename: \"([^\"]*)\"", d)
        if m and d.startswith("!DIFile"):
            m2 = re.search(r"directory: \"([^\"]*)\"", d)
            fn = m.group(1)
            return fn if fn.startswith("/") else os.path.join(m2.group(1) if m2 else "", fn)
        m = re.search(r"\bfile: (!\d+)", d)
        if m:
            return self._scope_file(m.group(1))
        m = re.search(r"\bscope: (!\d+)", d)
        if m and depth < 50:
            return self._scope_file(m.group(1), depth + 1)
        return "?"

    def loc(self, dbg):
        if dbg in self._loc:
            return self._loc[dbg]
        d = self.meta.get(dbg, "")
        m = re.search(r"\bline: (\d+)", d)
        line = int(m.group(1)) if m else 0
        if d.startswith("!DISubprogram") or "DISubprogram" in d[:20]:
            f = self._scope_file(dbg)
        else:
            m = re.search(r"scope: (!\d+)", d)
            f = self._scope_file(m.group(1)) if m else "?"
        r = (os.path.relpath(f, REPO) if f.startswith(REPO + "/") else f, line)
        self._loc[dbg] = r
        return r


class Layout:
    """size / offset computation for x86-64"""

    def __init__(self, types):
        self.types = types
        self._c = {}

    def resolve(self, t):
        while t.k == "named":
            r = self.types.get(t.a)
            if r is None:
                raise AnalysisError("opaque type %s" % t.a)
            t = r
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            b = 1
            while b * 8 < t.a:
                b *= 2
            return min(b, 16)
        if t.k in FLOATS:
            return FLOATS[t.k]
        if t.k == "ptr":
            return 8
        if t.k == "array" or t.k == "vector":
            return self.align(t.b)
        if t.k == "struct":
            return 1 if t.b else max([self.align(x) for x in t.a] + [1])
        raise AnalysisError("align " + repr(t))

    def size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return self.align(t)
        if t.k in FLOATS:
            return FLOATS[t.k]
        if t.k == "ptr":
            return 8
        if t.k in ("array", "vector"):
            return t.a * self.size(t.b)
        if t.k == "struct":
            offs, sz = self.offsets(t)
            return sz
        raise AnalysisError("size " + repr(t))

    def offsets(self, t):
        t = self.resolve(t)
        o, r = 0, []
        for x in t.a:
            if not t.b:
                a = self.align(x)
                o = (o + a - 1) // a * a
            r.append(o)
            o += self.size(x)
        if not t.b:
            a = self.align(t)
            o = (o + a - 1) // a * a
        return r, o


def demangle(names):
    names = list(names)
    r = subprocess.run([CXXFILT], input="\n".join(names) + "\n", capture_output=True, text=True)
    out = r.stdout.split("\n")[:len(names)]
    return dict(zip(names, out))


def short(dem):
    """demangled name without return type, parameters and template arguments of the
    enclosing std types:  'Virtual_Stack::pop() const' -> 'Virtual_Stack::pop'"""
    d, out = 0, []
    s = dem.replace("(anonymous namespace)", "{anon}")
    s = s.replace("operator()", "operator{call}").replace("operator<<", "operator{shl}") \
         .replace("operator>>", "operator{shr}").replace("operator<", "operator{lt}") \
         .replace("operator>", "operator{gt}").replace("operator->", "operator{arrow}")
    i = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "(" and d == 0:
            break
        elif d == 0:
            out.append(ch)
    r = "".join(out).strip()
    r = r.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "")
    # drop a leading return type (template functions carry one)
    if " " in r and not r.startswith("operator") and "operator " not in r:
        r = r.split(" ")[-1] if not r.startswith("non-virtual") else r
    return r


def mentioned(v, out):
    """global names inside a constant or operand"""
    if isinstance(v, Val):
        if v.k == "glob":
            out.add(v.v)
        else:
            mentioned(v.v, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            mentioned(x, out)
    return out


def read_only(m):
    """variables of the unit that are only ever read in place"""
    cand = {n for n in m.internal if m.globals[n][1] is not None}
    if not cand:
        return cand
    bad = set()
    for n, g in m.globals.items():
        mentioned(g[1], bad)
    for f in m.functions.values():
        addr = {}       # register -> variable it points into
        for b in f.blocks.values():
            for I in b.ins:
                names = set()
                mentioned(I.ops, names)
                if I.x is not None:
                    mentioned(I.x, names)
                names &= cand
                if not names:
                    continue
                if I.op == "load":
                    continue
                if I.op == "getelementptr" and I.res is not None:
                    for n in names:
                        addr.setdefault(I.res, set()).add(n)
                    continue
                bad |= names
        work = True
        while work and addr:
            work = False
            for b in f.blocks.values():
                for I in b.ins:
                    regs = set()
                    for v in list(I.ops) + (list(I.x) if isinstance(I.x, (tuple, list)) else [I.x]):
                        used_regs(v, regs)
                    hit = [r for r in regs if r in addr]
                    if not hit or I.op == "load":
                        continue
                    if I.op == "getelementptr":
                        for r in hit:
                            if not addr[r] <= addr.setdefault(I.res, set()):
                                addr[I.res] |= addr[r]
                                work = True
                        continue
                    for r in hit:
                        bad |= addr[r]
    return cand - bad


def used_regs(v, out):
    if isinstance(v, Val):
        if v.k == "reg":
            out.add(v.v)
        else:
            used_regs(v.v, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            used_regs(x, out)


class Program:
    """A set of translation units analysed together."""

    def __init__(self, mods):
        self.mods = mods
        self.types, self.fns, self.globals = {}, {}, {}
        names = set()
        for m in mods:
            for k, v in m.types.items():
                if v is not None or k not in self.types:
                    self.types[k] = v
            names.update(m.functions)
            names.update(m.decls)
        for m in mods:
            for f in m.functions.values():
                for i in ():
                    pass
        self.dem = demangle(sorted(names))
        for m in mods:
            for n, f in m.functions.items():
                f.dem = self.dem.get(n, n)
                f.short = short(f.dem)
                if n not in self.fns:
                    self.fns[n] = f
            for n, g in m.globals.items():
                if n not in self.globals or self.globals[n][1] is None:
                    self.globals[n] = g
        for m in mods:
            for n in read_only(m):
                t, v, c = m.globals[n]
                if self.globals.get(n) is m.globals[n]:
                    self.globals[n] = (t, v, True)
                m.globals[n] = (t, v, True)
        self.layout = Layout(self.types)
        self._short = {}
        for f in self.fns.values():
            self._short.setdefault(f.short, []).append(f)

    def shortname(self, mangled):
        d = self.dem.get(mangled)
        if d is None:
            d = demangle([mangled])[mangled]
            self.dem[mangled] = d
        return short(d)

    def lookup(self, mod, name):
        f = mod.functions.get(name)
        return f or self.fns.get(name)

    def glob(self, mod, name):
        return mod.globals.get(name) if mod is not None and name in mod.globals and mod.globals[name][1] is not None else self.globals.get(name)

    def by_short(self, s, n=None, required=True):
        r = self._short.get(s, [])
        if not r and required:
            raise AnalysisError("anchor vanished: no function %s in the analysed units" % s)
        return r

    def one(self, s, pred=None):
        r = [f for f in self.by_short(s) if pred is None or pred(f)]
        if len(r) != 1:
            raise AnalysisError("anchor ambiguous/vanished: %s (%d candidates)" % (s, len(r)))
        return r[0]

    def is_repo(self, f):
        return not f.loc[0].startswith("/") and f.loc[0] != "?" or f.loc[0].startswith(REPO)

    def repo_fns(self):
        return [f for f in self.fns.values() if self.is_repo(f)]

    def cstring(self, mod, name, off=0):
        g = self.glob(mod, name)
        if g and g[1] is not None and g[1].k == "bytes":
            b = g[1].v[off:]
            return b.split(b"\0")[0].decode("utf-8", "replace")
        if g and g[1] is not None and g[1].k == "zeroinitializer":
            return ""
        return None


SIM_UNITS = ["x1_arch", "machine", "processor", "opcodes", "trace", "virtual_stack", "encoding", "input", "main"]


def sim_sources():
    """the units CMake builds into the simulator (library + executable)"""
    p = os.path.join(REPO, "simulator", "CMakeLists.txt")
    txt = open(p).read()
    srcs = re.findall(r"\b([A-Za-z0-9_]+\.cpp)\b", txt)
    seen = []
    for s in srcs:
        if s not in seen:
            seen.append(s)
    if "main.cpp" not in seen or len(seen) < 6:
        raise AnalysisError("simulator source list not found in simulator/CMakeLists.txt")
    return [os.path.join(REPO, "simulator", s) for s in seen]


def compile_ir(path, tmp, extra=()):
    base = os.path.basename(path)
    out = os.path.join(tmp, base + ".ll")
    cxx = path.endswith((".cpp", ".cc"))
    cmd = [CLANGXX, "-std=gnu++17"] if cxx else [CLANG, "-std=gnu11"]
    cmd += ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-g", "-w",
            "-ffp-contract=off", "-emit-llvm", "-S", "-I", os.path.dirname(path), path, "-o", out] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("clang failed on %s:\n%s" % (path, r.stderr[-2000:]))
    o2 = out[:-3] + ".o.ll"
    r = subprocess.run([OPT, "-S", "-passes=sroa", out, "-o", o2], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("opt failed on %s:\n%s" % (path, r.stderr[-2000:]))
    return open(o2).read()


def load(paths, extra_for=None):
    """compile and parse a list of sources -> Program"""
    tmp = tempfile.mkdtemp(prefix="x1sa.")
    try:
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda p: compile_ir(p, tmp, (extra_for or {}).get(os.path.basename(p), ())), paths))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return Program([Module(t, os.path.relpath(p, REPO)) for t, p in zip(texts, paths)])


def load_sim():
    srcs = sim_sources()
    ex = {os.path.basename(s): ["-DNDEBUG"] for s in srcs}
    ex["main.cpp"] = ["-DNDEBUG", '-DVERSION_STRING="0"']
    return load(srcs, ex)


def load_compiler():
    return load([os.path.join(REPO, "compiler", "x1algc.c")], {"x1algc.c": ["-DNDEBUG"]})


def load_library_tools():
    return load([os.path.join(REPO, "library", "objfile.cc"), os.path.join(REPO, "library", "from5track.cc")])
