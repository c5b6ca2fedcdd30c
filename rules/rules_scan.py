"""The main scan: what every delimiter does, in every context.

Each delimiter is followed from its recognition to the next one; the routines
with rules of their own (production of operators, pairing of then and else,
labels, reservation of arrays, lists) are events.  The reference is the table
of delimiters below."""
import random
from rules_comp import *
from comp import I32, count, R
from models import cval
from absint import Budget, State
from terms import add, const, sym, ptr
from rules_list import word

NLSCOP, TLIB, NLIB, KLIE = 43, 800, 4000, 10165
MAXYES, MAXCODE = 2, 9
STOPS = ("produce", "reserve", "call")       # how the work of a delimiter begins
LIVE = ("eflag", "oflag", "mflag", "iflag", "vflag", "sflag", "aflag", "tlsc", "nlsc", "bn", "rlsc", "flsc", "fora", "forc", "pnlv", "vlam", "lvc",
        "gvc", "ic", "aic", "ibd")
OPERAND = ("nid", "id", "jflag", "pflag", "fflag", "nflag")
# what an event may change: anything, as given by the situation
CHANGES = {"produce": ("tlsc", "rlsc", "flsc"), "thenelse": ("tlsc", "eflag"), "doend": ("tlsc", "nlsc", "bn", "rlsc"), "call": ("rlsc", "flsc", "pnlv", "tlsc"),
           "label": (), "reserve": ("rlsc", "pnlv"), "names": ("nlsc",), "newname": ("nlsc",), "newconst": ("klsc",)}


class Next(Exception):
    pass


def models(dls, syms, maxcode=MAXCODE, ins={}, stop=False):
    def g(it, st, n):
        return it.load(st, ptr("@" + n, 0), 4, I32)

    def put(it, st, n, v):
        it.store(st, ptr("@" + n, 0), 4, v)

    def over(st):
        return syms and dls[0] in (101, 105) and count(st, "sym") >= len(syms) and any(e[0] == "sym" for e in st.events)

    def last(st, name):
        return over(st) or stop and count(st, "read") >= len(dls) and name in STOPS

    def read(it, I, args, st, fn):
        k = count(st, "read")
        if k >= len(dls) or over(st):
            return [Out("exit", ("next",), st, I.loc)]
        st.events += (("read",),)
        put(it, st, "dl", const(dls[k], 32))
        for n in ("nflag", "kflag", "inw", "fnw", "dflag"):
            x = ins.get((n, "read", k))
            put(it, st, n, sym((n, "read", k), 32) if x is None else const(x, 32))
        return R(st)

    def symbol(it, I, args, st, fn):
        k = count(st, "sym")
        if k > len(syms) + 6:
            return [Out("exit", ("endless",), st, I.loc)]
        st.events += (("sym",),)
        put(it, st, "dl", const(syms[k] if k < len(syms) else 91, 32))
        return R(st)

    def event(name, *shown, ret=None, also=()):
        def f(it, I, args, st, fn):
            if last(st, name) and name in STOPS + ("code",):
                return [Out("exit", ("again",), st, I.loc)]
            n = count(st, name)
            if name == "newname" and n > count(st, "read") + 1:    # a name is entered for a name read
                return [Out("exit", ("endless",), st, I.loc)]
            st.events += ((name,) + tuple(a for a in args if a.op != "ptr") + tuple(g(it, st, x) for x in shown),)
            for h in CHANGES[name]:
                x = ins.get((h, name, n))
                put(it, st, h, sym((h, name, n), 32) if x is None else const(x, 32))
            if name == "produce":
                put(it, st, "oh", args[0])
            for h, x in also:
                put(it, st, h, const(x, 32))
            return R(st, sym((name, n), 8, 0, 1) if ret else None)
        return f

    def choice(name):
        def f(it, I, args, st, fn):
            n = count(st, name)
            st.events += ((name,),)
            c, s2, r = sym((name, n), 1), st.copy(), []
            w = fn_width(I)
            if count(st, "yes") >= MAXYES:            # longer lists repeat the same steps
                it.dropped += 1
            elif it.assume(st, c, True):
                st.events += (("yes",),)
                for h in CHANGES[name]:
                    put(it, st, h, sym((h, name, n), 32))
                r.append(Out("ret", const(1, w), st))
            if it.assume(s2, c, False):
                r.append(Out("ret", const(0, w), s2))
            return r
        return f

    def fn_width(I):
        return I.ty.a if getattr(I, "ty", None) is not None and I.ty.k == "int" else 8

    def code(it, I, args, st, fn):
        if over(st):
            return [Out("exit", ("again",), st, I.loc)]
        if count(st, "code") >= maxcode:
            it.dropped += 1
            return []
        st.events += (("code",) + tuple(args),)
        put(it, st, "rlsc", add(g(it, st, "rlsc"), const(1, 32)))
        return R(st)

    def name(it, I, args, st, fn):
        n = count(st, "name")
        st.events += (("name",),)
        for h in ("nid", "id", "pflag", "jflag", "fflag"):
            put(it, st, h, sym((h, "name", n), 32))
        return R(st)

    def constant(it, I, args, st, fn):
        n = count(st, "const")
        st.events += (("const",),)
        put(it, st, "id", sym(("id", "const", n), 32))
        for h in ("pflag", "jflag", "fflag"):
            put(it, st, h, const(0, 32))
        return R(st)

    return {"read_until_next_delimiter": read, "read_next_symbol": symbol, "fill_result_list": code, "look_for_name": name, "look_for_constant": constant,
            "production_of_object_program": event("produce", also=(("nflag", 0), ("aflag", 0))), "thenelse": choice("thenelse"), "do_in_t_list": choice("doend"),
            "fill_future_list": lambda it, I, a, st, fn: (setattr(st, "events", st.events + (("future",) + tuple(a),)), R(st))[1],
            "label_declaration": event("label", "nid"), "reservation_of_arrays": event("reserve", also=(("vlam", 0),)),
            "procedure_statement": event("call"), "intro_new_block2": event("names", also=(("lvc", 0),)), "fill_name_list": event("newname", "id"),
            "fill_constant_list": event("newconst")}


class M:
    """reference machine: the translator's state, one situation"""

    def __init__(self, sit, dls, syms, stop=False):
        self.v, self.sit, self.w, self.ev, self.dls, self.syms, self.k = dict(sit.vals), sit, {}, [], list(dls), list(syms), {}
        self.stops, self.value = stop, None

    def __getattr__(self, n):
        return self.v[n]

    def s(self, i):
        return self.w.get(i, self.sit.array("store", i))

    def top(self, k=1):
        return self.s(self.v["tlsc"] - k)

    def set(self, **k):
        self.v.update(k)

    def push(self, *xs):
        for x in xs:
            self.w[self.v["tlsc"]] = x
            self.v["tlsc"] += 1

    def pop(self):
        self.v["tlsc"] -= 1
        return self.s(self.v["tlsc"])

    def ended(self):
        return self.dls[:1] in ([101], [105]) and self.k.get("sym", 0) and self.k["sym"] >= len(self.syms) and len(self.syms) > 0

    def do(self, name, *args):
        if self.ended() and name in STOPS + ("code",) or self.stops and self.k.get("read", 0) >= len(self.dls) and name in STOPS:
            raise Next("again")
        n = self.k.get(name, 0)
        self.k[name] = n + 1
        self.ev.append((name,) + args)
        if name in ("thenelse", "doend") and not self.v[(name, n)]:
            return 0
        for h in CHANGES.get(name, ()):
            self.v[h] = self.v[(h, name, n)]
        if name == "produce":
            self.set(nflag=0, aflag=0)
        elif name == "reserve":
            self.set(vlam=0)
        elif name == "names":
            self.set(lvc=0)
        return 1

    def code(self, o, w=0):
        self.do("code", o, w & 0xffffffff)
        self.v["rlsc"] += 1

    def future(self, p, x):
        self.do("future", p & 0xffffffff, x & 0xffffffff)

    def newfuture(self):
        self.v["flsc"] += 1
        return self.v["flsc"] - 1

    def jump(self, w):               # jump to a place not yet known
        self.code(2, w + self.v["flsc"])

    def read(self):
        k = self.k.get("read", 0)
        if k >= len(self.dls) or self.ended():
            raise Next("next")
        self.do("read")
        self.v["dl"] = self.dls[k]
        for n in ("nflag", "kflag", "inw", "fnw", "dflag"):
            self.v[n] = self.v[(n, "read", k)]

    def symbol(self):
        k = self.k.get("sym", 0)
        self.do("sym")
        self.v["dl"] = self.syms[k] if k < len(self.syms) else 91

    def name(self):
        n = self.k.get("name", 0)
        self.do("name")
        for h in ("nid", "id", "pflag", "jflag", "fflag"):
            self.v[h] = self.v[(h, "name", n)]

    def constant(self):
        n = self.k.get("const", 0)
        self.do("const")
        self.set(id=self.v[("id", "const", n)], pflag=0, jflag=0, fflag=0)

    def newname(self):
        self.do("newname", self.id & 0xffffffff)

    # -- parts of translation
    def unload(self):                 # operators and conditionals up to the delimiter
        while True:
            self.do("produce", 1)
            if not self.do("thenelse"):
                return

    def unload_all(self):
        self.set(oflag=1)
        self.unload()

    def register(self):
        i = self.id
        if i >> 15 & 1:
            self.code(0, 21495808 + (i & 32767))
        elif i >> 24 & 3 == 2:
            self.code(2, 71303168 + (i & 32767))
        else:
            self.code(i >> 24 & 3, 71827456 + (i & 32767))

    def address(self):
        self.register()
        if self.id >> 16 & 1:
            self.code(18)
        else:
            self.code(14 + (1 - (self.id >> 15 & 1)) + 2 * (self.id >> 19 & 1))

    def first(self):
        i = self.s(NLIB + self.nid)
        if i >> 15 & 1:
            self.v["id"] = i + (2 << 24) - (i & 32767) - (1 << 15) + self.flsc
            if self.nid <= 65:
                self.future(self.flib + self.flsc, i)
            self.w[NLIB + self.nid] = self.v["id"]
            self.v["flsc"] += 1
        else:
            self.v["id"] = i

    def block(self):                  # a block without a begin marker begins
        self.code(0, 71827456 + self.bn)
        self.code(89)
        self.set(pnlv=self.bn + 160)
        self.set(vlam=self.pnlv)

    def declaration(self):
        if self.top(2) == 161:
            return
        self.v["tlsc"] -= 1
        self.code(0, 4718592)
        self.code(1, self.rlsc + 71827459)
        self.code(9)
        self.jump(88080384)
        self.push(self.newfuture())
        self.v["bn"] += 1
        self.enter()
        self.push(104)
        self.block()

    def enter(self):
        self.push(self.nlsc, 161)
        self.do("names")

    def leave(self):
        """end of a procedure or block"""
        self.v["tlsc"] -= 3
        self.set(nlsc=self.s(self.tlsc + 1))
        self.future(self.flib + self.s(self.tlsc), self.rlsc + 1)
        self.code(12)
        self.v["bn"] -= 1

    def opening(self, oh=0):
        self.push(oh << 8 | self.dl)
        return "L1"

    # -- the table of delimiters
    def run(self, at="L1"):
        try:
            while at != "stop":
                at = getattr(self, at)()
            return "ret"
        except Next as x:
            return str(x)

    def L1(self):
        self.read()
        return "L2"

    def L2(self):
        if self.nflag == 0:
            self.set(jflag=0, pflag=0, fflag=0)
        elif self.kflag == 0:
            self.name()
        else:
            self.constant()
        return "L3"

    def L3(self):
        d = self.dl
        if d <= 65:
            return self.sign()
        for hi, oh in ((68, 10), (69, 11), (75, 8)):
            if d <= hi:
                if oh == 8:
                    self.set(oflag=1)
                return self.operator(oh)
        if d <= 80:
            if d == 76:
                self.set(oflag=1)
                return self.opening(83 - d)
            return self.operator(83 - d)
        return getattr(self, TABLE[d])()

    def operator(self, oh):
        self.do("produce", oh)
        return self.opening(oh)

    def sign(self):
        if self.oflag == 0:
            return self.operator(9)
        if self.dl == 65:
            self.push(10 << 8 | 132)
        return "L1"

    def goto_(self):
        self.do("reserve")
        return "L1"

    def if_(self):
        if self.eflag == 0:
            self.do("reserve")
        self.push(self.eflag)
        self.set(eflag=1, oflag=1)
        return self.opening()

    def then_(self):
        self.unload()
        self.v["tlsc"] -= 1
        self.set(eflag=self.top(), oflag=1)
        self.code(30)
        self.code(2, 88178688 + self.flsc)
        self.push(self.newfuture())
        return self.opening()

    def else_(self):
        self.do("produce", 1)
        while self.top() & 255 == 84 and self.do("thenelse"):
            self.do("produce", 1)
        while True:
            if self.do("doend"):
                continue
            if self.top() != 161:
                break
            self.leave()
        self.jump(88080384)
        if self.do("thenelse"):
            self.v["tlsc"] += 1
        self.push(self.newfuture())
        self.set(oflag=1)
        return self.opening()

    def for_(self):
        self.do("reserve")
        self.jump(88080384)
        self.set(fora=self.newfuture())
        self.push(self.rlsc)
        self.set(vflag=1, bn=self.bn + 1)
        return self.opening()

    def element(self):                       # end of a for list element
        if self.top() & 255 == 85:
            self.code(21)
        else:
            self.v["tlsc"] -= 1
            self.code(23 if self.s(self.tlsc) & 255 == 96 else 26)

    def do_(self):
        self.unload_all()
        self.element()
        self.set(vflag=0)
        self.v["tlsc"] -= 1
        self.code(2, 20971520 + self.flsc)
        self.push(self.newfuture())
        self.code(27)
        self.future(self.flib + self.fora, self.rlsc)
        self.code(19)
        self.code(1, 88604672 + self.top(2))
        self.future(self.flib + self.forc, self.rlsc)
        self.set(eflag=0)
        self.enter()
        return self.opening()

    def comma(self):
        self.set(oflag=1)
        if self.iflag == 1:
            self.unload()
        elif self.vflag != 0:
            self.unload()
            self.element()
        elif self.mflag != 0:
            return self.actual()
        else:
            self.unload_all()
            if self.sflag:
                self.push(self.rlsc, 160)
                self.v["dl"] = 160
        return "L1"

    def actual(self):
        """end of an actual parameter"""
        if self.top() & 255 == 87 and self.aflag:
            w = self.top(2) + (1 << 19) + (1 << 20) + (1 << 24)
            self.w[self.tlsc - 2] = w
            self.code(13)
        elif self.top() & 255 == 87 and self.top(2) == self.rlsc and self.jflag == 0 and self.nflag == 1 and (self.fflag == 0 or self.pass_formals) and (self.kflag or self.nid > NLSCOP):
            if self.pflag == 1 and self.fflag == 0:
                self.first()
            i = self.id
            formal = 0
            if i >> 15 & 1:                  # dynamic address
                p = (1 << 16) + ((i & 31) << 22) + (i >> 5 & 1023)
                formal = i >> 16 & 1
            else:
                p = (i >> 24 & 3) * (1 << 24) + (i & 32767)
                if i >> 24 & 3 == 2:
                    p += 1 << 17
            if formal:
                p += 1 << 17
            elif i >> 18 & 1:
                p += 1 << 20
            elif i >> 19 & 1:
                p += 1 << 19
            self.w[self.tlsc - 2] = p
        else:
            if self.top() & 255 == 87 and self.top(2) == self.rlsc and self.jflag == 0 and self.nflag == 1 and (self.fflag == 0 or self.pass_formals):
                self.set(tfpflag=1)
                self.code(98)
            while True:
                self.do("produce", 1)
                a = self.do("thenelse")
                if not self.do("doend") and not a:
                    break
            self.w[self.tlsc - 2] = self.top(2) + (1 << 20) + (1 << 24)
            self.code(13)
        if self.dl == 87:
            return self.parameter()
        n = 0
        while self.pop() & 255 == 87:
            n += 1
            p = self.pop()
            if p >> 16 & 1:
                self.code(0, p)
            else:
                self.code(p >> 24, p & ((1 << 24) - 1))
        self.v["tlsc"] -= 1
        self.future(self.flib + self.s(self.tlsc), self.rlsc)
        self.code(0, 4718592 + n)
        self.v["bn"] -= 1
        f = self.pop()
        self.set(fflag=f, eflag=self.pop())
        self.code(f * 2 - self.eflag + 9)
        self.set(aflag=0, mflag=self.pop())
        self.set(vflag=self.pop())
        self.set(iflag=self.pop())
        return "L1"

    def parameter(self):                     # a further actual parameter begins
        self.push(self.rlsc)
        self.set(aflag=0)
        self.v["dl"] = 87
        return self.opening()

    def colon(self):
        if self.jflag == 0:
            self.v["ic"] += 1
            self.unload_all()
        else:
            self.do("reserve")
            self.do("label", self.nid)
        return "L1"

    def assign(self):
        self.do("reserve")
        self.set(oflag=1)
        if self.vflag:
            self.set(eflag=1)
            if self.nflag:
                self.address()
            self.code(20)
            self.set(forc=self.flsc)
            self.jump(88080384)
            self.v["flsc"] += 1
            self.future(self.flib + self.fora, self.rlsc)
            self.code(0, 4718592)
            self.set(fora=self.flsc)
            self.jump(71303168)
            self.v["flsc"] += 1
            self.code(9)
        elif self.sflag:
            self.jump(88080384)
            self.push(self.newfuture(), self.nid, 128, self.rlsc, 160)
        else:
            d = 128 if self.eflag == 0 else 129
            self.set(eflag=1)
            if self.pflag:
                d += 2
                self.push(self.id >> 19 & 31)
            elif self.nflag:
                self.address()
            self.push(2 << 8 | d)
        return "L1"

    def step(self):
        self.unload_all()
        self.code(24)
        return "L1"

    def until(self):
        self.unload_all()
        self.code(25)
        return self.opening()

    def while_(self):
        self.unload_all()
        self.code(22)
        return self.opening()

    def opens(self):
        self.set(oflag=1)
        if self.pflag != 1:
            return self.paren()
        self.do("call")
        self.jump(88080384)
        self.push(self.iflag, self.vflag, self.mflag, self.eflag, self.fflag, self.flsc)
        self.set(iflag=0, vflag=0, mflag=1, eflag=1)
        self.v["flsc"] += 1
        self.v["bn"] += 1
        self.push(self.dl)
        return self.parameter()

    def paren(self):
        self.push(self.mflag)
        self.set(mflag=0)
        return self.opening()

    def closes(self):
        if self.mflag == 1:
            return self.actual()
        self.unload()
        self.v["tlsc"] -= 1
        self.set(mflag=self.pop())
        return "L1"

    def sub(self):
        if self.eflag == 0:
            self.do("reserve")
        self.set(oflag=1)
        self.push(self.eflag, self.iflag, self.mflag, self.fflag, self.jflag, self.nid)
        self.set(eflag=1, iflag=1, mflag=0)
        self.push(self.dl)
        if self.jflag == 0:
            self.address()
        return "L1"

    def bus(self):
        self.unload()
        self.v["tlsc"] -= 1
        if self.iflag == 0:
            return self.bounds()
        self.set(nid=self.pop())
        for n in ("jflag", "fflag", "mflag", "iflag", "eflag"):
            self.v[n] = self.pop()
        if self.jflag == 0:
            self.set(aflag=1)
            self.code(56)
            return "L1"
        self.set(nflag=1)
        self.code(29)
        self.symbol()
        self.set(id=self.s(NLIB + self.nid), pflag=0)
        return "L3"

    def bounds(self):
        """end of the bounds of arrays"""
        self.code(0, 21495808 + self.aic)
        self.code(90 + self.ibd)
        at = NLIB + self.nlsc
        for k in range(self.aic):
            self.w[at - 1] = (1 << 15) + (1 << 25) + (1 << 26) + (self.ibd << 19) + self.pnlv
            at -= 3 if self.s(at - 2) & 7 else 2
            self.v["pnlv"] += (self.ic + 3) * 32
        self.set(aic=0)
        self.read()
        if self.dl == 91:
            self.set(eflag=0)
            return "L1"
        return self.arrays()

    def arrays(self):
        """names of arrays with bounds evaluated at block entry"""
        self.set(ic=0, aic=0, id=0)
        while True:
            self.v["aic"] += 1
            self.read()
            self.newname()
            if self.dl != 87:
                break
        self.set(eflag=1, oflag=1)
        return self.opening()

    def string(self):
        depth, w, sh = 1, 0, 0
        while True:
            self.symbol()
            depth += (self.dl == 102) - (self.dl == 103)
            if depth == 0:
                break
            w += self.dl << sh
            sh += 8
            if sh == 24:
                self.code(0, w)
                w = sh = 0
        self.code(0, w + (255 << sh))
        self.set(oflag=0)
        return "L1"

    def begin(self):
        if self.top() != 161:
            self.do("reserve")
        return self.opening()

    def end(self):
        while True:
            self.do("reserve")
            while True:
                self.unload_all()
                if not self.do("doend"):
                    break
            if self.sflag:
                self.set(sflag=0)
                while True:
                    self.v["tlsc"] -= 2
                    self.code(1, 88604672 + self.s(self.tlsc))
                    if self.top() != 160:
                        break
                self.v["tlsc"] -= 1
                self.set(nid=self.pop())
                self.do("label", self.nid)
                self.code(0, 85983280)
                self.v["tlsc"] -= 1
                self.future(self.flib + self.s(self.tlsc), self.rlsc)
            elif self.top() == 161:
                self.leave()
                continue
            break
        self.set(eflag=0)
        if self.dl != 105:
            return "L1"
        self.v["tlsc"] -= 1
        if self.tlsc == TLIB + 1:
            return "stop"
        while True:
            self.symbol()
            if self.dl in (91, 84, 105):
                break
        self.set(jflag=0, pflag=0, fflag=0, nflag=0)
        return "L2"

    # -- declarations
    def own(self):
        self.declaration()
        self.symbol()
        self.set(ibd=0 if self.dl == 109 else 1)
        self.read()
        return self.statics() if self.nflag else self.ownarrays()

    def integer(self):
        self.set(ibd=1)
        self.declaration()
        self.read()
        return self.scalars()

    def real(self):
        self.set(ibd=0)
        self.declaration()
        self.read()
        return self.scalars() if self.nflag == 1 else "L2"

    def scalars(self):
        if self.nflag == 0:
            return self.array_() if self.dl == 110 else self.procedure()
        return self.dynamics() if self.bn else self.statics()

    def statics(self):
        while True:
            self.set(id=self.gvc + (self.ibd << 19))
            self.v["gvc"] += 2 - self.ibd
            self.newname()
            if self.dl != 87:
                return "L1"
            self.read()

    def dynamics(self):
        while True:
            self.set(id=self.pnlv + (1 << 15) + (self.ibd << 19))
            self.v["pnlv"] += 64 - 32 * self.ibd
            self.v["lvc"] += 2 - self.ibd
            self.newname()
            if self.dl == 87:
                self.read()
                continue
            self.read()
            if not 106 < self.dl <= 109:
                self.room()
                return "L2"
            self.set(ibd=0 if self.dl == 109 else 1)
            self.read()
            if self.nflag != 1:
                self.room()
                return self.array_() if self.dl == 110 else "L3"

    def ownarrays(self):
        """arrays with constant bounds: their storage function is a constant"""
        m26 = (1 << 26) - 1
        self.set(id=(3 << 24) + (self.ibd << 19))
        while True:
            start, base = self.nlsc, self.tlsc
            while True:
                self.read()
                self.newname()
                if self.dl == 100:
                    break
            off = 0
            self.push(2 - self.ibd)
            while True:
                low = self.bound(lambda: self.dl != 90)
                off = (off - low * self.top()) & m26
                high = self.bound(lambda: self.nflag == 0)
                size = ((high - low + 1) * self.top()) & m26
                self.push(-size if self.dl == 101 else size)
                if self.dl == 101:
                    break
            at = self.nlsc
            while at != start:
                self.w[NLIB + at - 1] = self.s(NLIB + at - 1) + self.klsc
                for x in (self.gvc, self.gvc + off):
                    self.do("newconst", x & 0xffffffff)
                k = base
                while True:
                    x = self.s(k)
                    self.do("newconst", x & 0xffffffff)
                    k += 1
                    if x <= 0:
                        break
                self.v["gvc"] -= x
                if self.gvc > KLIE:
                    raise Next("stop")
                at -= 3 if self.s(NLIB + at - 2) & 7 else 2
            self.set(tlsc=base)
            self.read()
            if self.dl != 87:
                return "end"

    def bound(self, signed):
        self.read()
        if signed():
            neg = self.dl == 65
            self.read()
            return -self.inw if neg else self.inw
        return self.inw

    def room(self):
        if self.lvc > 0:
            self.code(0, 4718592 + self.lvc)
            self.code(0, 8388657)
            self.code(0, 8388658)

    def array(self):
        self.set(ibd=0)
        self.declaration()
        return self.array_()

    def array_(self):
        return self.arrays() if self.bn else self.ownarrays()

    def switch(self):
        self.do("reserve")
        self.set(sflag=1)
        self.declaration()
        return "L1"

    def procedure(self):
        self.do("reserve")
        self.declaration()
        self.jump(88080384)
        self.push(self.newfuture())
        self.read()
        self.name()
        self.do("label", self.nid)
        self.v["bn"] += 1
        self.enter()
        self.block()
        if self.dl == 91:
            return "L1"
        while True:
            self.read()
            self.set(id=self.pnlv + (1 << 15) + (1 << 16))
            self.newname()
            self.v["pnlv"] += 64
            if self.dl != 87:
                break
        self.read()
        while True:
            r = self.specification()
            if r:
                return r

    def specification(self):
        self.read()
        if self.nflag == 1:
            return "L2"
        if self.dl == 104:
            return "L3"
        spe = {115: 1 << 26, 113: 0, 110: 0, 114: 1 << 17, 111: 1 << 17, 112: 1 << 18}.get(self.dl)
        if spe is not None:
            return self.specified(spe)
        if not 106 < self.dl <= 109:
            return "L3"
        spe = 0 if self.dl == 109 else 1 << 19
        self.read()
        if self.dl == 112:
            return self.specified(1 << 18)
        if self.dl == 110:
            return self.specified(spe)
        while True:
            self.name()
            i = self.s(NLIB + self.nid) + spe
            if i >= 1 << 26:
                i -= 1 << 26
                i = (i >> 17 << 17) + (i & 65535)
                self.w[NLIB + self.nid] = i
                self.set(id=i)
                self.register()
                self.code(16 if spe else 14)
                self.register()
                self.code(35)
                self.code(85)
            self.w[NLIB + self.nid] = i
            if self.dl != 87:
                return None
            self.read()

    def specified(self, spe):
        while True:
            self.read()
            self.name()
            self.w[NLIB + self.nid] = self.s(NLIB + self.nid) + spe
            if self.dl != 87:
                return None


    # -- parts with a routine of their own
    def part_produce(self):
        oh = self.v["op"]
        self.set(oh=oh)
        if self.nflag:
            self.set(nflag=0, aflag=0)
            if self.pflag:
                nid = self.nid
                if self.part_call() == "exit":
                    return "exit"
                if nid > NLSCOP:
                    self.code(0, 4718592)
                    self.code(self.fflag * 2 - self.eflag + 9)
            elif self.jflag == 0:
                self.register()
                o = 63
                if oh <= self.top() >> 8 & 15 and 64 <= self.top() & 255 <= 67:
                    o = self.pop() & 255
                i = self.id
                if self.fflag == 0:
                    self.code(5 * o - 284 + (1 - (i >> 15 & 1)) + 2 * (i >> 19 & 1))
                else:
                    self.code(5 * o - 280)
            elif self.fflag == 0:
                b = self.id >> 19 & 31
                if b != self.bn:
                    self.code(0, b + 71827456)
                    self.code(28)
                self.first()
                self.code(2 if self.id >> 24 & 3 == 2 else 1, (self.id & 32767) + (88080384 if self.id >> 24 & 3 == 2 else 88604672))
            else:
                self.register()
                self.code(35)
        elif self.aflag:
            self.set(aflag=0)
            self.code(58)
        while oh <= self.top() >> 8 & 15:
            o = self.pop() & 255
            if 64 <= o <= 80:
                self.code(o - 5)
            elif o == 132:
                self.code(57)
            elif 128 <= o <= 131:
                if o > 129:
                    self.code(0, self.pop() + 71827456)
                self.code(o - 43)
            elif 127 < o <= 141:
                self.code(o - 57)
            elif 141 < o <= 152:
                self.code(o - 40)
            else:
                return "stop"
        if self.tfpflag:
            self.set(nid=99999, tfpflag=0)
        return "ret"

    def part_call(self):
        """a procedure is to be called"""
        if self.eflag == 0:
            self.do("reserve")
        if self.nid > NLSCOP:
            if self.fflag == 0:
                self.first()
            self.register()
            return "ret"
        self.push(self.s(NLIB + self.nid) & 4095)
        if self.dl == 98:
            self.set(eflag=1)
            return "exit"
        return "ret"

    def part_thenelse(self):
        self.value = int(self.top() & 255 in (83, 84))
        if self.value:
            self.v["tlsc"] -= 2
            self.future(self.flib + self.s(self.tlsc), self.rlsc)
            self.set(eflag=self.pop())
        return "ret"

    def part_doend(self):
        self.value = int(self.top() & 255 == 86)
        if self.value:
            self.v["tlsc"] -= 5
            self.set(nlsc=self.s(self.tlsc + 2), bn=self.bn - 1)
            self.future(self.flib + self.s(self.tlsc + 1), self.rlsc + 1)
            self.code(1, self.s(self.tlsc) + 88604672)
        return "ret"

    def part_first(self):
        self.first()
        return "ret"

    def part_address(self):
        self.address()
        return "ret"

    def part_label(self):
        i = self.s(NLIB + self.nid)
        if i >> 15 & 1:
            self.w[NLIB + self.nid] = i - (1 << 15) + (1 << 24) + self.rlsc
        else:
            self.future(self.flib + (i & 32767), self.rlsc)
        return "ret"

    def part_reserve(self):
        """storage for arrays that are values or local"""
        if self.vlam == 0:
            return "ret"
        self.set(vlam=0)
        at = self.top(2) if self.top() == 161 else self.top(3)      # where the names of the block begin
        ks, k = [], self.nlsc
        while k != at:
            ks.append(NLIB + k - 1)
            k -= 3 if self.s(NLIB + k - 2) & 7 else 2
        for k in ks:
            i = self.s(k)
            if 1 << 26 <= i < (1 << 26) + (1 << 25):
                self.set(id=i)
                self.register()
                self.code(93 if i >> 19 & 1 else 92)
                self.w[k] = (i >> 15 << 15) - (1 << 16) + self.pnlv
                self.v["pnlv"] += 256
        for k in ks:
            i = self.s(k) - (1 << 26)
            if i >= 0:
                self.set(id=i & ~(1 << 25))
                self.register()
                self.code(94 if i >> 25 else 95)
        if self.nflag:
            self.set(id=self.s(NLIB + self.nid))
        return "ret"


TABLE = {81: "goto_", 82: "if_", 83: "then_", 84: "else_", 85: "for_", 86: "do_", 87: "comma", 90: "colon", 91: "end", 92: "assign", 94: "step", 95: "until",
         96: "while_", 98: "opens", 99: "closes", 100: "sub", 101: "bus", 102: "string", 104: "begin", 105: "end", 106: "own", 107: "integer",
         108: "integer", 109: "real", 110: "array", 111: "switch", 112: "procedure"}


# ------------------------------------------------------------- situations
IDS = [(1 << 15) + 160, (1 << 15) + (1 << 19) + 193, (1 << 15) + (1 << 16) + 226, (1 << 15) + (1 << 16) + (1 << 19) + (1 << 18) + 1056 + 3,
       300, 300 + (1 << 19), (1 << 24) + 77, (2 << 24) + 5 + (1 << 17), (3 << 24) + 9 + (1 << 19), (2 << 24) + (1 << 18) + 31, (1 << 18) + (1 << 24) + (2 << 19) + 500,
       (1 << 18) + (1 << 15) + (3 << 19) + 4, (1 << 17) + (1 << 15) + (1 << 19), (1 << 18) + (1 << 15) + (31 << 19), (1 << 15) + 32767 // 32 * 32 + 31, 32767, (3 << 24) + 32000]
NIDS = (2, 20, 43, 44, 60, 65, 66, 67, 75, 120)
WORDS = [83, 84, 85, 86, 87, 98, 100, 104, 160, 161, 128, 5 << 8 | 80, 10 << 8 | 132, 95, 96, 0, 1, 2, 7, 97, 44, 68, 1000, 1007, 87 + 256, 84 + 255, 83 + 512]


def situation(rnd, dls, syms, fixed):
    v = {"tlsc": 850, "rlsc": rnd.choice((500, 1007, rnd.randrange(1, 9000))), "flsc": rnd.choice((0, 12, 31, rnd.randrange(60))), "flib": 3000, "nlib": NLIB, "klib": 3500, "plib": 6500,
         "nlsc": 100, "klsc": 9, "bn": rnd.choice((0, 1, 2, 3, rnd.randrange(1, 31))), "fora": rnd.randrange(50), "forc": rnd.randrange(50), "pnlv": rnd.choice((161, 1060, rnd.randrange(160, 28000))), "vlam": rnd.choice((0, 160)),
         "lvc": rnd.choice((0, 1, 2, rnd.randrange(90))), "gvc": rnd.choice((138, 200, rnd.randrange(138, 9000))), "ic": rnd.choice((0, 1, 2, rnd.randrange(1, 6))), "aic": rnd.choice((1, 2, 3)), "ibd": rnd.choice((0, 1)),
         "pass_formals": 0, "tfpflag": 0, "oh": 3, "dl": 91, "nid": rnd.choice((2, 30, 70)), "id": 0, "inw": 0, "fnw": 0, "dflag": 0, "nflag": 0, "kflag": 0}
    for f in ("eflag", "oflag", "mflag", "iflag", "vflag", "sflag", "aflag", "jflag", "pflag", "fflag"):
        v[f] = rnd.choice((0, 1))
    st = {}
    for k in range(TLIB, 850):
        st[k] = rnd.choice(WORDS) if rnd.random() < .8 else rnd.randrange(2000)
    if rnd.random() < .5:
        st[848] = v["rlsc"]
    for k in range(38, 60):             # names: the second word of each tells its length
        st[NLIB + 40 + k] = 8 * (50 + k) + (3 if rnd.random() < .4 else 0)
    for k in range(len(dls)):
        v[("nflag", "read", k)], v[("kflag", "read", k)] = rnd.choice((0, 1, 1)), rnd.choice((0, 0, 1))
        v[("inw", "read", k)], v[("fnw", "read", k)], v[("dflag", "read", k)] = rnd.choice((0, 1, 5, 10, 1000)), 8, 0
    nl = v["nlsc"]
    for k in range(8):
        nid, i = rnd.choice(NIDS), rnd.choice(IDS)
        i |= rnd.choice((0, 0, 1 << 26))if fixed.get("value") else 0
        st.setdefault(NLIB + nid, i)
        i = st[NLIB + nid]
        v[("nid", "name", k)], v[("id", "name", k)] = nid, i
        v[("pflag", "name", k)], v[("jflag", "name", k)], v[("fflag", "name", k)] = i >> 18 & 1, i >> 17 & 1, i >> 16 & 1
        v[("id", "const", k)] = (3 << 24) + rnd.choice((0, 7)) + (1 << 19)
        n = rnd.choice((2, 3))
        nl += n
        st[NLIB + nl - 2] = 8 * (70 + k) + (n - 2)
        st[NLIB + nl - 1] = (3 << 24) + 4
        v[("nlsc", "newname", k)] = nl
        v[("klsc", "newconst", k)] = 11 + k
        v[("nlsc", "names", k)] = 130 + k
        v[("pnlv", "call", k)] = v[("pnlv", "reserve", k)] = v["pnlv"] + rnd.choice((0, 256))
    for k in range(8, 40):
        v[("klsc", "newconst", k)] = 11 + k
    tl, rl, fl, yes = 850, v["rlsc"], v["flsc"], 0
    for k in range(12):
        tl -= rnd.choice((0, 0, 1, 2, 3))
        rl += rnd.choice((0, 1, 3))
        fl += rnd.choice((0, 1))
        v[("tlsc", "produce", k)] = v[("tlsc", "thenelse", k)] = v[("tlsc", "doend", k)] = tl
        v[("rlsc", "produce", k)] = v[("rlsc", "doend", k)] = v[("rlsc", "reserve", k)] = v[("rlsc", "call", k)] = rl
        v[("flsc", "produce", k)] = v[("flsc", "call", k)] = fl
        v[("tlsc", "call", k)] = 850
        v[("eflag", "thenelse", k)] = rnd.choice((0, 1))
        v[("nlsc", "doend", k)], v[("bn", "doend", k)] = 90, v["bn"] - 1
        for n in ("thenelse", "doend"):
            y = rnd.random() < .25 and yes < 2
            yes += y
            v[(n, k)] = int(y)
        if not k and rnd.random() < .5:
            st[tl - 2] = rl
    if rnd.random() < .6:
        st[tl - 1] = rnd.choice(fixed.get("top", WORDS))
    if v["mflag"] and rnd.random() < .6:       # an actual parameter of one operand
        st.update({849: 87, 848: v["rlsc"]})
        v.update(iflag=0, vflag=0, aflag=int(rnd.random() < .2), jflag=0, fflag=0)
        for k in range(8):
            if rnd.random() < .7:
                v[("jflag", "name", k)] = v[("fflag", "name", k)] = 0
    shape = fixed.get("shape")
    if shape:
        shape(rnd, v, st, tl)
    v.update({k: x for k, x in fixed.items() if k in v})
    v.update(fixed.get("ins") or {})
    v.update(fixed.get("init") or {})
    st.update(fixed.get("store") or {})
    return Situation(v, {"store": st})


def name_of(dls, syms):
    return "delimiter %s" % ", ".join(str(d) for d in dls) + (" and symbols %s" % (list(syms),) if syms else "")


def paths(comp, fname, args, cut, init, ar, prepare, start=None, maxp=60000):
    """the paths of a routine, each loop taken at most `cut` times; a text with more branches gets fewer rounds"""
    for c in range(cut, 0, -1) if cut < ROUNDS else (cut,):
        it = comp.interp(max_paths=maxp, values=init, arrays=ar)
        it.cut = c
        it.merge_cases = True
        prepare(it)
        s0 = State()
        it.store(s0, ptr("@pass_formals", 0), 4, const(0, 32))
        if start:
            start(it, s0)
        fn = comp.prog.one(fname)
        try:
            return it, it.run(fn, list(args)[:len(fn.params)], s0)
        except Budget:
            if c in (1, ROUNDS):
                raise


ROUNDS, ALONE = 300, 8


def alone(comp, fname, args, sit, prepare, start, check):
    """the path of one situation, for the loops that it takes more often"""
    vals = {k: x for k, x in sit.vals.items() if isinstance(k, str)}
    try:
        it, outs = paths(comp, fname, args, ROUNDS, vals, {"store": lambda i: sit.array("store", i)}, prepare, start, 4000)
    except Budget:
        return None
    d = check(Summary(comp, it, outs, "in", None))
    return "does not come to an end" if d is None else d


def scan_check(dls, syms=(), n=500, cut=3, maxcode=MAXCODE, init=None, store=None, **fixed):
    def run(comp):
        ar = {"store": lambda i: store.get(i)} if store else None
        def prepare(it):
            it.models.update(models(dls, syms, maxcode, fixed.get("ins") or {}, fixed.get("stop")))
            for s in ("_setjmp", "setjmp", "__sigsetjmp"):
                it.models[s] = lambda it, I, a, st, fn: R(st, const(1 if fixed.get("again") else 0, 32))

        def start(it, s0):
            if fixed.get("again"):
                it.store(s0, ptr("@dl", 0), 4, const(98, 32))
        it, outs = paths(comp, "main_scan", (), cut, init, ar, prepare, start)
        s = Summary(comp, it, outs, "in", None)
        rnd = random.Random(str(dls) + str(syms))
        diffs, seen, hit, skip = [], 0, set(), 0
        for k in range(n):
            sit = situation(rnd, dls, syms, dict(fixed, init=init, store=store))
            m = M(sit, dls, syms, fixed.get("stop"))
            if fixed.get("again"):
                m.set(dl=98)
            try:
                want = m.run("paren" if fixed.get("again") else "L1")
            except RuntimeError:
                continue
            d = compare(comp, s, sit, m, want, LIVE + (OPERAND if want == "again" else ()), hit)
            if d is None:
                skip += 1
                continue
            seen += 1
            if d:
                diffs.append("%s in %s: %s" % (name_of(dls, syms), brief_sit(sit, m), d))
            if len(diffs) > 4:
                break
        if not seen:
            raise AnalysisError("no situation within the bound")
        run.stat = (len(outs), len(hit), skip)
        return diffs, seen, len(outs), it.analysed
    return run


def compare(comp, s, sit, m, want, live, hit=None):
    """what one situation leads to; None where the unrolling was too short"""
    ev, ps = s.paths(sit)
    if not ps:
        if s.it.dropped:
            return None
        raise NoPath(str(sit)[:300])
    for o in ps:
        if hit is not None:
            hit.add(s.outs.index(o))
        g, arr = outcome(comp, ev, o)
        if o.kind == "exit" and o.val[0] in ("next", "again", "exit", "endless"):
            e, got = ("exit", o.val[0]), o.val[0]
        else:
            e = ending(ev, o)
            got = "ret" if e[0] == "ret" else str(e)
        if failed(e):
            got = "stop"
        if got != want:
            return "ends with %s, expected %s" % (got, want)
        if e[0] == "ret" and m.value is not None and (e[1] & 255) != m.value:
            return "answers %s, expected %s" % (e[1], m.value)
        evs = squeeze(events(ev, o, KINDS))
        if evs != squeeze(m.ev):
            return "effects " + differ(evs, squeeze(m.ev))
        if want == "stop":
            continue
        for x in live:
            if x == "id" and not m.nflag:
                continue
            a, b = g.get(x, sit.vals.get(x, 0)), m.v.get(x, 0)
            if a != b:
                return "%s becomes %s, expected %s" % (x, a, b)
        st = arr.get("store", {})
        for i in sorted(set(st) | set(m.w)):
            if TLIB <= i < NLIB and i >= m.tlsc:
                continue
            a, b = st.get(i, sit.array("store", i)), m.s(i)
            if a != b:
                return "store[%d] becomes %s, expected %s (list of %d)" % (i, a, b, m.tlsc)
    return ""


KINDS = ("code", "future", "produce", "thenelse", "doend", "call", "label", "reserve", "names", "newname", "newconst", "name", "const", "read", "sym")


def squeeze(evs):
    """reserving twice is reserving once; names are looked up silently"""
    r = []
    for e in evs:
        if e[0] in ("name", "const", "read", "sym") or e[0] == "reserve" and r and r[-1][0] == "reserve":
            continue
        r.append(tuple(e) if e[0] != "newconst" else (e[0], e[1] & 0xffffffff))
    return r


def differ(a, b):
    for k in range(max(len(a), len(b))):
        x, y = a[k] if k < len(a) else None, b[k] if k < len(b) else None
        if x != y:
            return "%d: %s, expected %s" % (k + 1, x, y)


def brief_sit(sit, m):
    return ", ".join("%s=%s" % (k, x) for k, x in sorted(sit.vals.items(), key=str) if isinstance(k, str) and k in ("eflag", "oflag", "mflag", "iflag", "vflag", "sflag", "aflag", "bn", "nid", "rlsc", "flsc")) + ", list ..%s" % [
        sit.array("store", k) for k in range(846, 850)]


# -------------------------------------------------------------------- parts
def part_check(fname, ref, shape, n=1500, cut=4, args=(), init=None, store=None, maxcode=7, live=LIVE + OPERAND + ("tfpflag",)):
    """a routine of the main scan on its own"""
    def run(comp):
        ar = {"store": lambda i: store.get(i)} if store else None
        def prepare(it):
            ms = models([], [], maxcode)
            for x in ("fill_result_list", "fill_future_list", "reservation_of_arrays"):
                if x != fname:
                    it.models[x] = ms[x]
            for x in ("offer_character_to_typewriter", "fill_output"):
                it.models[x] = lambda it, I, a, st, fn: R(st)
            for x in ("longjmp", "_longjmp"):
                it.models[x] = lambda it, I, a, st, fn: [Out("exit", ("exit",), st, I.loc)]
        it, outs = paths(comp, fname, args, cut, init, ar, prepare)
        s = Summary(comp, it, outs, "in", None)
        rnd = random.Random(fname)
        diffs, seen, skip = [], 0, 0
        for k in range(n):
            sit = situation(rnd, [], [], {"shape": shape, "init": init, "store": store})
            m = M(sit, [], [])
            want = getattr(m, ref)()
            d = compare(comp, s, sit, m, want, live)
            if d is None and skip < ALONE:
                skip += 1
                d = alone(comp, fname, args, sit, prepare, None, lambda s: compare(comp, s, sit, m, want, live))
            if d is None:
                continue
            seen += 1
            if d:
                diffs.append("%s, %s: %s" % (brief_sit(sit, m), {x: sit.vals[x] for x in OPERAND + ("op",) if x in sit.vals}, d))
            if len(diffs) > 4:
                break
        if not seen:
            raise AnalysisError("no situation within the bound")
        run.stat = (len(outs), 0, skip)
        return diffs, seen, len(outs), it.analysed
    return run


def operand(rnd, v, st):
    nid = rnd.choice(NIDS)
    i = rnd.choice(IDS)
    st[NLIB + nid] = i
    v.update(nid=nid, id=i, nflag=rnd.choice((0, 1)), pflag=i >> 18 & 1, jflag=i >> 17 & 1, fflag=i >> 16 & 1, tfpflag=int(rnd.random() < .2),
             dl=rnd.choice((64, 91, 98, 99)))
    if rnd.random() < .3:
        v["bn"] = i >> 19 & 31


OPERATORS = [9 << 8 | 64, 9 << 8 | 65, 10 << 8 | 66, 10 << 8 | 67, 10 << 8 | 68, 11 << 8 | 69] + [8 << 8 | d for d in range(70, 76)] + [
    (83 - d) << 8 | d for d in range(76, 81)] + [10 << 8 | 132, 2 << 8 | 128, 2 << 8 | 129, 2 << 8 | 130, 2 << 8 | 131] + [
        12 << 8 | (127 + k) for k in (6, 7, 14, 15, 21, 25)] + [12 << 8 | 152, 12 << 8 | 141, 12 << 8 | 142]


def stacked(rnd, v, st, tl):
    operand(rnd, v, st)
    v["op"] = rnd.choice((1, 1, 2, 3, 7, 8, 9, 10, 11))
    st[849] = rnd.choice((98, 87, 104, 83, 161, 160, 100))
    k = 850
    for j in range(rnd.choice((0, 1, 1, 2, 2, 3))):
        o = rnd.choice(OPERATORS)
        if o & 255 in (130, 131):
            st[k] = rnd.choice((0, 1, 3))
            k += 1
        st[k] = o
        k += 1
    v["tlsc"] = k


def conditional(rnd, v, st, tl):
    for k in range(840, 850):
        st[k] = rnd.choice((0, 1, 2, 7, 30))
    st[849] = rnd.choice((83, 84, 86, 83, 84, 86, 85, 87, 98, 104, 161, 9 << 8 | 64, 2 << 8 | 128, 94))


def called(rnd, v, st, tl):
    operand(rnd, v, st)


def labelled(rnd, v, st, tl):
    operand(rnd, v, st)
    nid = v["nid"]
    st[NLIB + nid] = rnd.choice(((1 << 17) + (1 << 15) + (2 << 19), (1 << 18) + (1 << 15) + (1 << 19), (1 << 17) + (2 << 24) + 5 + (3 << 19), (1 << 18) + (2 << 24) + 30))
    st[NLIB + nid - 1] = (37 << 3) + 5 * (nid & 1)
    st[NLIB + nid - 2] = (11 << 3) + 2


LAYOUT = {4101: 5 << 3, 4104: (9 << 3) + 2}


def declared(rnd, v, st, tl):
    v.update(nid=rnd.choice((102, 105)), nflag=rnd.choice((0, 1)), vlam=rnd.choice((0, 160, 161)))
    for k in (4102, 4105):
        i = rnd.choice(((1 << 15) + 193, (1 << 15) + (1 << 16) + 226, (1 << 15) + (1 << 16) + (1 << 19) + 225))
        st[k] = i + rnd.choice((0, 1 << 26, (1 << 26) + (1 << 25)))


def parts():
    """(routine, reference, situations, how)"""
    r = []
    for flags in ((0, 0, 0, 0), (1, 0, 0, 0), (1, 0, 0, 1), (1, 0, 1, 0), (1, 0, 1, 1), (1, 1, 0, 0), (1, 1, 0, 1)):
        ini = dict(zip(("nflag", "pflag", "jflag", "fflag"), flags))
        r.append(("production_of_object_program", "part_produce", stacked, dict(args=(sym("op", 32), ptr("LINK", 0)), n=1200, init=ini, cut=2 if flags[0] else 3)))
    for at in (0, 1):
        r.append(("reservation_of_arrays", "part_reserve", declared, dict(
            init={"nlib": NLIB, "nlsc": 106, "tlsc": 850}, store={**LAYOUT, **({849: 161, 848: 101} if at else {849: 104, 848: 161, 847: 101})}, cut=6, maxcode=16)))
    return r + [("thenelse", "part_thenelse", conditional, {}), ("do_in_t_list", "part_doend", conditional, {}),
                ("procedure_statement", "part_call", called, dict(args=(ptr("LINK", 0),))),
                ("test_first_occurrence", "part_first", called, {}), ("generate_address", "part_address", called, {}),
                ("label_declaration", "part_label", labelled, dict(live=LIVE, cut=11))]


# -------------------------------------------------------------------- cases
def nf(*xs):
    """whether an operand precedes the delimiters read"""
    return {("nflag", "read", k + 1): x for k, x in enumerate(xs)}


STATIC = {"nlib": NLIB, "nlsc": 100, "tlsc": 850, "ibd": 0, "klsc": 9, "gvc": 200}
STATICLIST = {**{k: 0 for k in range(850, 870)}, 848: 161, 849: 44, 4100: 5 * 8, 4101: 3 << 24, 4102: 9 * 8 + 1, 4103: 5, 4104: 3 << 24}


def cases():
    """(what, delimiters, symbols, how)"""
    r = []

    def c(what, dls, syms=(), nfs=(), **k):
        k["ins"] = {**nf(*nfs), **k.get("ins", {})}
        r.append((what, tuple(dls), tuple(syms), k))

    def static(what, dls, nfs, syms=()):
        for bn in (0,):
            c(what, dls, syms, nfs, init=dict(STATIC, bn=bn), store=STATICLIST, stop=1, ins={("nlsc", "newname", 0): 102, ("nlsc", "newname", 1): 105})

    for d, what in ((64, "plus"), (65, "minus"), (66, "times"), (67, "divided by"), (68, "integer division"), (69, "power"), (70, "greater"), (71, "at least"),
                    (72, "equal"), (73, "at most"), (74, "less"), (75, "different"), (76, "not"), (77, "and"), (78, "or"), (79, "implies"), (80, "equivalent"),
                    (81, "goto"), (82, "if"), (83, "then"), (84, "else"), (85, "for"), (86, "do"), (87, "comma"), (90, "colon"), (92, "becomes"), (94, "step"),
                    (95, "until"), (96, "while"), (98, "parenthesis"), (100, "bracket"), (104, "begin")):
        c(what, [d], maxcode=3 if d == 84 else MAXCODE)
    c("closing parenthesis", [99], maxcode=5)
    c("semicolon", [91])
    c("parenthesis of a standard procedure", [98], again=1)
    for syms in ([91], [84], [3, 105]):
        c("end", [105], syms, maxcode=4)
    for x in (91, 84, 64, 87, 99):
        c("closing bracket of a subscripted variable", [101], [x], init={"iflag": 1})
    for n in (1, 2, 3):
        c("closing bracket of bounds", [101, 91], init={"iflag": 0, "aic": n})
        c("closing bracket of bounds, further arrays", [101, 87, 91], init={"iflag": 0, "aic": n})
    for syms in ([103], [3, 103], [3, 4, 5, 103], [3, 102, 4, 103, 7, 8, 103]):
        c("string", [102], syms)
    # declarations
    c("own scalars", [106, 91], [109])
    c("own scalars", [106, 87, 91], [107])
    c("own scalars", [106, 87, 87, 91], [108])
    for t in (107, 108, 109):
        c("scalars", [t, 91], (), (1,))
        c("scalars", [t, 91, 92], (), (1, 1), stop=1)
        c("scalars", [t, 87, 91, 98], (), (1, 1, 0))
        for t2 in (107, 108, 109):
            c("scalars of two types", [t, 91, t2, 91, 92], (), (1, 1, 1, 1), stop=1)
            c("scalars of two types", [t, 91, t2, 87, 91, 98], (), (1, 0, 1, 1, 1, 0))
        c("scalars and arrays", [t, 91, 109, 110, 100], (), (1, 0, 0, 1, 1))
        c("scalars and arrays", [t, 91, 108, 110, 87, 100], (), (1, 0, 0, 1, 1))
        c("scalars and a procedure", [t, 91, 108, 112], (), (1, 0, 0, 1), stop=1)
    c("real", [109, 91], (), (0,), stop=1)
    c("real", [109, 84], (), (0,), stop=1)
    for t in (108, 109):
        c("procedure with a type", [t, 112], (), (0,), stop=1)
    for bn in (0, 1):
        c("array", [110, 100], (), (1,), init={"bn": bn}) if bn else None
        c("array", [110, 87, 100], (), (1, 1), init={"bn": bn}) if bn else None
        c("array with a type", [109, 110, 100], (), (0, 1), init={"bn": bn}) if bn else None
        c("array with a type", [107, 110, 87, 100], (), (0, 1, 1), init={"bn": bn}) if bn else None
    static("static array", [110, 100, 90, 101, 91], (1, 1, 1, 0))
    static("static array", [108, 110, 100, 90, 101, 91], (0, 1, 1, 1, 0))
    static("static array", [109, 110, 100, 90, 65, 101, 91], (0, 1, 1, 0, 1, 0))
    for s in (64, 65):
        static("static array", [110, 100, s, 90, 101, 91], (1, 0, 1, 1, 0))
        static("static array", [110, 100, 90, s, 101, 91], (1, 1, 0, 1, 0))
        static("static array", [110, 100, 65, 90, s, 101, 91], (1, 0, 1, 0, 1, 0))
    static("static arrays", [110, 87, 100, 90, 101, 91], (1, 1, 1, 1, 0))
    static("static array", [110, 100, 90, 87, 90, 101, 91], (1, 1, 1, 1, 1, 0))
    static("static arrays", [110, 100, 90, 101, 87, 100, 90, 101, 91], (1, 1, 1, 1, 1, 1, 0))
    for t in (107, 108, 109):
        static("own array", [106, 110, 100, 90, 101, 91], (0, 1, 1, 1, 0), [t])
    c("switch", [111])
    c("procedure without parameters", [112, 91])
    head = [112, 98, 99, 91]
    c("procedure", [112, 98, 87, 99, 91, 104], (), (1, 1, 1, 0, 0))
    for s in (113, 114, 111, 112, 110, 115):
        c("specification", head + [s, 91, 82], (), (1, 1, 0, 0, 1, 0), value=1)
        c("specification", head + [s, 87, 91, 104], (), (1, 1, 0, 0, 1, 1, 0))
    for s in (107, 108, 109):
        c("specification of scalars", head + [s, 91, 104], (), (1, 1, 0, 0, 1, 0), value=1)
        c("specification of scalars", head + [s, 87, 91, 104], (), (1, 1, 0, 0, 1, 1, 0), value=1)
        c("value and specification", head + [115, 91, s, 91, 104], (), (1, 1, 0, 0, 1, 0, 1, 0), value=1)
        for u in (110, 112):
            c("specification with a type", head + [s, u, 91, 104], (), (1, 1, 0, 0, 0, 1, 0), value=1)
    return r


@group("scan")
def _(comp):
    return [Check("%s: %s" % (what, name_of(dls, syms)), "main_scan", scan_check(dls, syms, **k)) for what, dls, syms, k in cases()]


@group("scanparts")
def _(comp):
    return [Check("part of the scan", f, part_check(f, ref, sh, **k)) for f, ref, sh, k in parts()]
