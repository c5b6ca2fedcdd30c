"""The program loader: every needed library procedure, once, where its calls go."""
from rules_comp import *
from rules_list import Ends, sit_of, word, seg
from models import cval
from absint import State
from comp import PTR0

LL, ADDRESS, LOCATION = "ll", "list_address", "read_location"      # in the loader's record
NLSCOP, NLSC0 = 43, 65
MLIB, CRFB, MCPB, BIM, KLIE, END = 800, 623, 928, 972, 10165, 7680
TERM = (1 << 21) * 63
START = 96


class Tape:
    """procedures on one library tape: (number, length, skipped bytes or None)"""

    def __init__(self, *segs, endmark=True):
        self.segs, self.endmark = segs, endmark


class Case:
    def __init__(self, name, prim, crf, stored=(), tapes=(), rlsc=20, klsc=3, extra=2, start=START, gvc=138, opened=None, low=0):
        """prim: numbers used by the program; crf: (length, number, users);
        stored: numbers kept in the compiler, in order of reading"""
        self.name, self.prim, self.crf, self.stored, self.tapes = name, list(prim), crf, list(stored), list(tapes)
        self.rlsc, self.klsc, self.extra, self.start, self.gvc, self.opened, self.low = rlsc, klsc, extra, start, gvc, opened, low

    def setup(self):
        st = {}
        rnsb, flib, nlib = 2000, 2100, 3000
        fl = [4000 + 3 * k for k in range(self.extra)]
        # names: a mixture of short and long ones, some of them used
        at, names, k = NLSC0, list(self.prim), 0
        while at > NLSCOP:
            n = 3 if (k % 2 and at - NLSCOP != 4 or at - NLSCOP == 3) and at - NLSCOP != 2 else 2
            if at - NLSCOP == 5:
                n = 2
            if self.low == 2:
                n = 2
            if names and k >= (1 if len(names) < 7 else 0) and (not self.low or at - NLSCOP <= self.low):
                st[nlib + at - 1] = (1 << 18) + (3 << 19) + len(fl)
                fl.append((1 << 18) + names.pop(0))
                if names and len(names) % 2:
                    fl.append(4999)
            else:
                st[nlib + at - 1] = (1 << 18) + (1 << 15) + 40 + k
            st[nlib + at - 2] = 8 * (100 + k) + (0 if n == 2 else 3)
            if n == 3:
                st[nlib + at - 3] = 77 + k
            at -= n
            k += 1
        if names:
            raise AnalysisError("too many used names in the case " + self.name)
        for k, x in enumerate(fl):
            st[flib + k] = x
        klib = flib + len(fl) + 4
        for k in range(self.klsc):
            st[klib + k] = 600000 + k
        # cross-reference list, two entries to a word
        items = []
        for ln, num, users in self.crf:
            items += [ln, num] + list(users) + [END]
        items += [END, END]
        for k in range(0, len(items), 2):
            st[CRFB + k // 2] = items[k] << 13 | (items[k + 1] if k + 1 < len(items) else 0)
        for k in range(128):
            st[MLIB + k] = 500 + k
        # procedures kept in the compiler lie below the program, one after the other
        at = BIM - 1
        st[at] = TERM
        self.place = {}
        length = {num: ln for ln, num, _ in self.crf}
        for num in self.stored:
            self.place[at] = (length[num], num)
            for k in range(3):
                st[at - 1 - k] = 111 + k
            at -= 4
            st[at] = TERM
        self.place[at] = (END, 0)
        st[at - 1] = 0
        rlib = (KLIE - self.rlsc - self.klsc) // 32 * 32
        st[rlib] = self.start
        self.fl, self.flib, self.klib, self.nlib, self.rnsb, self.rlib = fl, flib, klib, nlib, rnsb, rlib
        v = {"rlsc": self.rlsc, "klsc": self.klsc, "flsc": len(fl), "flib": flib, "klib": klib, "nlib": nlib, "nlsc": NLSC0, "rnsb": rnsb, "gvc": self.gvc,
             "P_argc": 2 + len(self.tapes), "optind": 2, "verbose_tape": 0, "lib_tape": 0, "bitcount": 0, "bitstock": 0}
        return v, st


def next_term(st, at):
    at -= 1
    while st.get(at) != TERM:
        at -= 1
        if at < MCPB - 100:
            return at
    return at


def models(case, st0):
    """the reading of the bit strings, scripted by the case"""
    def place(it, name):
        return int(local_fields(it.comp, "LOC_program_loader")[name][2:])

    def field(it, st, v, off):
        x = it.load(st, it.gep(v, const(place(it, off), 64)), 4, I32)
        if not is_c(x):
            raise AnalysisError("the loader's record is not known")
        return s32_(cval(x))

    def setf(it, st, v, off, x):
        it.store(st, it.gep(v, const(place(it, off), 64)), 4, const(x, 32))

    def prep(kind):
        def f(it, I, args, st, fn):
            skipped(st)
            st.events += ((kind, field(it, st, args[-1], LOCATION) if kind != "prep3" else 0),)
            return R(st)
        return f

    def skipped(st):
        """a procedure passed over on tape ends with two zeros"""
        last = since(st, ("prep1", "prep2", "prep3"))
        if not last or last[-1][0] != "prep3" or any(e[0] == "list" for e in last):
            return
        cut = State()
        n = max((i for i, e in enumerate(last) if e[0] == "fopen"), default=-1) + 1      # last is in reverse order
        cut.events = st.events[:len(st.events) - n]
        ln, num, body = segment(cut)
        k = sum(1 for e in last if e[0] == "byte")
        if body is not None and k != len(body):
            raise Differs("%s: of procedure %d on tape, not needed, %d of %d characters %s are skipped" % (case.name, num, k, len(body), body))

    def since(st, kinds):
        r = []
        for e in reversed(st.events):
            r.append(e)
            if e[0] in kinds:
                return r
        return r

    def segment(st):
        last = since(st, ("prep1", "prep2", "prep3"))
        k = last[-1][0]
        if k == "prep2":
            s = case.place.get(last[-1][1])
            if s is None:
                raise Differs("%s: the procedures in the store are read from %d, none begins there" % (case.name, last[-1][1]))
            return s + (None,)
        if k == "prep3":
            o = count(st, "fopen") - 1
            i = sum(1 for e in since(st, ("fopen",)) if e[0] == "prep3") - 1
            t = case.tapes[o]
            if i < len(t.segs):
                num, ln, body = t.segs[i]
                return ln, num, body
            return (END if i == len(t.segs) and t.endmark else -1), 0, None
        raise Differs("%s: a length is read from the program" % case.name)

    def bits(it, I, args, st, fn):
        if not is_c(args[0]) or cval(args[0]) != 13:
            raise AnalysisError("other fields than lengths and numbers are read")
        k = sum(1 for e in since(st, ("prep1", "prep2", "prep3", "list")) if e[0] == "bits")
        s = segment(st)
        st.events += (("bits",),)
        return R(st, const([0 if s[0] < 0 else s[0], s[1]][k] if k < 2 else 0, 32))

    def byte(it, I, args, st, fn):
        body = segment(st)[2] or []
        k = sum(1 for e in since(st, ("prep3",)) if e[0] == "byte")
        st.events += (("byte",),)
        return R(st, const(body[k] if k < len(body) else -1, 32))

    def rdlist(it, I, args, st, fn):
        v = args[-1]
        loc = field(it, st, v, LOCATION)
        prog = since(st, ("prep1", "prep2", "prep3"))[-1][0]
        num = segment(st)[1] if prog != "prep1" else -1
        mli = tuple(it.load(st, ptr("@store", 4 * (MLIB + j)), 4, I32) for j in range(128))
        st.events += (("list", num, field(it, st, v, LL), field(it, st, v, ADDRESS), prog, tuple(s32_(cval(x)) if is_c(x) else None for x in mli),
                       [it.load(st, ptr("@" + n, 0), 4, I32) for n in ("klib", "flib", "flsc")],
                       [it.load(st, ptr("@store", 4 * (case.flib + j)), 4, I32) for j in range(len(case.fl))]),)
        if prog == "prep1":
            setf(it, st, v, LOCATION, BIM - 1)
        elif prog == "prep2":
            setf(it, st, v, LOCATION, next_term(st0, loc))
        return R(st)

    def feof(it, I, args, st, fn):
        s = segment(st)
        return R(st, const(int(s[0] < 0), 32))

    return {"read_list": rdlist, "prepare_read_bit_string1": prep("prep1"), "prepare_read_bit_string2": prep("prep2"),
            "prepare_read_bit_string3": prep("prep3"), "read_bit_string": bits, "read_byte_from_lib_tape": byte, "feof": feof,
            "test_bit_stock": p_event("test", 0), "typ_address": p_event("typed", 1), "list_undefined_references": p_event("undefined", 0)}


def s32_(v):
    return v - (1 << 32) if v >> 31 else v


def needed(case):
    need = set(case.prim)
    while True:
        more = {num for ln, num, users in case.crf if num not in need and any(u in need for u in users)}
        if not more:
            return need
        need |= more


def expected(case):
    """'failure', or the sets of procedures and their addresses as found"""
    need = needed(case)
    have = list(case.stored)
    length = {num: ln for ln, num, _ in case.crf}
    todo = need - set(have)
    for k, t in enumerate(case.tapes):
        if not todo:
            break
        if case.opened is not None and not case.opened[k]:
            return None
        for num, ln, body in t.segs:
            if num > 50 or not 0 < ln <= 1024:
                return None
            todo.discard(num)
    if todo or case.start != START:
        return None
    total = sum(length[x] for x in need)
    rlib = (KLIE - case.rlsc - case.klsc) // 32 * 32
    if rlib - total < case.gvc:
        return None
    return need, length, rlib, rlib - total


def judge(case, e, evs, o, r):
    want = expected(case)
    lists = [x for x in o.st.events if x[0] == "list"]
    if want is None:
        if not failed(e):
            return "is accepted"
        if e[0] == "exit" and not any(x[0] in ("perror", "print", "undefined") for x in o.st.events):
            return "fails without a message"
        return None
    need, length, rlib, low = want
    if e[0] != "ret":
        return "ends with %s" % (e,)
    x = r.vals
    if (x["rlib"], x["mcpe"]) != (rlib, low):
        return "lies at %s with library procedures from %s, expected %d and %d" % (x["rlib"], x["mcpe"], rlib, low)
    if seg(r, rlib + case.rlsc, case.klsc) != [600000 + k for k in range(case.klsc)]:
        return "its constants become %s" % seg(r, rlib + case.rlsc, case.klsc)
    if not lists or lists[0][1:5] != (-1, case.rlsc, rlib, "prep1"):
        return "the program is loaded as %s" % (lists[0][1:5] if lists else None,)
    place = {}
    for l in lists[1:]:
        n, ll, at = l[1:4]
        if n in place:
            return "procedure %d is loaded twice" % n
        if n not in need:
            return "procedure %d is loaded without need" % n
        if ll != length[n]:
            return "procedure %d of length %d is loaded with length %d" % (n, length[n], ll)
        if not low <= at <= rlib - ll:
            return "procedure %d is loaded to %d, outside %d..%d" % (n, at, low, rlib)
        for m, (a, b) in place.items():
            if at < b and a < at + ll:
                return "procedures %d and %d are loaded over one another" % (m, n)
        place[n] = (at, at + ll)
    if set(place) != need:
        return "procedures %s are not loaded" % sorted(need - set(place))
    # what the calls use: the future list while the program is loaded, the list
    # of library addresses while the procedures are
    prog = lists[0]
    k, f, s = [s32_(cval(t)) if is_c(t) else None for t in prog[6]]
    if (k, f) != (rlib + case.rlsc, case.flib) or s != len(case.fl):
        return "while the program is loaded constants are at %s, the future list at %s (%s)" % (k, f, s)
    got = [s32_(cval(t)) if is_c(t) else None for t in prog[7]]
    exp = [place[x & 32767][0] if x >> 18 & 1 else x + rlib for x in case.fl]
    if [g & 32767 if g is not None else g for g in got] != [w & 32767 for w in exp] or [g for g, y in zip(got, case.fl) if y < 1 << 18] != [y + rlib for y in case.fl if y < 1 << 18]:
        return "future references become %s, expected %s" % (got, exp)
    for l in lists[1:]:
        for n in need:
            if l[5][n] != place[n][0]:
                return "while procedure %d is loaded, calls of %d go to %s, it is at %d" % (l[1], n, l[5][n], place[n][0])
        k, f, s = [s32_(cval(t)) if is_c(t) else None for t in l[6]]
        if k != CRFB or s != 0:
            return "library procedures are loaded with future list of %s entries, constants at %s" % (s, k)
    kinds = [x[0] for x in o.st.events]
    t = [s32_(cval(x[1])) if is_c(x[1]) else None for x in o.st.events if x[0] == "typed"]
    if t != [rlib, low]:
        return "the addresses typed are %s, expected %s" % (t, [rlib, low])
    for k, b in zip(kinds, kinds[1:]):
        pass
    return None


def library():
    """procedures as in the delivered list, and one with secondary needs"""
    plain = [(54, 0, ()), (20, 1, ()), (14, 2, ()), (7, 7, ()), (8, 8, ())]
    deep = [(63, 3, ()), (15, 4, (3,)), (134, 6, (24,)), (21, 24, ()), (9, 9, (6, 4)), (5, 10, (9,)), (11, 11, ())]
    order = [(63, 3, ()), (21, 24, ()), (11, 11, ()), (134, 6, (24,)), (15, 4, (3,)), (9, 9, (6, 4)), (5, 10, (9,))]
    return plain, order


def cases():
    plain, deep = library()
    nums = [n for _, n, _ in plain]
    full = [(n, l, [5, 0, 0]) for l, n, _ in plain]
    # all in the store, all subsets of three
    for prim in ([], [0], [1], [2], [8], [0, 8], [1, 7], [7, 1, 0], [0, 1, 2, 7, 8]):
        yield Case("program using %s, library in the store" % prim, prim, plain, stored=nums)
        yield Case("program using %s, library in the store in other order" % prim, prim, plain, stored=nums[::-1])
        yield Case("program using %s, library on tape" % prim, prim, plain, tapes=[Tape(*full)])
        yield Case("program using %s, library on tape without end mark" % prim, prim, plain, tapes=[Tape(*full, endmark=False)])
        yield Case("program using %s, library in the store and on tape" % prim, prim, plain, stored=[1, 8], tapes=[Tape(*full)])
        yield Case("program using %s, library on two tapes" % prim, prim, plain, stored=[2], tapes=[Tape(*full[:2]), Tape(*full[2:], endmark=False)])
        yield Case("program using %s, part of the library" % prim, prim, plain, stored=[1, 8])
        yield Case("program using %s, part of the library on tape" % prim, prim, plain, stored=[1], tapes=[Tape(*full[2:4])])
        yield Case("program using %s, unreadable tape" % prim, prim, plain, stored=[2], tapes=[Tape(*full)], opened=[0])
        yield Case("program using %s, the second tape unreadable" % prim, prim, plain, stored=[2], tapes=[Tape(*full[:2]), Tape(*full)], opened=[1, 0])
        yield Case("program using %s, start overwritten" % prim, prim, plain, stored=nums, start=95)
    # secondary needs
    ns = [n for _, n, _ in deep]
    tape = [(n, l, [3, 0, 7, 9, 0, 0]) for l, n, _ in deep]
    for prim in ([3], [24], [6], [4], [9], [10], [3, 24], [3, 4], [11, 9], [24, 10, 3], [11], [6, 24, 9, 4]):
        yield Case("program using %s, secondary needs" % prim, prim, deep, stored=ns)
        yield Case("program using %s, secondary needs on tape" % prim, prim, deep, stored=[9, 24], tapes=[Tape(*tape)])
        yield Case("program using %s, secondary needs missing" % prim, prim, deep, stored=[n for n in ns if n != 9], tapes=[Tape(*[t for t in tape if t[0] != 9])])
        yield Case("program using %s, secondary needs on two tapes" % prim, prim, deep, stored=[], tapes=[Tape(*tape[::-1][:4]), Tape(*tape[::-1][4:])])
    # skipping on tape: every position of the end of a procedure
    for body in ([0, 0], [1, 0, 0], [0, 1, 0, 0], [1, 2, 0, 3, 0, 0], [0, 1, 0, 1, 0, 0], [9] * 7 + [0, 0]):
        yield Case("skipping %s" % body, [1], plain, tapes=[Tape((0, 54, body), (1, 20, [5, 0, 0]), (2, 14, body), (7, 7, body))])
    # lengths and places
    for rlsc in (1, 2, 31, 32, 33, 500):
        for klsc in (0, 1, 5, 40):
            yield Case("program of %d words, %d constants" % (rlsc, klsc), [1, 7], plain, stored=nums, rlsc=rlsc, klsc=klsc)
    for extra in (0, 1, 7):
        yield Case("%d future references" % extra, [0, 2], plain, stored=nums, extra=extra)
    yield Case("20 future references", [0, 2], plain, stored=nums, extra=20)
    for prim in ([1], [8, 2], [7]):
        for low in (2, 3, 5, 8):
            if low > 3 * len(prim) - 2:
                yield Case("program using %s among the last %d words of names" % (prim, low), prim, plain, stored=nums, low=low)
    yield Case("a procedure twice on tape", [1, 2], plain, tapes=[Tape((1, 20, [5, 0, 0]), (1, 20, [5, 0, 0]), *full)])
    yield Case("a procedure on both tapes", [1, 2], plain, tapes=[Tape(full[1]), Tape(*full)])
    yield Case("a procedure in the store and on tape", [1, 2], plain, stored=[1], tapes=[Tape(*full)])
    yield Case("the first of two tapes unreadable", [1], plain, tapes=[Tape(*full), Tape(*full)], opened=[0, 1])
    for gvc in (10083, 10084, 10085, 10086, 10087, 10090, 10110, 10111, 10112, 10113):
        yield Case("static variables up to %d beside the library" % gvc, [1, 7], plain, stored=nums, gvc=gvc, rlsc=40, klsc=0)
    for gvc in (138, 5000, 10060, 10069, 10070, 10071, 10080, 10138, 10150):
        yield Case("static variables up to %d" % gvc, [1, 7], plain, stored=nums, gvc=gvc, rlsc=40, klsc=0)
        yield Case("static variables up to %d, no library" % gvc, [], plain, stored=nums, gvc=gvc, rlsc=20, klsc=0)
    # bad tapes
    for bad in ((51, 20, [0, 0]), (127, 20, [0, 0]), (5, 0, [0, 0]), (5, 1025, [0, 0])):
        yield Case("tape with procedure %d of length %d" % bad[:2], [1], plain, tapes=[Tape(bad, (1, 20, [5, 0, 0]))])
        yield Case("tape with procedure %d of length %d, not needed" % bad[:2], [1], plain, stored=nums, tapes=[Tape(bad, (1, 20, [5, 0, 0]))])
    yield Case("the last library procedure on tape", [50], plain + [(1024, 50, ())], stored=nums, tapes=[Tape((50, 1024, [1, 0, 0]))])


def load_check(part, parts):
    def run(comp):
        from comp import tables
        t = tables(comp)["opc_table"]
        diffs, n, paths, funcs = [], 0, 0, set()
        for k, c in enumerate(cases()):
            if k % parts != part:
                continue
            v, st = c.setup()
            if c.start == START:
                st[c.rlib] = t.get(89, 0)
            ar = {"store": lambda i, st=st: st.get(i, 0), "opc_table": lambda i: t.get(i, 0), "mcp_names": lambda i: 0}
            vals = {k: x for k, x in v.items() if k != "lib_tape"}
            it = comp.interp(values=vals, arrays=ar)
            it.cut = 400
            it.models.update(models(c, st))
            s0 = State()
            it.store(s0, ptr("@lib_tape", 0), 8, PTR0)
            s = Summary(comp, it, it.run(comp.prog.one("program_loader"), [], s0), "in", None)
            paths += len(s.outs)
            funcs |= set(s.it.analysed)
            sit = sit_of({**v, **{("opened", j): 1 if c.opened is None else c.opened[j] for j in range(len(c.tapes))}}, st)
            sit.arrays["opc_table"] = ar["opc_table"]
            ev, ps = s.paths(sit)
            n += 1
            if not ps:
                if s.it.dropped:
                    raise Differs("%s: the loader does not end" % c.name)
                raise NoPath(c.name)
            e, evs, r = s.step(sit)
            d = judge(c, e, evs, ps[0], r)
            if d:
                diffs.append("%s: %s" % (c.name, d))
            if len(diffs) > 4:
                break
        return diffs, n, paths, funcs
    return run


@group("loadprog")
def _(comp):
    return [Check("loading of the program and its library, part %d" % (k + 1), "program_loader", load_check(k, 6)) for k in range(6)]
