"""Library procedures: the tables of the compiler, the images in its store and
on the library tape, and their assembly sources agree."""
import os, re
from rules_comp import *
from rules_code import OPCODE, MASKS, ESCAPE, heptades

REPO = os.environ.get("X1_REPO", "/repo")
NUMBERS = {"SUM": 0, "PRINTTEXT": 1, "EVEN": 2, "RESYM": 7, "PRSYM": 8, "RANDOM": 17, "SETRANDOM": 18, "TIMEOFDAY": 77}
TAPE = ["SUM", "RESYM", "PRSYM", "RANDOM", "SETRANDOM"]
INVOP = {(l, v): o for o, (l, v) in OPCODE.items()}
INVMASK = {(l, v): m for m, (l, v) in MASKS.items()}


class Bits:
    def __init__(self, bits):
        self.b, self.i = bits, 0

    def take(self, n):
        v = 0
        for k in range(n):
            if self.i >= len(self.b):
                raise Differs("the code ends before the procedure is complete")
            v = v * 2 + self.b[self.i]
            self.i += 1
        return v

    def prefix(self, codes, longest=10):
        v = 0
        for l in range(1, longest + 1):
            v = v * 2 + self.take(1)
            if (l, v) in codes:
                return codes[l, v]
        raise Differs("no code begins with %s" % bin(v))


LOW = {(2, 0): 1, (3, 2): 2, (3, 3): 3}
LOW.update({(6, 32 + k): k for k in range(32)})
MID = {(2, 0): 0, (4, 4): 1, (4, 5): 2, (4, 6): 4, (4, 7): 5}
MID.update({(6, 32 + k): k for k in range(32)})
HIGH = {(1, 0): 0}
HIGH.update({(6, 32 + k): k for k in range(32)})


def address(b):
    h, m, l = b.prefix(HIGH), b.prefix(MID), b.prefix(LOW)
    return h << 10 | m << 5 | l


WORD = dict(INVOP)
WORD.update({(l, v): ("mask", m) for (l, v), m in INVMASK.items()})
WORD[ESCAPE] = ("escape", None)


def procedure(b):
    """(number, [(class, word)]) of the next procedure of a bit stream; None
    at its end"""
    while b.take(1) != 1:
        pass
    n = b.take(13)
    if n >= 7680:
        return None
    num = b.take(13)
    r = []
    for k in range(n):
        x = b.prefix(WORD)
        if isinstance(x, int):
            r.append((x, None))
        elif x[0] == "mask":
            r.append((x[1] & 7, (x[1] >> 15 << 15) + address(b)))
        else:
            p = address(b)
            r.append((p >> 12, ((p & 4095) << 15) + address(b)))
    return num, r[::-1]


def terminated(b):
    """the procedure is followed by the end mark"""
    rest = b.b[b.i:b.i + 27]
    rest += [0] * (27 - len(rest))
    if rest[:6] != [1] * 6 or any(rest[6:21]):
        raise Differs("no end mark follows the procedure")


def source(name):
    p = os.path.join(REPO, "library", name.lower() + ".src")
    r = []
    for l in open(p, errors="replace"):
        m = re.match(r"\s*([0-7]+|\d+)\s+(\d+)(?:\s+(0[0-7]*))?(?:\s|$)", l)
        if m and (int(m.group(2)) >= 8 or m.group(3)):
            r.append((int(m.group(2)), int(m.group(3), 8) if int(m.group(2)) < 8 else None))
    return r


def store_words(comp):
    """constant words the main program has put into its store for the loader"""
    tables(comp)
    o = comp._main[2][0]
    vecs = o.st.tags["at loader"]
    key = next(k for k in vecs if k[0] == "arr" and k[2] == "store")
    w = {}
    for idx, off, s, v in vecs[key].log:
        if is_c(idx) and isinstance(v, T) and is_c(v):
            w[cval(idx) // s] = s32(cval(v))
    return w


def tagged(comp, name):
    tables(comp)
    return comp._main[2][0].st.tags["at " + name]


MCPB, BIM, CRFB = 928, 928 + 22 + 14 + 6 + 2, 623


def resident(comp):
    w = store_words(comp)
    top = BIM - 1
    seen = {}
    # read downwards from the word below the program code, each procedure
    # beginning behind the end mark of the previous one
    loc = top
    for k in range(16):
        ws = []
        j = loc - 1
        while j > MCPB and w.get(j, 0) != 63 << 21:
            ws.append(w.get(j, 0))
            j -= 1
        if not ws:
            break
        bits = [x >> (26 - i) & 1 for x in ws for i in range(27)]
        b = Bits(bits + [1] * 6 + [0] * 21)
        p = procedure(b)
        if p is None:
            break
        terminated(b)
        if p[0] in seen:
            raise Differs("procedure %d is in the store twice" % p[0])
        seen[p[0]] = p[1]
        loc = j
    return seen, w


def image_check(comp):
    seen, w = resident(comp)
    diffs = []
    names = {v: k for k, v in NUMBERS.items()}
    for num, code in seen.items():
        if num not in names:
            diffs.append("the procedure in the store with number %d is unknown" % num)
            continue
        want = source(names[num])
        if code != want:
            diffs.append("%s in the store differs from its source at word %s" % (names[num], first(code, want)))
    for n in ("PRINTTEXT", "EVEN", "TIMEOFDAY"):
        if NUMBERS[n] not in seen:
            diffs.append("%s is not in the store" % n)
    if w.get(BIM - 1) != 63 << 21:
        diffs.append("no end mark below the program code")
    if w.get(MCPB) != 63 << 21:
        diffs.append("no end mark below the procedures in the store")
    return diffs, len(seen), 1, {"main"}


def first(a, b):
    for k in range(max(len(a), len(b))):
        x, y = a[k] if k < len(a) else None, b[k] if k < len(b) else None
        if x != y:
            return "%d: %s, in the source %s" % (k, x, y)


def tape(path):
    return [int(x) for x in open(path).read().split()]


def tape_procedures(t):
    r, i = [], 0
    while i < len(t):
        while i < len(t) and t[i] == 0:
            i += 1
        if i >= len(t):
            break
        if t[i] != 30:
            raise Differs("a procedure on the tape begins with %d" % t[i])
        i += 1
        bits, j = [], i
        while j + 3 < len(t):
            a, b_, c, d = t[j:j + 4]
            word = (a >> 1) << 21 | b_ << 14 | c << 7 | d
            if (bin(word).count("1") + (a & 1)) % 2 == 0:
                raise Differs("wrong parity at heptade %d of the tape" % j)
            bits += [word >> (26 - k) & 1 for k in range(27)]
            j += 4
            if a == 127 or a == 126:
                if b_ == c == d == 0:
                    break
        b = Bits(bits + [0] * 27)
        p = procedure(b)
        if p is None:
            raise Differs("no procedure behind the header at heptade %d" % i)
        b.b = bits
        terminated(b)
        r.append(p)
        i = j
    return r


def tape_check(comp):
    diffs, n = [], 0
    ps = tape_procedures(tape(os.path.join(REPO, "library", "x1algol.lib")))
    names = {v: k for k, v in NUMBERS.items()}
    if sorted(p[0] for p in ps) != sorted(NUMBERS[x] for x in TAPE):
        diffs.append("the library tape holds the procedures %s, expected %s" % ([p[0] for p in ps], [NUMBERS[x] for x in TAPE]))
    for num, code in ps:
        n += 1
        if num in names:
            want = source(names[num])
            if code != want:
                diffs.append("%s on the library tape differs from its source at word %s" % (names[num], first(code, want)))
    return diffs, n, 1, {"main"}


def crf_check(comp):
    w = store_words(comp)
    tables(comp)
    o = comp._main[2][0]
    ent = [tuple(x for x in e[1:]) for e in o.st.events if e[0] == "crf"]
    vals = [tuple(y for y in e) for e in ent]
    diffs = []
    want = {NUMBERS[n]: len(source(n)) for n in NUMBERS}
    got, ended = {}, False
    for e in vals:
        if ended and e != (7680,):
            diffs.append("an entry follows the end of the list")
        if e == (7680,):
            ended = True
            continue
        if e[-1] != 7680:
            diffs.append("entry %s is not closed" % (e,))
        got[e[1]] = e[0]
        if len(e) != 3:
            diffs.append("entry %s: no procedure needs another" % (e,))
    if got != want:
        diffs.append("lengths by procedure number %s, expected %s" % (got, want))
    if not ended:
        diffs.append("the list is not closed")
    return diffs, len(vals), 1, {"main"}


def crf_store_check(comp):
    """an entry put into the cross-reference list is read back item by item"""
    put = summary(comp, "put_crf_item", [sym("a", 32, 0, 4000), sym("v", 32, 0, 8191)], cut=2)
    get = summary(comp, "read_crf_item", [ptr("V", 0)], cut=2)
    diffs, n = [], 0
    for start in (1246, 1247):
        for items in ([54, 0, 7680, 20, 1, 7680], [7, 77, 7680, 7680, 7680], [8191, 0, 4096, 1, 2, 3]):
            st = {700: 5, 623: 0, 624: 12345}
            sit = Situation({}, {"store": st})
            for k, v in enumerate(items):
                sit.vals.update({"a": start + k, "v": v})
                if start % 2 and k == 0:
                    e, evs, sit = put.step(Situation({"a": start - 1, "v": 0}, sit.arrays))
                e, evs, sit = put.step(Situation({"a": start + k, "v": v}, sit.arrays))
            rd = Situation({local_fields(comp, "LOC_program_loader")["crfa"]: start}, sit.arrays)
            for v in items:
                e, evs, rd = get.step(rd)
                n += 1
                if e != ("ret", v):
                    diffs.append("items %s: read back %s for %d" % (items, e, v))
                    break
    return diffs, n, len(put.outs) + len(get.outs), set(put.it.analysed) | set(get.it.analysed)


@group("images")
def _(comp):
    return [Check("procedures in the store equal their sources", "main", image_check),
            Check("procedures on the library tape equal their sources", "main", tape_check),
            Check("cross-reference list: lengths and numbers", "main", crf_check),
            Check("cross-reference list: stored and read back", "put_crf_item", crf_store_check)]
