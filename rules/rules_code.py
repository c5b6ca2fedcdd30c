"""The code of object programs: what the code generator writes into the bit
stream is what the program loader reads from it."""
from rules_comp import *

# ------------------------------------------------------ the reference code
# operations: (number of bits, pattern)
OPCODE = {33: (4, 0), 34: (4, 1), 16: (5, 4), 56: (5, 5), 58: (5, 6), 85: (5, 7), 9: (6, 16), 14: (6, 17), 18: (6, 18), 30: (6, 19),
          13: (7, 40), 17: (7, 41), 19: (7, 42), 20: (7, 43), 31: (7, 44), 35: (7, 45), 39: (7, 46), 61: (7, 47)}
_short = set(OPCODE)
for _k, _o in enumerate([o for o in list(range(8, 62)) if o not in _short]):
    OPCODE[_o] = (10, 384 + _k)
for _o in range(62, 113):
    if _o != 85:
        OPCODE[_o] = (10, _o + 359)

# instruction parts with short codes: (instruction word without its address, operation class) -> (bits, pattern, mask)
MASKS = {21495808: (3, 4), 71827459: (3, 5), 88080386: (4, 12), 71827456: (4, 13), 4718592: (7, 112), 71303170: (7, 113),
         88604673: (7, 114), 0: (7, 115), 524291: (7, 116), 88178690: (7, 117), 71827457: (7, 118), 1048577: (7, 119),
         20971522: (7, 120), 4784128: (7, 121), 8388608: (7, 122), 4390912: (7, 123), 13172736: (7, 124), 1572865: (7, 125),
         524288: (7, 126)}
ESCAPE = (7, 127)


def addr_bits(a):
    """the three five-bit groups of an address, last group first"""
    low, mid, high = a & 31, a >> 5 & 31, a >> 10 & 31
    r = [{1: (2, 0), 2: (3, 2), 3: (3, 3)}.get(low, (6, 32 + low)),
         {0: (2, 0), 1: (4, 4), 2: (4, 5), 4: (4, 6), 5: (4, 7)}.get(mid, (6, 32 + mid)),
         (1, 0) if high == 0 else (6, 32 + high)]
    return r


def word_bits(opc, w):
    """bit groups in the order in which they are put into the stream"""
    if opc >= 8:
        return [OPCODE[opc]]
    m = (w >> 15 << 15) + opc
    r = addr_bits(w & 32767)
    if m in MASKS:
        return r + [MASKS[m]]
    return r + addr_bits((w >> 15) + (opc << 12)) + [ESCAPE]


ADDRS = sorted(set([a | b << 5 | c << 10 for a in (0, 1, 2, 3, 4, 31) for b in (0, 1, 2, 3, 4, 5, 6, 31) for c in (0, 1, 2, 31)] +
                   [k << s for k in range(32) for s in (0, 5, 10)] + [32767]))


def stack_check(comp):
    s = summary(comp, "address_coder", [sym("a", 32, 0, 32767)], cut=4, models={"bit_string_maker": p_event("bits")}, kind="bits")
    diffs, n = [], 0
    for a in range(32768):
        sit = Situation({"a": a})
        ev, ps = s.paths(sit)
        want = tuple(("bits", l * 1024 + v) for l, v in addr_bits(a))
        n += 1
        for o in ps:
            got = events(ev, o, ("bits",))
            if got != want:
                diffs.append("address %d is coded as %s, expected %s" % (a, got, want))
        if not ps:
            raise NoPath(a)
        if len(diffs) > 4:
            break
    return diffs, n, len(s.outs), s.it.analysed


def words_of(opcs):
    base = sorted({m - m % 8 if m % 32768 < 8 else m for m in MASKS} | {(m >> 15) << 15 for m in MASKS})
    r = []
    for o in opcs:
        for b in base + [b ^ (1 << 15) for b in base] + [b ^ (1 << 19) for b in base] + [3 << 24, 12345 << 15, 4095 << 15]:
            for a in (0, 1, 2, 3, 17, 33, 1025, 32767):
                if 0 <= b < 1 << 27:
                    r.append((o, b + a))
    return r


def emit_check(opcs):
    def run(comp):
        s = summary(comp, "fill_result_list", [sym("opc", 32, 0, 7), sym("w", 32, 0, M27)], cut=4,
                    models={"bit_string_maker": p_event("bits"), "address_coder": p_event("addr")})
        diffs, n = [], 0
        for opc, w in words_of(opcs):
            sit = Situation({"opc": opc, "w": w, "rlsc": 41})
            ev, ps = s.paths(sit)
            n += 1
            want = []
            m = (w >> 15 << 15) + opc
            want = [("addr", w & 32767)]
            if m in MASKS:
                want.append(("bits", MASKS[m][0] * 1024 + MASKS[m][1]))
            else:
                want += [("addr", (w >> 15) + (opc << 12)), ("bits", ESCAPE[0] * 1024 + ESCAPE[1])]
            for o in ps:
                e, evs, g = ending(ev, o), events(ev, o, ("bits", "addr")), outcome(comp, ev, o)[0]
                # only the low 15 bits of an address are coded
                got = [(x[0], x[1] & 32767 if x[0] == "addr" else x[1]) for x in evs]
                if got != want or g != {"rlsc": 42} or e[0] != "ret":
                    diffs.append("class %d instruction %d: coded as %s, counts %s; expected %s" % (opc, w, got, g, want))
            if not ps:
                raise NoPath((opc, w))
        return diffs, n, len(s.outs), s.it.analysed
    return run


def emit_op_check(comp):
    diffs, n, paths, fs = [], 0, 0, set()
    s = summary(comp, "fill_result_list", [sym("opc", 32, 8, 112), sym("w", 32, 0, M27)], cut=4,
                models={"bit_string_maker": p_event("bits"), "address_coder": p_event("addr")})
    for opc in OPCODE:
        for w in (0, 5):
            sit = Situation({"opc": opc, "w": w, "rlsc": 7})
            ev, ps = s.paths(sit)
            n += 1
            want = (("bits", OPCODE[opc][0] * 1024 + OPCODE[opc][1]),)
            for o in ps:
                e, evs, g = ending(ev, o), events(ev, o, ("bits", "addr")), outcome(comp, ev, o)[0]
                if evs != want or g != {"rlsc": 8} or e[0] != "ret":
                    diffs.append("operation %d: coded as %s, counts %s; expected %s" % (opc, evs, g, want))
            if not ps:
                raise NoPath(opc)
    return diffs, n, len(s.outs), s.it.analysed


# ----------------------------------------------------------- the bit stream
def pack_check(counts):
    def run(comp):
        diffs, n, paths, fs = [], 0, 0, set()
        for bc in counts:
            s = summary(comp, "bit_string_maker", [sym("w", 32, 0, 11 * 1024 - 1)], cut=30, values={"bitcount": bc})
            paths += len(s.outs)
            fs |= set(s.it.analysed)
            for ln in range(1, 11):
                for code in sorted({0, 1, (1 << ln) - 1, 1 << (ln - 1), 0x155 & ((1 << ln) - 1)}):
                    for stock in sorted({0, (1 << bc) - 1, 0x2AAAAAA & ((1 << bc) - 1)}):
                        for room in ("free", "move", "full", "just"):
                            L = 5
                            rnsb, rnsd = 2000, 2001 if room != "free" else 2010
                            nlib = 2001 + L - 2 if room != "free" else 2050
                            nlsc = 3 if room != "free" else 5
                            plib = {"full": nlib + nlsc + 8, "just": nlib + nlsc + 9}.get(room, 6000)
                            v = {"w": ln * 1024 + code, "bitcount": bc, "bitstock": stock, "rnsb": rnsb, "rnsd": rnsd, "flib": nlib - 2, "klib": nlib - 1,
                                 "nlib": nlib, "nlsc": nlsc, "plib": plib}
                            sit = Situation(v, {"store": lambda i: 100000 + i})
                            ev, ps = s.paths(sit)
                            n += 1
                            if not ps:
                                raise NoPath(str(v))
                            total, cnt = stock + (code << bc), bc + ln
                            g, st, end = {}, {}, ("ret", None)
                            if cnt > 27:
                                st[rnsb] = total & M27
                                g = {"bitstock": total >> 27, "bitcount": cnt - 27, "rnsb": rnsb + 1}
                                if rnsb + 1 == rnsd:
                                    if nlib + nlsc + 8 >= plib:
                                        end = ("stop",)
                                    else:
                                        for i in range(rnsd, nlib + nlsc):
                                            st[i + 8] = 100000 + i
                                        for k in ("rnsd", "flib", "klib", "nlib"):
                                            g[k] = v[k] + 8
                            else:
                                g = {"bitstock": total, "bitcount": cnt}
                            g = {k: x for k, x in g.items() if x != v[k]}
                            for o in ps:
                                e = ending(ev, o)
                                if failed(e) or end[0] == "stop":
                                    if not (failed(e) and end[0] == "stop"):
                                        diffs.append("%s: ends with %s, expected %s" % (sit, e, end))
                                    continue
                                gg, aa = outcome(comp, ev, o)
                                if gg != g or aa.get("store", {}) != {i: x for i, x in st.items() if x != 100000 + i} or e[0] != "ret":
                                    # what lies between the stream and the moved text is free
                                    rest = {i: x for i, x in aa.get("store", {}).items() if not (end == ("ret", None) and "rnsd" in g and rnsd <= i < rnsd + 8 and i not in st)}
                                    if gg != g or rest != st or e[0] != "ret":
                                        diffs.append("%s: %s %s, expected %s %s" % (sit, gg, aa, g, st))
                            if len(diffs) > 4:
                                return diffs, n, paths, fs
        return diffs, n, paths, fs
    return run


@group("encode")
def _(comp):
    L = [Check("addresses: prefix code", "address_coder", stack_check), Check("operations: prefix code", "fill_result_list", emit_op_check)]
    L += [Check("instructions of class %d: prefix code" % o, "fill_result_list", emit_check([o])) for o in range(4)]
    L += [Check("bit stream with %d..%d bits in stock" % (k, min(27, k + 6)), "bit_string_maker", pack_check(range(k, min(28, k + 7)))) for k in range(0, 28, 7)]
    return L


# -------------------------------------------------------------- the decoder
def msb_bits(pieces):
    r = []
    for l, v in pieces:
        r += [v >> (l - 1 - k) & 1 for k in range(l)]
    return r


def stream_words(bits):
    """words of a bit stream that is read from its last word downwards, the
    highest bit first"""
    r = []
    bits = list(bits)
    while bits:
        w, bits = (bits[:27] + [0] * 27)[:27], bits[27:]
        r.append(int("".join(map(str, w)), 2))
    return r[::-1]


def fields(comp):
    """places of the loader's local variables by name"""
    return local_fields(comp, "LOC_program_loader")


def with_bits(s, comp):
    return s


def note(st, e):
    st.events += (e,)


class Reader:
    """read_bit_string, one summary for every length and filling of the stock"""

    def __init__(self, comp, src):
        self.comp, self.src, self.c = comp, src, {}
        self.models = {"read_byte_from_lib_tape": p_input("heptade", 32, -1, 127, "tape")}

    def get(self, fname, args, bc):
        k = (fname, tuple(args), bc)
        if k not in self.c:
            v = {"bitcount": bc}
            if args:
                v[fields(self.comp)["from_store"]] = self.src
            self.c[k] = summary(self.comp, fname, [const(x, 32) for x in args] + [ptr("V", 0)], cut=64, values=v, models=self.models,
                                kind="heptade", key="tape", maxp=5000)
        return self.c[k]

    def step(self, fname, args, sit):
        return self.get(fname, args, sit.vals.get("bitcount", 0)).step(sit)

    def start(self, fname, sit):
        """preparation: the stock is filled, then bits are skipped up to a 1"""
        k = ("start", fname)
        if k not in self.c:
            m = dict(self.models)
            m["read_bit_string"] = lambda it, I, a, st, fn: note(st, ("one", a[0])) or [Out("ret", sym(("bit", count(st, "one") - 1), 32, 0, 1), st)]
            self.c[k] = summary(self.comp, fname, [ptr("V", 0)], cut=24, models=m, kind="heptade", key="tape", maxp=100000)
        s = self.c[k]
        # skipping: reads single bits as long as they are 0
        for z in range(4):
            q = Situation(dict(sit.vals), dict(sit.arrays), dict(sit.inputs, bit=[0] * z + [1] * 4))
            ev, ps = s.paths(q)
            for o in ps:
                if o.kind == "ret" and events(ev, o, ("one",)) not in ((("one", 1),) * (z + 1), ()):
                    raise Differs("%s skips %s after %d zero bits" % (fname, events(ev, o, ("one",)), z))
        q = Situation(dict(sit.vals), dict(sit.arrays), dict(sit.inputs, bit=[1] * 4))
        e, evs, q = s.step(q, ("one",))
        if failed(e) or not evs:
            return e, evs, q
        for z in range(60):
            e, evs, q = self.step("read_bit_string", (1,), q)
            if failed(e) or e[1] == 1:
                return e, evs, q
        return e, evs, q

    def stats(self):
        return sum(len(s.outs) for s in self.c.values()), set().union(*[set(s.it.analysed) for s in self.c.values()])


def own_stream_check(comp):
    """the program's own stream: written by the code generator, read back from
    its end"""
    F = fields(comp)
    diffs, n = [], 0
    rd = Reader(comp, 0)
    for bc in range(28):
        for pat in PATTERNS[1:8]:
            # emitted in the order of the list, read in the reverse order
            pieces, total, cnt = [], 0, 0
            for l, v in pat * 4:
                if cnt + l > 135 + bc:
                    continue
                total |= v << cnt
                cnt += l
                pieces.append((l, v))
            while cnt < 135 + bc:
                l = min(5, 135 + bc - cnt)
                v = 0x15 & ((1 << l) - 1)
                total |= v << cnt
                cnt += l
                pieces.append((l, v))
            words = [total >> 27 * k & M27 for k in range(5)]
            sit = Situation(dict(leftover(F, n), **{F["read_location"]: 2005, F["from_store"]: 1, "bitstock": total >> 135, "bitcount": bc}), {"store": {2000 + k: w for k, w in enumerate(words)}})
            e, evs, sit = rd.get("prepare_read_bit_string1", (), bc).step(sit)
            for l, v in pieces[::-1]:
                if sit.vals[F["read_location"]] <= 2000 and l + sit.vals["bitcount"] > 0:
                    break
                e, evs, sit = rd.step("read_bit_string", (l,), sit)
                n += 1
                if e != ("ret", v):
                    diffs.append("with %d bits in stock: reading back %d bits gives %s, expected %d" % (bc, l, e, v))
                    break
        if len(diffs) > 4:
            break
    return (diffs, n) + rd.stats()


def heptades(words):
    """tape code of bit-stream words: seven bits at a time, an odd parity
    bit after the last six of every word"""
    r = []
    for w in words:
        r += [(w >> 21 & 63) << 1 | (bin(w).count("1") + 1) % 2, w >> 14 & 127, w >> 7 & 127, w & 127]
    return r


PATTERNS = [[(1, 1)] + [(l, (0x155 if k & 1 else 0x3ff) & ((1 << l) - 1)) for k, l in enumerate(ls)] for ls in
            ([1] * 70, [13, 13, 2, 3, 4, 6, 7, 10, 13, 13, 13], [10] * 12, [7] * 16, [6, 5, 4, 3, 2, 1, 13, 12, 11, 10, 9, 8, 7], [13] * 9, [4, 6, 6, 2, 3, 7] * 4,
             [5, 2, 10, 1, 13, 6, 3, 7, 2, 2, 10, 10, 4])] + \
           [[(1, 1)] + [(l, (k * 2654435761 >> 7) & ((1 << l) - 1)) for k, l in enumerate(ls)] for ls in ([10, 7, 3, 13, 1, 2, 6, 4] * 3, [13, 1] * 8, [9, 11, 5] * 5)]


def leftover(F, n):
    """what the stream read before has left"""
    return {F["heptade_count"]: -(n % 4), F["parity_word"]: (0, 5, 64, 127, 1)[n % 5], F["stock"]: (0, 77, (1 << 27) - 1)[n % 3]}


def store_stream_check(comp):
    F = fields(comp)
    diffs, n, paths, fs = [], 0, 0, set()
    rd = Reader(comp, 0)
    for pat in PATTERNS:
        for lead in (0, 5, 26):
            bits = [0] * lead + msb_bits(pat)
            ws = stream_words(bits)
            top = 1000 + len(ws)
            store = {1000 + i: w for i, w in enumerate(ws)}
            for i in range(8):
                store[999 - i] = 0x5A5A5A5 & M27
            sit = Situation(dict(leftover(F, n), **{F["read_location"]: top, F["from_store"]: 0, "bitstock": 12345, "bitcount": 7}), {"store": store})
            e, evs, sit = rd.start("prepare_read_bit_string2", sit)
            for l, v in pat[1:]:
                e, evs, sit = rd.step("read_bit_string", (l,), sit)
                n += 1
                if e != ("ret", v):
                    diffs.append("reading %d bits of the stream %s from the store gives %s, expected %d" % (l, pat, e, v))
                    break
    return (diffs, n) + rd.stats()


def tape_stream_check(comp):
    F = fields(comp)
    diffs, n, paths, fs = [], 0, 0, set()
    rd = Reader(comp, 1)

    def start(sit):
        return rd.start("prepare_read_bit_string3", sit)
    for pat in PATTERNS:
        for lead, blanks in ((0, 0), (2, 1), (5, 2)):
            good = heptades(stream_words([0] * lead + msb_bits(pat))[::-1])
            for spoil in [None] + [(k, b) for k in range(0, len(good), 5) for b in (1, 64)]:
                t = list(good)
                if spoil:
                    t[spoil[0]] ^= spoil[1]
                sit = Situation(dict(leftover(F, n), **{F["from_store"]: 0, "bitstock": 12345, "bitcount": 7}), {}, {"tape": [0] * blanks + [30] + t + [0] * 8})
                e, evs, sit = start(sit)
                got = []
                if not failed(e):
                    for l, v in pat[1:]:
                        e, evs, sit = rd.step("read_bit_string", (l,), sit)
                        if failed(e):
                            break
                        got.append(e[1])
                n += 1
                want = [v for l, v in pat[1:]]
                if spoil is None:
                    if failed(e) or got != want:
                        diffs.append("reading the tape of the stream %s gives %s %s, expected %s" % (pat, e, got, want))
                elif not failed(e) and spoil[0] // 4 * 4 + 8 <= len(good) - 8:
                    diffs.append("a spoilt bit in heptade %d of the tape of %s is not reported" % (spoil[0], pat))
                if len(diffs) > 3:
                    return (diffs, n) + rd.stats()
    # anything but blank tape and the header
    for h in list(range(1, 128)):
        sit = Situation({"bitcount": 7}, {}, {"tape": [0, h] + heptades([1 << 26, 0, 0, 0])})
        e, evs, _ = start(sit)
        n += 1
        if failed(e) != (h != 30):
            diffs.append("a tape beginning with heptade %d: %s" % (h, e))
    e, evs, _ = start(Situation({"bitcount": 7}, {}, {"tape": [0, -1, -1]}))
    if e[0] != "ret":
        diffs.append("blank tape at the end: %s" % (e,))
    for k in range(1, 5):
        e, evs, _ = start(Situation({"bitcount": 7}, {}, {"tape": ([30] + heptades([1 << 26]))[:k] + [-1] * 6}))
        if not failed(e):
            diffs.append("the tape ends after %d heptades: not reported" % k)
    return (diffs, n) + rd.stats()


def p_read(it, I, args, st, fn):
    """the next bits of the stream; the stock shows what follows"""
    n = args[0]
    k = count(st, "read")
    st.events += (("read", n),)
    bs = it.load(st, ptr("@bitstock", 0), 4, I32)
    st = st.copy()
    it.store(st, ptr("@bitstock", 0), 4, sym(("stock", k + 1), 32, 0, M27))
    return [Out("ret", lshr(bs, add(const(27, 32), neg_t(n))), st)]


def neg_t(t):
    return const(-cval(t), 32) if is_c(t) else scale(t, -1)


def decode_addr_check(comp):
    it = comp.interp()
    it.models["read_bit_string"] = p_event("read", 1, lambda it, st, a: sym(("x", 0), 32))
    outs = it.run(comp.prog.one("address_decoding"), [ptr("V", 0)], State())
    s = Summary(comp, it, outs, "x", None)
    diffs, n = [], 0
    for a in range(32768):
        bits = addr_bits(a)[::-1]
        l = sum(b[0] for b in bits)
        v = int("".join(map(str, msb_bits(bits))), 2) << (27 - l)
        for fill in ((0, -1) if a % 64 == 0 or a in ADDRS else (-1,)) if l < 27 else (0,):
            stock = v | (fill & ((1 << (27 - l)) - 1))
            sit = Situation({"bitstock": stock}, {}, {"x": [0]})
            ev, ps = s.paths(sit)
            n += 1
            if not ps:
                raise NoPath(a)
            for o in ps:
                e, evs = ending(ev, o), events(ev, o, ("read",))
                if e != ("ret", a) or evs != (("read", l),):
                    diffs.append("the code of address %d is read as %s in %s bits, expected %d bits" % (a, e, [x[1] for x in evs], l))
        if len(diffs) > 4:
            break
    return diffs, n, len(outs), it.analysed


def cases_check(comp):
    """operations and instructions: what read_binary_word makes of a code"""
    t = tables(comp)
    F = fields(comp)
    it = comp.interp(arrays={"opc_table": t["opc_table"]}, values={})
    it.models["read_bit_string"] = p_read
    it.models["address_decoding"] = p_input("addr", 32, 0, (1 << 17) - 1, "addr")
    outs = it.run(comp.prog.one("read_binary_word"), [ptr("V", 0)], State())
    s = Summary(comp, it, outs, "addr", "addr")
    diffs, n = [], 0

    def run(stocks, addrs, base, klib=5000, mlist=None):
        nonlocal n
        vals = dict(base)
        vals.update({"bitstock": stocks[0], "flib": 3000, "klib": klib})
        store = {3000 + i: 7000 + i for i in range(40)}
        store.update({800 + i: 9000 + i for i in range(128)})
        sit = Situation(vals, {"store": store, "opc_table": t["opc_table"]}, {"addr": addrs, "stock": [0] + stocks[1:] + [0]})
        ev, ps = s.paths(sit)
        n += 1
        if not ps:
            raise NoPath(str(sit)[:100])
        return [(ending(ev, o), sum(x[1] for x in events(ev, o, ("read",))), sum(1 for x in o.st.events if x[0] == "addr")) for o in ps]
    for op, (l, v) in sorted(OPCODE.items()):
        for fill in (0, (1 << (27 - l)) - 1):
            for e, used, na in run([v << (27 - l) | fill], [], {}):
                if e != ("ret", op) or used != l or na:
                    diffs.append("the code of operation %d is read as %s in %d bits" % (op, e, used))
    for v in range(384, 512):
        if v not in {p for l, p in OPCODE.values() if l == 10}:
            for e, used, na in run([v << 17], [], {}):
                if not failed(e) and not (v == 444 and e == ("ret", 85)):
                    diffs.append("the unassigned code %d is read as %s" % (v, e))
    LA = 6000
    # class 0: as it is; 1: relative to the list; 2: through the future list; 3: constant
    def relocate(opc, m, a, klib):
        w = m + a
        if opc == 0:
            return w
        if opc == 1:
            return w + LA
        if opc == 2:
            w = w - (1 << 17) if w >> 17 & 1 else w + (1 << 19)
            return w - a + 7000 + a
        return w + klib if klib != 623 else w - a + 9000 + a
    todo = [(m & 7, m >> 15 << 15, l, v, None) for m, (l, v) in MASKS.items()]
    for opc in (0, 1, 2, 3):
        for part in (0, 1 << 4, 144, 656, 3 << 9, 17, 2192 + 33, 0x7ff, 0x3ff):
            todo.append((opc, part << 15, 7, 127, part + (opc << 12)))
    for opc, m, l, v, esc in todo:
        for a in (0, 1, 3, 31):
            for klib in (5000, 623):
                head = v << (27 - l)
                # the leading 1 of the code is read first
                rest = (head << 1) & M27
                for fill in (0, -1):
                    f = fill & ((1 << (27 - l)) - 1)
                    f2 = fill & ((1 << (28 - l)) - 1)
                    for e, used, na in run([head | f, rest | f2], ([esc] if esc is not None else []) + [a], {F["list_address"]: LA}, klib):
                        want = relocate(opc, m, a, klib)
                        if e != ("ret", want) or used != l or na != 1 + (esc is not None):
                            diffs.append("class %d instruction %d address %d: read as %s in %d bits and %d addresses, expected %d in %d bits" %
                                         (opc, m, a, e, used, na, want, l))
                        if len(diffs) > 5:
                            return diffs, n, len(outs), it.analysed
    return diffs, n, len(outs), it.analysed


@group("decode")
def _(comp):
    return [Check("the program's own bit stream", "prepare_read_bit_string1", own_stream_check), Check("bit stream read from the store", "read_bit_string", store_stream_check),
            Check("bit stream read from tape", "read_bit_string", tape_stream_check),
            Check("addresses: decoding", "address_decoding", decode_addr_check),
            Check("operations and instructions: decoding and relocation", "read_binary_word", cases_check)]
