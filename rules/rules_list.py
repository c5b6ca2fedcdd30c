"""The lists of the compiler: found again unchanged, never run into one another."""
from rules_comp import *
from rules_names import reader

TLIB, MCPB, PLIE, TOP = 800, 928, 6783, 12288
SLACK = 40            # an overflow may be reported this much before it happens


def sit_of(vals, store, inputs=None):
    return Situation(vals, {"store": store}, inputs or {})


def word(r, i):
    return r.arrays["store"].get(i, 0) if isinstance(r.arrays.get("store"), dict) else r.array("store", i)


def seg(r, base, n):
    return [word(r, base + k) for k in range(n)]


def tlist_check(comp):
    s = summary(comp, "fill_t_list", [sym("n", 32)])
    u = summary(comp, "unload_t_list_element", [ptr("@eflag", 0)])
    diffs, n = [], 0
    for at in range(TLIB, MCPB + 3):
        for v in (0, 161, 104, 3163, -1, 12287):
            st = {TLIB + k: 5000 + k for k in range(max(0, at - TLIB))}
            st.update({MCPB + k: 70 + k for k in range(8)})
            e, evs, r = s.step(sit_of({"tlsc": at, "n": v}, st))
            n += 1
            if at >= MCPB:
                if not failed(e):
                    diffs.append("the list with %d entries takes one more and overwrites what follows it" % (at - TLIB))
                continue
            if failed(e):
                if at < MCPB - SLACK:
                    diffs.append("an entry is refused at %d of %d places" % (at - TLIB, MCPB - TLIB))
                continue
            if r.vals["tlsc"] != at + 1 or word(r, at) != v or seg(r, TLIB, at - TLIB) != [5000 + k for k in range(at - TLIB)] or seg(r, MCPB, 8) != [70 + k for k in range(8)]:
                diffs.append("entry %d at place %d: found %s, fill %d" % (v, at - TLIB, word(r, at), r.vals["tlsc"] - TLIB))
                continue
            e2, _, r2 = u.step(r)
            if e2[0] != "ret" or r2.vals["tlsc"] != at or r2.vals.get("eflag", 0) != v:
                diffs.append("entry %d is taken back as %s" % (v, r2.vals.get("eflag", 0)))
        if len(diffs) > 4:
            break
    return diffs, n, len(s.outs) + len(u.outs), set(s.it.analysed) | set(u.it.analysed)


def layouts():
    """future list, constants, names with some distances between them"""
    for fgap in (0, 1, 5, 15, 16):
        for nf in (0, 1, 5):
            for nk in (0, 1, 2, 3):
                for kgap in (0, 1, 16):
                    for nn in (0, 3):
                        yield 3000, nf, 3000 + nf + fgap, nk, 3000 + nf + fgap + nk + kgap, nn


def lists(lay, free):
    flib, nf, klib, nk, nlib, nn = lay
    st = {flib + k: 100 + k for k in range(nf)}
    st.update({klib + k: 200 + k for k in range(nk)})
    st.update({nlib + k: 300 + k for k in range(nn)})
    plib = nlib + nn + free
    st.update({plib + k: 400 + k for k in range(4)})
    v = {"flib": flib, "flsc": nf, "klib": klib, "klsc": nk, "nlib": nlib, "nlsc": nn, "plib": plib, "rnsb": 2000, "rnsd": 2100}
    return v, st


def damage(r, lay, free, grown=None):
    """what is wrong with the lists after the call; grown: list with new entries"""
    flib, nf, klib, nk, nlib, nn = lay
    x = r.vals
    for name, base, n, first in (("future list", "flib", nf, 100), ("constants", "klib", nk, 200), ("names", "nlib", nn, 300)):
        got = seg(r, x[base], n)
        if got != [first + k for k in range(n)]:
            return "the list of %s now holds %s" % (name, got)
    if seg(r, x["plib"], 4) != [400, 401, 402, 403] or x["plib"] != nlib + nn + free:
        return "the names found in the first scan are overwritten"
    if not (x["flib"] + x["flsc"] <= x["klib"] and x["klib"] + x["klsc"] <= x["nlib"] and x["nlib"] + x["nlsc"] <= x["plib"]):
        return "the lists overlap: %s" % {k: x[k] for k in ("flib", "flsc", "klib", "klsc", "nlib", "nlsc", "plib")}
    return None


def future_check(comp):
    diffs, n, np, fs = [], 0, 0, set()
    for lay in layouts():
        flib, nf, klib, nk, nlib, nn = lay
        if klib - flib - nf not in (0, 1, 16):
            continue
        for k in (0, nf - 1, nf, nf + 1, nf + 20):
            if k < 0:
                continue
            for free in (0, 1, 15, 16, 17, 40, 80):
                v, st = lists(lay, free)
                s = summary(comp, "fill_future_list", [const(flib + k, 32), sym("value", 32)], cut=80, values=v)
                np, fs = np + len(s.outs), fs | set(s.it.analysed)
                v.update({"value": 777})
                e, evs, r = s.step(sit_of(v, st))
                n += 1
                need = max(0, flib + k + 1 - klib)
                if failed(e):
                    if free > need + SLACK:
                        diffs.append("entry %d of the future list is refused with %d free places" % (k, free))
                    continue
                if nf > k:
                    st[flib + k] = 777
                x = dict(r.vals)
                if word(r, flib + k) != 777 or x["flib"] != flib:
                    diffs.append("entry %d of the future list: found %s" % (k, word(r, flib + k)))
                    continue
                if k < nf:
                    r.arrays["store"] = overlay(r.arrays["store"], {flib + k: 100 + k})
                d = damage(r, lay, free)
                if d is None and flib + k >= x["klib"]:
                    d = "it lies within the constants"
                if d:
                    diffs.append("entry %d of the future list of %d, %d constants, %d names, %d free: %s" % (k, nf, nk, nn, free, d))
        if len(diffs) > 4:
            break
    return diffs, n, np, fs


def constants_check(comp):
    s = summary(comp, "fill_constant_list", [sym("n", 32)], cut=8)
    diffs, n = [], 0
    for lay in layouts():
        flib, nf, klib, nk, nlib, nn = lay
        for v0 in (0, 1, 5, 67108863, -1, -5, -1000):
            for free in (0, 1, 15, 16, 17, 40, 80):
                v, st = lists(lay, free)
                v["n"] = v0
                e, evs, r = s.step(sit_of(v, st))
                n += 1
                if failed(e):
                    if free > SLACK:
                        diffs.append("a constant is refused with %d free places" % free)
                    continue
                want = v0 if v0 >= 0 else (1 << 27) - 1 + v0
                d = None
                if r.vals["klsc"] != nk + 1 or word(r, r.vals["klib"] + nk) != want:
                    d = "found %s at the end of %d" % (word(r, r.vals["klib"] + nk), r.vals["klsc"])
                d = d or damage(r, lay, free)
                if d:
                    diffs.append("constant %d added to %d constants, %d names, %d free: %s" % (v0, nk, nn, free, d))
        if len(diffs) > 4:
            break
    return diffs, n, len(s.outs), s.it.analysed


def names_check(comp):
    s = summary(comp, "fill_name_list", cut=4)
    diffs, n = [], 0
    for lay in layouts():
        flib, nf, klib, nk, nlib, nn = lay
        if nf > 1:
            continue
        for long_, inw in ((0, 8 * 5), (0, 8 * 77), (1, 8 * 5 + 3), (1, 8 * 999 + 7)):
            for free in (0, 1, 2, 3, 4, 60, 80):
                v, st = lists(lay, free)
                v.update({"dflag": long_, "inw": inw, "fnw": 4321, "id": 999})
                e, evs, r = s.step(sit_of(v, st))
                n += 1
                if failed(e):
                    if free > SLACK:
                        diffs.append("a name is refused with %d free places" % free)
                    continue
                want = ([4321] if long_ else []) + [inw, 999]
                d = None
                if r.vals["nlsc"] != nn + len(want) or seg(r, nlib + nn, len(want)) != want:
                    d = "found %s" % seg(r, nlib + nn, len(want))
                d = d or damage(r, lay, free)
                if d:
                    diffs.append("a %s name added to names of length %d with %d free: %s" % ("long" if long_ else "short", nn, free, d))
    return diffs, n, len(s.outs), s.it.analysed


# ------------------------------------------------------ names of the first scan
SHORT, LONG = [8 * 41], [8 * 77 + 3, 4711]


def prescan_image(sections):
    """store words of a list of sections of names, the last word at PLIE"""
    size = sum(len(x) for s in sections for x in s) + len(sections)
    at = PLIE - size
    base = at
    st = {}
    heads = []
    for s in sections:
        heads.append(at)
        at += 1
        for x in s:
            for w in x:
                st[at] = w
                at += 1
    for h, nx in zip(heads, heads[1:] + [at]):
        st[h] = nx
    st[PLIE] = PLIE - 1
    return base, st


def read_sections(r, base):
    res, at = [], base
    for k in range(60):
        if at >= PLIE:
            return res
        nx = word(r, at)
        if not at < nx <= PLIE:
            raise Differs("the chain of blocks is broken at %d: %d" % (at, nx))
        i, s = at + 1, []
        while i < nx:
            w = word(r, i)
            if w & 7:
                s.append([w, word(r, i + 1)])
                i += 2
            else:
                s.append([w])
                i += 1
        res.append(s)
        at = nx
    raise Differs("the chain of blocks does not end")


def section_sets():
    S, L = SHORT, LONG
    base = [[], []]
    yield base
    yield [[S], []]
    yield [[], [L]]
    yield [[S, L], [S]]
    for k in range(2, 8):
        yield [[S] * k, [], [S], []]
        yield [[L] * k, [], [], [L]]
    yield [[L] * 2, [S] * 9, [], [L]]
    for a in ([], [S], [L, S]):
        for b in ([], [S]):
            for c in ([], [L]):
                yield [a, b, c, []]
                yield [b, [], a, c]
                yield [[], c, [], [], a, b]


def special(comp, f, args, v, st, tally):
    """summary for one shape of the lists"""
    s = summary(comp, f, args, cut=200, values=v, arrays={"store": lambda i, st=st: st.get(i, 0)})
    tally[0] += len(s.outs)
    tally[1] |= set(s.it.analysed)
    return Ends(s, f)


class Ends:
    """lists of this size are run through in far less than the bound"""

    def __init__(self, s, f):
        self.s, self.f = s, f

    def step(self, sit):
        try:
            return self.s.step(sit)
        except NoPath:
            if not self.s.it.dropped:
                raise
        raise Differs("%s does not end for %s" % (self.f, str(sit)[:200]))


def prescan_list_check(comp):
    def make(f, args, v, st):
        return special(comp, f, args, {k: x for k, x in v.items() if k not in ("inw", "fnw")}, st, tally)
    diffs, n, tally, F = [], 0, [0, set()], local_fields(comp, "LOC_prescan")
    for secs in section_sets():
        base, st = prescan_image(secs)
        for bc in range(len(secs) // 2):
            for kind in (0, 1):
                for name in ([8 * 99], [8 * 100 + 1, 1234]):
                    v = {"plib": base, "dflag": len(name) - 1, "inw": name[0], "fnw": name[-1], "n": kind, F["bc"]: bc, F["mbc"]: len(secs) // 2 - 1}
                    e, evs, r = make("fill_prescan_list", [const(kind, 32), ptr("V", 0)], v, st).step(sit_of(v, st))
                    n += 1
                    want = [list(x) for x in secs]
                    want[2 * bc + kind].append(name)
                    got = read_sections(r, r.vals["plib"]) if e[0] == "ret" else e
                    if [sorted(x) if isinstance(x, list) else x for x in got] != [sorted(x) for x in want]:
                        diffs.append("a name added to section %d of %s: %s" % (2 * bc + kind, secs, got))
        v = {"plib": base, "dflag": 0, "inw": 0, "fnw": 0, F["bc"]: len(secs) // 2, F["mbc"]: len(secs) // 2}
        e, evs, r = make("augment_prescan_list", [ptr("V", 0)], v, st).step(sit_of(v, st))
        n += 1
        got = read_sections(r, r.vals["plib"]) if e[0] == "ret" else e
        if got != list(secs) + [[], []]:
            diffs.append("a block added to %s: %s" % (secs, got))
        if len(diffs) > 4:
            break
    return diffs, n, tally[0], tally[1]


def block_names_check(comp):
    diffs, n, tally = [], 0, [0, set()]
    for secs in section_sets():
        for nn in (0, 3):
            for gap in (0, 1, 3, 100):
                for bn in (0, 3):
                    base, st = prescan_image(secs)
                    need = sum(len(x) + 1 for q in secs[:2] for x in q)
                    nlib = base - nn - gap
                    st.update({nlib + k: 300 + k for k in range(nn)})
                    v = {"plib": base, "nlib": nlib, "nlsc": nn, "bn": bn, "lvc": 9, "dflag": bn & 1}
                    e, evs, r = special(comp, "intro_new_block2", [], v, st, tally).step(sit_of(v, st))
                    n += 1
                    if failed(e):
                        if gap > need + SLACK:
                            diffs.append("the names of a block are refused with %d free places" % gap)
                        continue
                    want = [300 + k for k in range(nn)]
                    for q, (cls, sec) in enumerate(zip((1 << 17, 1 << 18), secs[:2])):
                        for x in sec:
                            want += x[1:] + [x[0], (bn << 19) + cls + (1 << 15)]
                    d = None
                    if seg(r, nlib, r.vals["nlsc"]) != want or r.vals["nlsc"] != len(want):
                        d = "the names become %s" % seg(r, nlib, r.vals["nlsc"])
                    elif nlib + r.vals["nlsc"] > r.vals["plib"]:
                        d = "they run into the names of the following blocks"
                    elif read_sections(r, r.vals["plib"]) != secs[2:]:
                        d = "the following blocks are now %s" % read_sections(r, r.vals["plib"])
                    elif r.vals["lvc"] != 0:
                        d = "the count of local variables starts at %d" % r.vals["lvc"]
                    if d:
                        diffs.append("block entry with names %s, %d free: %s" % (secs, gap, d))
        if len(diffs) > 4:
            break
    return diffs, n, tally[0], tally[1]


# ------------------------------------------------------------ stored symbols
PS, MS, VIRGINAL = 0, 1, 2


def states(comp):
    """numbers of the states of the reader as the debug information names them"""
    return {"ps": PS, "ms": MS, "virginal": VIRGINAL}


def text_check(comp):
    s = summary(comp, "read_next_symbol", cut=4, models={"next_ALGOL_symbol": p_input("asym", 32, 0, 127, "asym")}, kind="asym", key="asym")
    diffs, n = [], 0
    import itertools
    texts = [[0], [127], [0] * 9, [127] * 9, list(range(0, 128)), [91, 0, 105, 0, 127, 1, 64, 63]] + [[91] * k + [105] for k in range(8)] + \
            [list(t) for t in itertools.product((0, 1, 127), repeat=3)]
    start = 0
    for t in texts:
        sit = sit_of({"rns_state": VIRGINAL, "scan": 1, "plib": 6000, "qc": 3, "nas_stock": -5, "dl": -1}, {}, {"asym": t})
        for k, c in enumerate(t):
            e, evs, sit = s.step(sit)
            n += 1
            if e[0] != "ret" or sit.vals["dl"] != c:
                diffs.append("symbol %d (%d) of the text is taken for %s" % (k, c, sit.vals["dl"] if e[0] == "ret" else e))
                break
            if k == 0 and (sit.vals["qc"], sit.vals["nas_stock"]) != (0, 1):
                diffs.append("the first symbol is read with state %s" % {k: sit.vals[k] for k in ("qc", "nas_stock")})
        else:
            back = Situation(dict(sit.vals, scan=-1, rns_state=VIRGINAL), sit.arrays, {"asym": []})
            for k, c in enumerate(t):
                e, evs, back = s.step(back)
                n += 1
                if e[0] != "ret" or back.vals["dl"] != c:
                    diffs.append("symbol %d of %s is read again as %s" % (k, t[:12], back.vals["dl"] if e[0] == "ret" else e))
                    break
                if e[0] == "ret" and back.vals["rnsd"] > sit.vals["rnsb"] + 1:
                    diffs.append("the second scan runs beyond the stored text")
                    break
        if len(diffs) > 4:
            break
    # the end of the room
    for room in range(0, 30):
        t = [5, 6, 7, 8] * 40
        first = None
        sit = sit_of({"rns_state": VIRGINAL, "scan": 1, "plib": 6000}, {}, {"asym": t})
        e, evs, sit = s.step(sit)
        sit.vals["plib"] = sit.vals["rnsb"] + room + 1
        for k in range(150):
            e, evs, sit2 = s.step(sit)
            n += 1
            if e[0] != "ret":
                break
            sit = sit2
            if sit.vals["rnsb"] >= sit.vals["plib"]:
                diffs.append("the text is stored over the list of names")
                break
        else:
            diffs.append("an endless text is stored in %d words" % room)
        if failed(e) and sit.vals["plib"] - sit.vals["rnsb"] > SLACK:
            diffs.append("the text is refused with room left")
        if len(diffs) > 4:
            break
    return diffs, n, len(s.outs), s.it.analysed


def access_check(comp):
    diffs, n, fs, np = [], 0, set(), 0
    for f, args in (("_Rstore", [sym("idx", 32), sym("line", 32), ptr("text", 0)]), ("_Wstore", [sym("idx", 32), sym("val", 32), sym("line", 32), ptr("text", 0)])):
        s = summary(comp, f, args)
        fs |= set(s.it.analysed)
        np += len(s.outs)
        for i in (-(1 << 31), -4096, -1, 0, 1, 623, 928, 12286, 12287, 12288, 12289, 16384, (1 << 31) - 1):
            e, evs, r = s.step(sit_of({"idx": i, "val": 4242, "line": 3}, {i: 777, i + 1: 778, i - 1: 776}))
            n += 1
            good = 0 <= i < TOP
            if not good:
                if not failed(e):
                    diffs.append("an access to word %d outside the store is not reported" % i)
            elif f == "_Rstore" and e != ("ret", 777):
                diffs.append("word %d is read as %s" % (i, e))
            elif f == "_Wstore" and (e[0] != "ret" or seg(r, i - 1, 3) != [776, 4242, 778]):
                diffs.append("word %d is written wrongly: %s %s" % (i, e, seg(r, i - 1, 3)))
    return diffs, n, np, fs


def addresses_check(comp):
    s = summary(comp, "advance_pnlv", [sym("n", 32)])
    diffs, n = [], 0
    top = (1 << 15) + 32
    for bn in (0, 1, 31):
        for start in (160 + bn, 5 * 32 + 64 + bn, 992 + bn, 1024 + bn, 30000 // 32 * 32 + bn, top - 32 - 32 + bn, top - 32 - 64 + bn, top - 32 + bn):
            for k in (32, 64, 256):
                e, evs, r = s.step(sit_of({"pnlv": start, "n": k, "bn": bn}, {}))
                n += 1
                if start + k - 32 >= (1 << 15):
                    if not failed(e):
                        diffs.append("dynamic address %d is given out" % (start + k))
                elif start + k < (1 << 15) and (failed(e) or r.vals["pnlv"] != start + k):
                    diffs.append("after dynamic address %d comes %s" % (start, r.vals["pnlv"] if not failed(e) else e))
    return diffs, n, len(s.outs), s.it.analysed


# ----------------------------------------------- loading a list of instructions
def loaded_check(comp):
    """the words of a list are stored at its place; the future list gives way"""
    s = summary(comp, "read_list", [ptr("V", 0)], cut=8, models={"read_binary_word": p_input("bw", 32, 0, (1 << 27) - 1, "bw"), "test_bit_stock": p_event("end", 0)},
                kind="bw", key="bw", maxp=400000)
    diffs, n, F = [], 0, local_fields(comp, "LOC_program_loader")
    for ll in (0, 1, 2, 4):
        for nf in (0, 1, 3):
            for top in range(-2, 8):
                for gap in (-1, 0, 1, 2, 5):
                    flib = 3000
                    la = flib + nf + top - ll
                    v = {"flib": flib, "flsc": nf, F["ll"]: ll, F["list_address"]: la, F["read_location"]: flib - gap, "bitstock": 0}
                    st = {flib + k: 100 + k for k in range(nf)}
                    if la < flib - gap or nf and top < 1:      # the first place is behind the future list
                        continue
                    words = [7000 + k for k in range(ll)]
                    e, evs, r = s.step(sit_of(v, st, {"bw": words}), ("end",))
                    n += 1
                    x = r.vals
                    if failed(e):
                        if la > flib + nf + SLACK:
                            diffs.append("a list that has room is refused")
                        continue
                    d = None
                    if seg(r, la, ll) != words[::-1]:
                        d = "stored as %s" % seg(r, la, ll)
                    elif ll and seg(r, x["flib"], nf) != [100 + k for k in range(nf)]:
                        d = "the future list becomes %s" % seg(r, x["flib"], nf)
                    elif ll and x["flib"] + nf > la:
                        d = "it overlaps the future list"
                    elif x["flib"] < x[F["read_location"]] and x["flib"] != flib:
                        d = "the code still to be read is overwritten"
                    elif [y[0] for y in evs].count("end") != 1:
                        d = "its end mark is not tested"
                    if d:
                        diffs.append("%d words loaded to %d, future list of %d at %d, code up to %d: %s" % (ll, la, nf, flib, flib - gap, d))
        if len(diffs) > 4:
            break
    return diffs, n, len(s.outs), s.it.analysed


@group("lists")
def _(comp):
    return [Check("the translation list", "fill_t_list", tlist_check), Check("the future list", "fill_future_list", future_check),
            Check("the list of constants: further words", "fill_constant_list", constants_check), Check("the list of names", "fill_name_list", names_check),
            Check("the names of the first scan", "fill_prescan_list", prescan_list_check), Check("the names of a block", "intro_new_block2", block_names_check),
            Check("the stored text", "read_next_symbol", text_check), Check("accesses to the store", "_Rstore", access_check),
            Check("dynamic addresses", "advance_pnlv", addresses_check), Check("loaded lists", "read_list", loaded_check)]
