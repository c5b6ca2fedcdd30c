"""Rules over the compiler: the transformer of a routine, computed from the
source as a path summary, gives in every enumerated situation what the
reference function gives."""
import sys
from multiprocessing import get_context
from core import *
import rules_ops
from comp import *
from comp import NoPath, Summary
from absint import Budget

GROUPS = {}
_COMP = None


def group(name):
    def f(fn):
        GROUPS.setdefault(name, []).append(fn)
        return fn
    return f


class Differs(Exception):
    """a deviation found while a situation is set up"""


class Check:
    """one obligation: runner(comp) -> (differences, situations, paths)"""

    def __init__(self, name, where, run):
        self.name, self.where, self.run = name, where, run


def members(comp, g):
    r = []
    for f in GROUPS[g]:
        r += f(comp)
    return r


VARIABLES = """P_argc P_argv aflag aic alnum_table arra arrb arrc arrd ascii_table bflag binary_lib_tape bitcount bitstock bn dflag dl eflag fflag flib
flsc fnw fora forc gvc ibd ic id iflag ii inba input_eof_seen input_line input_line_len input_pos inw jflag kflag klib klsc lib_tape lvc
mcp_names mcpe mflag nas_stock nflag nid nlib nlsc oflag oh opc_table pass_formals pflag plib pnlv pos_ prefill_cnt psta pstb qa qb qc rht
rlaa rlab rlib rlsc rns_state rnsa rnsb rnsc rnsd scan sflag source_tape spe store tfpflag tlsc verbose_tape vflag vht vlam word_del_table""".split()

ROUTINES = """address_coder address_decoding address_to_register advance_pnlv augment_prescan_list bit_string_maker block_introduction complete_bitstock
do_in_t_list empty_t_list_through_thenelse fill_constant_list fill_future_list fill_name_list fill_output fill_prescan_list fill_result_list
fill_t_list fill_t_list_with_delimiter generate_address intro_new_block intro_new_block1 intro_new_block2 label_declaration
look_for_constant look_for_name main_scan new_block_by_declaration new_block_by_declaration1 next_ALGOL_symbol offer_character_to_typewriter
peek_next_byte prefill_lib_proc prefill_op_proc prepare_read_bit_string1 prepare_read_bit_string2 prepare_read_bit_string3 prescan
procedure_statement production_of_object_program production_transmark program_loader put_crf_entry put_crf_item read_binary_word
read_bit_string read_byte_from_lib_tape read_crf_item read_list read_mask read_next_byte read_next_symbol read_until_next_delimiter
read_utf8_symbol reservation_of_arrays reservation_of_local_variables stop test1 test2 test3 test_bit_stock test_first_occurrence thenelse
unload_t_list_element word1 word2""".split()


def renamed(comp):
    """variables and routines of the compiler that have other names in this text: their values and calls are not recognised"""
    there = {f.short for f in comp.prog.fns.values() if f.blocks}
    lost = [n for n in ROUTINES if n not in there]
    if lost:
        return lost
    g = set(comp.prog.globals).union(*(m.globals for m in comp.prog.mods))
    gone = [n for n in VARIABLES if n not in g]
    new = [n for n in g if n not in VARIABLES and n not in ("optind", "optarg", "opterr", "optopt", "stdin", "stdout", "stderr") and "." not in n and not n.startswith("_")]
    return gone if gone and new else []


def comp_task(t):
    g, i = t
    c = members(_COMP, g)[i]
    r = {"name": c.name, "paths": 0, "sits": 0, "diffs": [], "err": None, "funcs": [], "where": c.where}
    try:
        rules_ops.clock()
        fn = _COMP.prog.one(c.where)
        r["where"] = "%s (%s)" % (c.where, fnloc(fn))
        d, n, p, fs = c.run(_COMP)
        r["diffs"], r["sits"], r["paths"], r["funcs"] = d[:5], n, p, sorted(fs)
    except Differs as e:
        r["diffs"] = [str(e)[:400]]
    except (AnalysisError, NoValue, NoPath) as e:
        r["err"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    except RecursionError:
        r["err"] = "analysis too deep"
    except Exception as e:
        r["err"] = "outside the analysed fragment: %s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        rules_ops.stopped()
    if r["diffs"] and renamed(_COMP):
        r["err"] = "anchor vanished: " + ", ".join(renamed(_COMP)[:5])
    return r


def comp_of(ctx):
    return ctx.get("compiler", Comp)


def results(ctx, *groups):
    global _COMP
    _COMP = comp_of(ctx)
    done = ctx.get("compres", dict)
    todo = []
    for g in groups:
        if g not in done:
            done[g] = []
            todo += [(g, i) for i in range(len(members(_COMP, g)))]
    if todo:
        if rules_ops.JOBS <= 1 or len(todo) == 1:
            rs = [comp_task(t) for t in todo]
        else:
            with get_context("fork").Pool(rules_ops.JOBS) as p:
                rs = p.map(comp_task, todo, chunksize=1)
        for (g, i), r in zip(todo, rs):
            done[g].append(r)
            ctx.functions |= set(r["funcs"])
            ctx.paths += r["paths"]
            ctx.sites += r["sits"]
    return [r for g in groups for r in done[g]]


def comp_rule(title, *groups):
    def rule(ctx):
        res = []
        for r in results(ctx, *groups):
            if r["err"]:
                res.append(undecided(r["name"], r["where"], r["err"]))
            elif r["diffs"]:
                res.append(bad(r["name"], r["where"], r["diffs"][0]))
            else:
                res.append(ok("%s: %d paths, %d situations" % (r["name"], r["paths"], r["sits"]), r["where"]))
        return res
    rule.__doc__ = title
    rule.__name__ = "comp_" + "_".join(groups)
    return rule


def summary(comp, fname, args=(), cut=3, values=None, models=None, key="in", kind=None, maxp=200000, arrays=None):
    it = comp.interp(values=values, arrays=arrays, max_paths=maxp)
    it.cut = cut
    it.models.update(models or {})
    outs = it.run(comp.prog.one(fname), list(args), State())
    return Summary(comp, it, outs, key, kind)


def failed(e):
    return e[0] == "stop" or e == ("exit", "failure")


# ------------------------------------------------------- source characters
DIG = {str(i): i for i in range(10)}
LOW = {chr(97 + i): 10 + i for i in range(26)}
UPP = {chr(65 + i): 37 + i for i in range(26)}
CODE = dict(DIG)
CODE.update(LOW)
CODE.update(UPP)
CODE.update({"+": 64, "-": 65, "*": 66, "/": 67, ">": 70, "=": 72, "<": 74, ",": 87, ".": 88, "@": 89, ";": 91, "(": 98, ")": 99,
             "[": 100, "]": 101, "`": 102, "'": 103, "\t": 118, "\n": 119, '"': 121, "?": 122, " ": 123, ":": 124, "|": 162, "_": 163})
WIDE = {"¬": 76, "×": 66, "÷": 68, "↑": 69, "∧": 77, "∨": 78, "≠": 75, "≡": 80, "≤": 73, "≥": 71, "⊃": 79, "⏨": 89}
WIDEB = {k.encode(): v for k, v in WIDE.items()}
NEWLINE, SPACE, UNDER = 119, 123, 163


class Bad(Exception):
    pass


def ref_symbols(lines):
    """symbol numbers of a source text; None at the end: a failure"""
    r = []
    for l in lines:
        r.append(NEWLINE)
        l = l.split(b"\n")[0]
        i = 0
        while i < len(l):
            c = l[i]
            if c < 128:
                i += 1
                v = CODE.get(chr(c))
                if v is None:
                    continue
                if l[i:i + 2] == b"\xcc\xb2":
                    r += [UNDER, v]
                    i += 2
                else:
                    r.append(v)
                continue
            for n in (2, 3):
                v = WIDEB.get(l[i:i + n])
                if v is not None:
                    r.append(v)
                    i += n
                    break
            else:
                return r + [None]
    return r + [SPACE, None]


def read_all(s, sit, limit):
    """symbols delivered by repeated execution; None: failure"""
    r = []
    for k in range(limit):
        e, evs, sit = s.step(sit)
        if e[0] == "ret":
            r.append(e[1])
        elif failed(e):
            return r + [None]
        else:
            return r + [e]
    return r


def char_sits(part):
    L = []
    if part == 0:
        for c in range(1, 128):
            if c == 10:
                continue
            b = bytes([c])
            L += [[b"a" + b + b"1\n"], [b + b + b"x"], [b + b"1 ;\n", b + b"2\n"], [b + b"\xcc\xb2;\n"], [b + b"\xcc\xb2" + b + b"\xcc\xb2 \n"], [b + b"\xcc"], [b]]
    elif part == 1:
        for a in range(128, 256):
            for c in [0x20, 0x5f, 0x61] + list(range(128, 192)):
                L.append([b"b" + bytes([a, c]) + b"1\n"])
            L += [[bytes([a])], [b"x" + bytes([a]) + b"\n", b"y\n"]]
    elif part == 2:
        for a in range(128, 192):
            for c in [0x5f] + list(range(128, 192)):
                L.append([bytes([0xe2, a, c]) + b"0\n"])
            L += [[bytes([0xe2, a])], [b"\xe2" + bytes([a]) + b"\n"]]
    else:
        for w in WIDE:
            b = w.encode()
            L += [[b"a" + b + b"1\n"], [b + b], [b + b"\xcc\xb2\n"], [b"_" + b + b"_\n", b + b"\n"]]
            for k in range(1, len(b)):
                L += [[b"1" + b[:k]], [b[:k] + b"a"], [b[:k] + b"\n", b"=\n"], [b[:k] + b]]
        for t in ([], [b""], [b"\n"], [b"\n", b"\n", b"ab\n"], [b"a\n", b"b"], [b"a\r\n", b"b\r\n"], [b"abcdefgh\n", b"xy\n", b"12345678\n"],
                  [b"x\n", b"", b"y"], [b"\x01\x02", b"#\n", b"end\n"], [b"a b\tc\n"], [b"a\xcc\xb2b\xcc\xb2c\n", b"d\xcc\xb2"],
                  [b"aaaa\n", b"b\n", b"cc\n"]):
            L.append(t)
    return L


def char_check(part, what):
    def run(comp):
        t = tables(comp)
        s = summary(comp, "read_utf8_symbol", cut=3)
        diffs, n = [], 0
        for stale in ((b"\x84",) if part < 2 else (b"\xa4", b"\x88\xa7", b"b")):
            for lines in char_sits(part):
                want = ref_symbols(lines)
                sit = Situation({"input_pos": 0, "input_eof_seen": 0}, {"line": lambda i: 0, "ascii_table": t["ascii_table"]},
                                {"lines": list(lines), }, stale=stale)
                got = read_all(s, sit, len(want) + 3)
                n += 1
                if got != want:
                    diffs.append("for the source %r: symbols %s, expected %s" % (b"".join(lines), got, want))
        return diffs, n, len(s.outs), s.it.analysed
    return Check("source text %s: symbols" % what, "read_utf8_symbol", run)



@group("characters")
def _(comp):
    return [char_check(0, "of ASCII characters"), char_check(1, "with two-byte characters"), char_check(2, "with three-byte characters"),
            char_check(3, "of several lines")]


# ------------------------------------------------------- end of the source
def eof_check(comp):
    it = comp.interp()
    del it.models["P_eof"]
    it.cut = 4
    outs = it.run(comp.prog.one("P_eof"), [ptr("stream", 0)], State())
    s = Summary(comp, it, outs, "getc", "getc")
    diffs, n = [], 0
    for f in (0, 1, 4, -1):
        for tty in (0, 1):
            for c in [-1, 0, 10, 97, 255]:
                sit = Situation({}, {}, {"getc": [c], "feof": [f], "isatty": [tty]})
                ev, ps = s.paths(sit)
                n += 1
                for o in ps:
                    e = ending(ev, o)
                    # a terminal is not read ahead; anything else is looked at and the character put back
                    want = 1 if f else 0 if tty else int(c == -1)
                    evs = [x for x in o.st.events if x[0] in ("getc", "ungetc")]
                    looked = any(x[0] == "getc" for x in evs)
                    back = [x for x in evs if x[0] == "ungetc"]
                    if e[0] != "ret" or bool(e[1]) != bool(want):
                        diffs.append("feof %s, terminal %s, next character %s: answer %s, expected %s" % (f, tty, c, e, want))
                    elif looked and c != -1 and (len(back) != 1 or ev(back[0][1]) & 255 != c):
                        diffs.append("next character %s: looked at and not put back" % c)
                    elif looked and tty and not f:
                        diffs.append("a terminal is read ahead")
    return diffs, n, len(outs), it.analysed


@group("characters")
def _(comp):
    return [Check("end of the source: recognised without losing a character", "P_eof", eof_check)]


# ------------------------------------------------------------------ symbols
WORDS = {"goto": 81, "if": 82, "then": 83, "else": 84, "for": 85, "do": 86, "step": 94, "until": 95, "while": 96, "begin": 104, "end": 105,
         "own": 106, "Boolean": 107, "integer": 108, "real": 109, "array": 110, "switch": 111, "procedure": 112, "string": 113, "label": 114,
         "value": 115, "true": 116, "false": 117}
RAW = sorted(set(CODE.values()) | set(WIDE.values()))
FIRST = {CODE[w[0]] for w in WORDS} | {CODE["c"]}
TWOPART = {162: {77: 69, 72: 75, 74: 102, 70: 103}}
UNDERLINED = {70: 71, 72: 80, 74: 73, 76: 79, 124: 68}
WORDOF = {tuple(CODE[c] for c in w): v for w, v in WORDS.items()}
COMMENTW = tuple(CODE[c] for c in "comment")


class Open(Exception):
    """not settled by the reference"""


def ref_tokens(s, qc):
    """delimiters and symbols; None: failure"""
    r, i = [], 0
    while i < len(s):
        c = s[i]
        i += 1
        if c <= 103 or c in (121, 122):
            r.append(c)
        elif c in (118, 119, 123):
            if qc:
                r.append(93 if c == 123 else c)
        elif c == 124:
            if i >= len(s):
                return r
            if s[i] == 72:
                r.append(92)
                i += 1
            else:
                r.append(90)
        elif c == 162:
            while i < len(s) and s[i] == 162:
                i += 1
            if i >= len(s):
                return r
            v = TWOPART[162].get(s[i])
            i += 1
            if v is None:
                return r + [None]
            r.append(v)
        elif c == 163:
            while i < len(s) and s[i] == 163:
                i += 1
            if i >= len(s):
                return r
            c = s[i]
            i += 1
            if not (10 <= c <= 35 or 37 <= c <= 62):
                v = UNDERLINED.get(c)
                if v is None:
                    return r + [None]
                r.append(v)
                continue
            if c not in FIRST:
                return r + [None]
            w = [c]
            while i < len(s) and s[i] == 163:
                while i < len(s) and s[i] == 163:
                    i += 1
                if i < len(s):
                    w.append(s[i])
                    i += 1
            if i >= len(s):
                return r
            w = tuple(w)
            if w == COMMENTW:
                if qc:
                    r.append(97)
                else:
                    while i < len(s) and s[i] != 91:
                        i += 1
                    i += 1
            elif w in WORDOF:
                r.append(WORDOF[w])
            elif any(w == k[:len(w)] for k in WORDOF) and partial(w):
                return r + [None]
            else:
                raise Open
        else:
            return r + [None]
    return r


def partial(w):
    """beginnings of words that do not yet determine the word"""
    return sum(1 for k in WORDOF if k[:len(w)] == w) > 1


def feed(prefix, lo=0, hi=163, tail=None):
    def f(it, I, args, st, fn):
        n = count(st, "sym")
        st.events += (("sym",),)
        if n < len(prefix):
            return [Out("ret", const(prefix[n], 32), st)]
        if tail is not None:
            return [Out("ret", const(tail, 32), st)]
        return [Out("ret", sym(("in", n), 32, lo, hi), st)]
    return f


def under(word, more=()):
    r = []
    for k, c in enumerate(word):
        r += [163] * (2 if k in more else 1) + [CODE[c]]
    return r


def token_run(s, prefix, rest, qc, tables_, stock=None):
    """tokens of prefix+rest as delivered step by step; the prefix is constant
    in the summary of the first step only"""
    first, general = s
    text = list(prefix) + list(rest)
    sit = Situation({"nas_stock": 1, "qc": qc}, {"word_del_table": tables_["word_del_table"]}, {"in": text})
    r = []
    want = ref_tokens(text, qc)
    for k in range(len(want)):
        x = first if k == 0 else general
        try:
            if x is None:
                raise NoPath("")
            e, evs, sit = x.step(sit)
        except NoPath:
            # longer than the bound of the general summary: one for this text
            x = exact(sit, tables_)
            e, evs, sit = x.step(sit)
        if e[0] == "ret":
            r.append(e[1])
        else:
            r.append(None if failed(e) else e)
            break
    return r, want


def exact(sit, t):
    text = sit.inputs["in"]
    return summary(_COMP, "next_ALGOL_symbol", cut=len(text) + 3, models={"read_utf8_symbol": feed(text, tail=91)}, kind="sym",
                   values={"nas_stock": sit.vals["nas_stock"], "qc": sit.vals["qc"]}, arrays={"word_del_table": t["word_del_table"]}, maxp=3000)


GEN = {}


def general(comp):
    """a summary for any symbols; None: too many paths, each text by itself"""
    if "sym" not in GEN:
        try:
            GEN["sym"] = summary(comp, "next_ALGOL_symbol", cut=2, models={"read_utf8_symbol": feed(())}, kind="sym", maxp=20000)
        except Budget:
            GEN["sym"] = None
    return GEN["sym"]


def show(v):
    inv = {x: k for k, x in list(CODE.items()) + list(WIDE.items())}
    return "".join(inv.get(x, "<%s>" % x) for x in v)


def token_compare(comp, cases):
    """cases: (first summary, prefix, list of continuations)"""
    t, g = tables(comp), general(comp)
    diffs, n, paths = [], 0, len(g.outs) if g else 0
    funcs = set(g.it.analysed) if g else {"next_ALGOL_symbol"}
    for first, prefix, rests in cases:
        f = first or g
        paths += len(f.outs) if f is not g else 0
        for rest, qc in rests:
            try:
                got, want = token_run((f, g), prefix, rest, qc, t)
            except Open:
                continue
            n += 1
            if got != want:
                diffs.append("source symbols %s%s: delivered %s, expected %s" % (show(list(prefix) + list(rest)), " within a string" if qc else "", got, want))
                if len(diffs) > 5:
                    return diffs, n, paths, funcs
    return diffs, n, paths, funcs


def single_check(comp):
    rests = []
    for qc in (0, 1):
        for a in RAW:
            for b in [10, 72, 91]:
                rests.append(([a, b, 91], qc))
        for b in RAW:
            rests += [([124, b, 91, 91], qc), ([123, b, 91, 91], qc), ([119, b, 91, 91], qc), ([64, b, 91, 91], qc), ([124, 124, b, 91, 91], qc)]
    return token_compare(comp, [(None, (), rests)])


def compound_check(comp):
    rests = []
    for qc in (0, 1):
        for p in ([162], [162, 162], [163], [163, 163]):
            for b in RAW:
                rests += [(p + [b, 91, 91], qc), ([124] + p + [b, 91, 91], qc)]
                if b in (93, 118, 119, 123, 124):
                    rests += [(p + [b, c, 91, 91], qc) for c in (70, 72, 74, 76, 77, 124, 10)]
    return token_compare(comp, [(None, (), rests)])


def partial_check(comp):
    rests = []
    for qc in (0, 1):
        for a in "st":
            for b in RAW:
                if b != 163:
                    rests.append(([163, CODE[a], b, 91, 91], qc))
        for b in RAW:
            if b != 163:
                rests.append(([163, CODE["s"], 163, CODE["t"], b, 91, 91], qc))
    return token_compare(comp, [(None, (), rests)])


def word_check(words):
    def run(comp):
        cases = []
        for w in words:
            for more in ((), (0,), (1,), (len(w) - 1,)):
                pre = under(w, more)
                f = summary(comp, "next_ALGOL_symbol", cut=16, models={"read_utf8_symbol": feed(pre, 0, 162)}, kind="sym", values={"nas_stock": 1},
                            arrays={"word_del_table": tables(comp)["word_del_table"]})
                rests = [([b, 91, 91], qc) for b in RAW if b != 163 for qc in (0, 1)] if not more else [([b, 91, 91], 0) for b in (0, 10, 91, 119, 123)]
                cases.append((f, pre, rests))
        return token_compare(comp, cases)
    return run


def comment_cases(comp):
    cases = []
    for text in ([], [10], [119, 119], list(range(0, 36)), [c for c in RAW if c != 91], [163, 14, 163, 23, 163, 13], [102, 10, 103], [162, 74, 10, 162, 70],
                 [163, 11, 163, 14, 123], [104, 105]):
        pre = under("comment") + [c for c in text if c != 91] + [91]
        f = summary(comp, "next_ALGOL_symbol", cut=len(pre) + 3, models={"read_utf8_symbol": feed(pre + [10, 91], tail=91)}, kind="sym", values={"nas_stock": 1, "qc": 0})
        cases.append((f, pre, [([10, 91], 0)]))
    pre = under("comment")
    f = summary(comp, "next_ALGOL_symbol", cut=16, models={"read_utf8_symbol": feed(pre + [91, 10], tail=91)}, kind="sym", values={"nas_stock": 1, "qc": 1})
    cases.append((f, pre, [([91, 10], 1)]))
    return token_compare(comp, cases)


@group("delimiters")
def _(comp):
    N = "next_ALGOL_symbol"
    L = [Check("single symbols and spaces", N, single_check), Check("compound symbols", N, compound_check),
         Check("partly underlined words are errors", N, partial_check), Check("comments", N, comment_cases)]
    ws = sorted(WORDS)
    return L + [Check("underlined words " + " ".join(ws[k:k + 4]), N, word_check(ws[k:k + 4])) for k in range(0, len(ws), 4)]
