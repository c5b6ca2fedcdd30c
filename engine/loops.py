"""Loop treatment: constant trip counts are peeled, loops with one continuing
path are summarised by scalar evolution (all changes per iteration are linear,
appended to a vector, or repeated events; the trip count is read off the exit
condition), step functions are cut at the back edge (inductive argument).
Everything else falls back to interval widening in absint."""
from terms import *
from absint import Interp, Out, State, Agg
from models import SimInterp, Vec, iscell
from subst import Subst, mentions
from ir import AnalysisError

ITER = sym("iter", 32, 0, (1 << 31) - 2)


class NotCounted(Exception):
    pass


def _delta(new, old):
    """constant difference of two integer terms, or None"""
    if isinstance(new, T) and isinstance(old, T) and isinstance(new.w, int) and new.w == old.w:
        d = sub(new, old)
        if is_c(d):
            return sval(d)
    return None


def run_loop(self, fn, hdr, prev, env, st, active, body):
    if fn.short in self.step_fns:
        return self.step_loop(fn, hdr, prev, env, st, active)
    sub_active = frozenset(active | {hdr.name})
    acc = []
    phis = self.phi_vals(hdr, prev, env)
    if self.cut:
        return cut_loop(self, fn, hdr, prev, env, st, sub_active, phis)
    for k in range(self.unroll_cap + 1):
        e = dict(env)
        e.update(phis)
        outs = self.exec_body(fn, hdr, prev, dict(e), st.copy(), sub_active)
        mine = [o for o in outs if o.kind == "back" and o.val[0] == hdr.name]
        rest = [o for o in outs if not (o.kind == "back" and o.val[0] == hdr.name)]
        if not mine:
            return acc + rest
        hard = [o for o in rest if not aborts(fn, o)]
        if self.debug_loops: print(fn.short,hdr.name,k,len(mine),[(o.kind,str(o.val)[:80]) for o in rest])
        if len(mine) > 1 and not hard and k < self.unroll_cap:
            r = multi_peel(self, fn, hdr, mine, sub_active)
            if r is not None:
                return acc + rest + r
        if hard and k < self.unroll_cap and bounded_search(self, fn, hdr, mine):
            r = multi_peel(self, fn, hdr, mine, sub_active, True)
            if r is not None:
                return acc + rest + r
        if len(mine) != 1 or hard or k == self.unroll_cap:
            break
        if k == 0 and not const_exit(self, hdr, mine[0].val[1]):
            try:
                return acc + self.counted_loop(fn, hdr, prev, dict(env), st, sub_active, phis, outs)
            except NotCounted as x:
                pass
        acc += rest
        st = mine[0].st
        env = mine[0].val[1]
        phis = mine[0].loc
        prev = "$again"
    else:
        mine = []
    env2 = dict(env)
    try:
        return acc + self.counted_loop(fn, hdr, prev, env2, st, sub_active, phis, outs)
    except NotCounted as x:
        self.notcounted[(fn.short, hdr.name)] = str(x)
    fb = self.loop_fallback
    if fb is not None:
        r = fb(self, fn, hdr, prev, env2, st, active, body, phis)
        if r is not None:
            return acc + r
    self.given_phis = phis
    return acc + self.widen_loop(fn, hdr, prev, env2, st, active, body)


def cut_loop(self, fn, hdr, prev, env, st, active, phis):
    """follow every path for at most self.cut iterations; longer ones are
    dropped (bounded analysis; self.dropped counts them)"""
    acc = []
    level = [(prev, env, phis, st)]
    for k in range(self.cut):
        nxt = []
        for prev, env, phis, st in level:
            e = dict(env)
            e.update(phis)
            for o in self.exec_body(fn, hdr, prev, e, st.copy(), active):
                if o.kind == "back" and o.val[0] == hdr.name:
                    nxt.append(("$again", o.val[1], o.loc, o.st))
                else:
                    acc.append(o)
        level = merged(nxt) if len(nxt) > 1 else nxt
        if not level:
            break
    self.dropped += len(level)
    return acc


def merged(level):
    """join states at the loop header that differ only in which way one
    predicate was decided; what is defined in the body is dead there, apart
    from the header's own values"""
    changed = True
    while changed:
        changed = False
        out = []
        for it in level:
            for i, x in enumerate(out):
                st = join(x, it)
                if st is not None:
                    out[i] = x[:3] + (st,)
                    changed = True
                    break
            else:
                out.append(it)
        level = out
    return level


def join(x, y):
    if x[2] != y[2]:
        return None
    a, b = x[3], y[3]
    d = [p for p in set(a.preds) | set(b.preds) if a.preds.get(p) is not b.preds.get(p)]
    if len(d) != 1 or d[0] not in a.preds or d[0] not in b.preds:
        return None
    for f in ("mem", "events", "vecs", "ver", "tags", "fresh"):
        if getattr(a, f) != getattr(b, f):
            return None
    st = a.copy()
    del st.preds[d[0]]
    for t in list(st.facts):
        if t not in b.facts:
            del st.facts[t]
        elif st.facts[t] != b.facts[t]:
            st.facts[t] = hull(st.facts[t], b.facts[t])
    return st


def aborts(fn, o):
    """the outcome ends in an error (directly, or it leaves the loop to blocks
    from which the function cannot return)"""
    if o.kind == "throw":
        return True
    return o.kind == "leave" and o.val[0] not in returning(fn)


def returning(fn):
    r = getattr(fn, "_returning", None)
    if r is None:
        pred = {}
        r = set()
        work = []
        for b in fn.blocks.values():
            for s in b.succ:
                pred.setdefault(s, []).append(b.name)
            if b.ins and b.ins[-1].op == "ret":
                work.append(b.name)
        while work:
            b = work.pop()
            if b in r:
                continue
            r.add(b)
            work += pred.get(b, [])
        fn._returning = r
    return r


def const_exit(self, hdr, env):
    """the exit test of the loop compares two constants"""
    t = hdr.ins[-1]
    if t.op != "br" or not t.ops:
        return True
    c = t.ops[0]
    for I in hdr.ins:
        if I.op == "icmp" and getattr(c, "v", None) == I.res:
            try:
                return all(is_c(self.val(o, env)) for o in I.ops)
            except Exception:
                return True
    return True


def bounded_search(self, fn, hdr, mine):
    """a counter with a constant value is compared with a small constant"""
    cnt = set()
    for I in hdr.ins:
        if I.op == "phi":
            v = mine[0].loc.get(I.res)
            if isinstance(v, T) and is_c(v) and len(mine) and all(m.loc.get(I.res) is v for m in mine):
                cnt.add(I.res)
    if not cnt:
        return False
    der = set(cnt)
    for b in fn.blocks.values():
        for I in b.ins:
            names = [o.v for o in I.ops if getattr(o, "k", None) == "reg"]
            if I.op in ("add", "zext", "sext", "trunc") and any(n in der for n in names):
                der.add(I.res)
            if I.op == "icmp" and any(n in der for n in names):
                if any(getattr(o, "k", None) == "int" and 0 < o.v <= 64 for o in I.ops):
                    return True
    return False


def multi_peel(self, fn, hdr, mine, active, early=False):
    """continue peeling a loop whose exit test is decided in every iteration
    along several paths; None when the test becomes undecided"""
    acc = []
    work = list(mine)
    seen = 0
    while work:
        m = work.pop()
        seen += 1
        if seen > self.multi_cap:
            return None
        e = dict(m.val[1])
        e.update(m.loc)
        outs = self.exec_body(fn, hdr, "$again", e, m.st.copy(), active)
        nxt = [o for o in outs if o.kind == "back" and o.val[0] == hdr.name]
        rest = [o for o in outs if not (o.kind == "back" and o.val[0] == hdr.name)]
        if not early and nxt and any(not aborts(fn, o) for o in rest):
            return None
        acc += rest
        work += nxt
    return acc


def step_loop(self, fn, hdr, prev, env, st, active):
    phis = self.phi_vals(hdr, prev, env)
    e = dict(env)
    e.update(phis)
    outs = self.exec_body(fn, hdr, prev, e, st.copy(), frozenset(active | {hdr.name}))
    res = []
    for o in outs:
        if o.kind == "back" and o.val[0] == hdr.name:
            args = []
            for nm, ty in fn.params:
                a = env[nm]
                ph = [r for r in phis if phis[r] is a]
                if len(ph) > 1:
                    ph = [r for r in ph if o.loc[r] is not a] or ph[:1]
                args.append(o.loc[ph[0]] if ph else a)
            used = set()
            for r in phis:
                if not any(phis[r] is env[nm] for nm, ty in fn.params) and o.loc[r] is not phis[r]:
                    raise AnalysisError("loop of %s carries a value that is not a parameter" % fn.short)
            res.append(Out("again", args, o.st))
        else:
            res.append(o)
    return res


def counted_loop(self, fn, hdr, prev, env, st, active, phis, first):
    backs = [o for o in first if o.kind == "back" and o.val[0] == hdr.name]
    if len(backs) != 1:
        raise NotCounted("%d continuing paths" % len(backs))
    self.counter += 1
    kap = sym("k#%d:%s" % (self.counter, fn.short), 32, 0, (1 << 31) - 2)
    b = backs[0]
    lin, opq = {}, set()
    for r in phis:
        o, n = phis[r], b.loc[r]
        if n == o:
            continue
        d = _delta(n, o)
        if d is None:
            opq.add(r)
        else:
            lin[r] = d
    mlin, mopq = {}, {}

    def initial(obj, off, y):
        s0 = st.copy()
        return self.initial_of(s0, obj, off, y)

    def diff_mem(s0, s1):
        for obj in set(s0.mem) | set(s1.mem):
            ma, mb = s0.mem.get(obj, {}), s1.mem.get(obj, {})
            if ma == mb or obj not in s0.mem and obj in s1.fresh:
                continue
            if s0.ver.get(obj) != s1.ver.get(obj) or s0.ver.get((obj, "v")) != s1.ver.get((obj, "v")):
                raise NotCounted("object %s is modified as a whole" % (obj,))
            for off in set(ma) | set(mb):
                x, y = ma.get(off), mb.get(off)
                if x == y or y is None:
                    continue
                iv = x[1] if x is not None and x[0] == y[0] else initial(obj, off, y)
                if iv == y[1]:
                    continue
                yield obj, off, y[0], iv, y[1]
    for obj, off, size, x, y in diff_mem(st, b.st):
        d = _delta(y, x)
        if d is None:
            mopq[(obj, off)] = (size, y)
        else:
            mlin[(obj, off)] = (size, x, d)
    vd = {}
    for k in set(b.st.vecs):
        v0, v1 = st.vecs.get(k), b.st.vecs[k]
        if v0 is None:
            if v1.log or not is_c(v1.size):
                # first touched inside the loop
                if isinstance(k, tuple) and isinstance(k[0], str) and k[0] in b.st.fresh and k[0] not in st.fresh:
                    continue
                base0 = Vec(("init", k), const(0, 64)) if k[0] in ("map", "arr") else None
                if base0 is None:
                    continue
                v0 = base0
                st.vecs[k] = v0
            else:
                continue
        if v0 == v1:
            continue
        d = _delta(v1.size, v0.size)
        if v1.base != v0.base or d is None or d <= 0 or v1.log[:len(v0.log)] != v0.log and not set(v0.log) <= set(v1.log):
            raise NotCounted("vector %s is not only appended to" % (k,))
        vd[k] = d
    vals, evs, mems = {k: None for k in vd}, None, None
    for rnd in range(4):
        s = st.copy()
        e = dict(env)
        for r in phis:
            if r in lin:
                e[r] = add(phis[r], self._kap(kap, phis[r].w), lin[r])
            elif r in opq:
                p = phis[r]
                if not isinstance(p, T):
                    raise NotCounted("aggregate loop value")
                e[r] = sym("%s.%s" % (kap.a[0], r), p.w) if p.w != "ptr" else ptr(("loopptr", kap.a[0], r), 0)
            else:
                e[r] = phis[r]
        for (obj, off), (size, x, d) in mlin.items():
            s.mem.setdefault(obj, {})[off] = (size, add(x, self._kap(kap, x.w), d))
        for (obj, off), (size, y) in mopq.items():
            if not isinstance(y, T):
                raise NotCounted("aggregate in memory")
            v = sym("%s.%s+%s" % (kap.a[0], obj, off), y.w) if y.w != "ptr" else ptr(("loopptr", kap.a[0], obj, off), 0)
            s.mem.setdefault(obj, {})[off] = (size, v)
        for k, d in vd.items():
            v0 = st.vecs[k]
            s.vecs[k] = Vec(("fill", v0.base, v0.log, v0.size, vals[k], zext(kap, 64)), add(v0.size, zext(kap, 64), d), ())
        if evs:
            s.events = st.events + (("repeat", kap, evs),)
        if mems:
            s.tags["mem"] = st.tags.get("mem", ()) + (("repeat", kap, mems),)
        ev0, mem0 = s.events, s.tags.get("mem", ())
        start_vecs = dict(s.vecs)
        start = s.copy()
        outs = self.exec_body(fn, hdr, prev, dict(e), s, active)
        mine = [o for o in outs if o.kind == "back" and o.val[0] == hdr.name]
        if len(mine) != 1:
            raise NotCounted("%d continuing paths in the general iteration" % len(mine))
        m = mine[0]
        for r in phis:
            if r in lin:
                if m.loc[r] is not add(e[r], const(lin[r], e[r].w)):
                    raise NotCounted("%s is not linear" % r)
            elif r not in opq and m.loc[r] != phis[r]:
                opq.add(r)
                break
        to = Subst({kap: ITER})
        for obj, off, size, x, y in diff_mem(start, m.st):
            if (obj, off) in mlin:
                if y is not add(x, const(mlin[(obj, off)][2], x.w)):
                    raise NotCounted("%s+%s is not linear" % (obj, off))
            elif (obj, off) not in mopq:
                mopq[(obj, off)] = (size, y)
        stable = True
        for k in vd:
            v0, v1 = start_vecs[k], m.st.vecs[k]
            if v1.base != v0.base or _delta(v1.size, v0.size) != vd[k]:
                raise NotCounted("vector %s is not only appended to" % (k,))
            ent = {}
            for i, off, size, x in v1.log:
                j = _delta(i, v0.size)
                if j is None or not 0 <= j < vd[k]:
                    raise NotCounted("element write elsewhere in vector")
                ent.setdefault(j, []).append((off, size, to(x)))
            nv = tuple(tuple(sorted(ent.get(j, ()), key=lambda z: z[0])) for j in range(vd[k]))
            if nv != vals[k]:
                vals[k] = nv
                stable = False
        for k in m.st.vecs:
            if k not in vd and m.st.vecs[k] != start_vecs.get(k) and start_vecs.get(k) is not None:
                raise NotCounted("vector %s changes in a later iteration" % (k,))
        if m.st.events[:len(ev0)] != ev0:
            if evs is None and m.st.events[:len(st.events) - 1] == st.events[:-1]:
                raise NotCounted("merged output")
            raise NotCounted("events rewritten")
        ne = to(m.st.events[len(ev0):])
        if (ne or None) != evs:
            evs = ne or None
            stable = False
        nm = to(m.st.tags.get("mem", ())[len(mem0):])
        if (nm or None) != mems:
            mems = nm or None
            stable = False
        if stable:
            break
    else:
        raise NotCounted("iteration effects do not settle")
    opaque = [e[r] for r in opq if isinstance(e[r], T)]
    for x in opaque:
        if mentions((tuple(vals.values()), evs or (), mems or ()), x):
            raise NotCounted("effects depend on a value carried between iterations")
    res = []
    for o in outs:
        if o is m:
            continue
        if o.kind == "throw":
            o.st.tags["inloop"] = True
            res.append(o)
            continue
        res += self.close_loop(o, kap, start)
    return res


def _kap(self, kap, w):
    return kap if w == 32 else zext(kap, w) if w > 32 else trunc(kap, w, {})


def close_loop(self, o, kap, start):
    """replace the iteration count by the trip count implied by the exit condition"""
    cand = []
    for p, v in o.st.preds.items():
        if start.preds.get(p) is not None or p.op != "icmp" or not mentions(p, kap):
            continue
        q, x, y = p.a
        if not v:
            q = {"ult": "uge", "uge": "ult", "slt": "sge", "sge": "slt", "eq": "ne", "ne": "eq",
                 "ule": "ugt", "ugt": "ule", "sle": "sgt", "sgt": "sle"}[q]
        # exit condition  x q y ; continuing condition is its negation
        kz = Subst({kap: const(0, 32)})
        d = sub(x, y)
        d0 = kz(d)
        dd = sub(d, d0)
        step = None
        for s in (1, -1):
            if dd is scale(kap if dd.w == 32 else zext(kap, dd.w), s % (1 << dd.w)):
                step = s
        if step is None:
            continue
        # first iteration at which  x q y  holds
        up = step == 1
        if q in ("uge", "sge") and up:
            T0 = sub(const(0, d.w), d0)
        elif q in ("ugt", "sgt") and up:
            T0 = addc(sub(const(0, d.w), d0), 1)
        elif q in ("ule", "sle") and not up:
            T0 = d0
        elif q in ("ult", "slt") and not up:
            T0 = addc(d0, 1)
        elif q == "eq":
            T0 = d0 if step == -1 else sub(const(0, d.w), d0)
        else:
            continue
        t32 = T0 if T0.w == 32 else trunc(T0, 32, {})
        cand.append((p, v, kz(p) if q != "eq" else None, t32))
    if not cand:
        return [o]
    p, v, p0, t32 = cand[0]
    res = []
    s0 = o.st.copy()
    if p0 is None:
        r = self.subst_out(o, {kap: t32}, p)
        return [r] if r else []
    # zero iterations
    z = self.subst_out(Out(o.kind, o.val, s0, o.loc), {kap: const(0, 32)}, None)
    if z is not None:
        res.append(z)
    # at least one
    s1 = o.st.copy()
    c0 = p0
    r = self.subst_out(Out(o.kind, o.val, s1, o.loc), {kap: t32}, p, extra=(c0, not v))
    if r is not None:
        res.append(r)
    return res


def subst_out(self, o, m, drop, extra=None):
    S = Subst(m)
    st = o.st
    n = State()
    n.facts, n.preds = {}, {}
    kap = next(iter(m))
    for t, f in st.facts.items():
        if t is kap:
            t2 = S(t)
        else:
            t2 = S(t) if mentions(t, kap) else t
        if is_c(t2):
            from terms import meet
            if meet(rng(t2), f) is None:
                return None
            continue
        if t2 is not t and t is not kap:
            continue
        if t is kap:
            continue
        n.facts[t2] = f
    if extra is not None:
        if not self.assume(n, extra[0], extra[1]):
            return None
    for t, f in st.preds.items():
        if t is drop:
            continue
        t2 = S(t)
        if is_c(t2):
            if bool(cval(t2)) != f:
                return None
            continue
        if t2 is not t:
            if t2.op == "not":
                t2, f = t2.a[0], not f
            if not self.assume(n, t2, f):
                return None
        else:
            n.preds[t2] = f
    n.mem = {(S(k) if not isinstance(k, str) else k): {off: (sz, S(x)) for off, (sz, x) in d.items()} for k, d in st.mem.items()}
    n.events = norm_repeat(S(st.events))
    n.vecs = {k: norm_fill(S(v)) for k, v in st.vecs.items()}
    n.ver = dict(st.ver)
    n.tags = {k: (S(x) if isinstance(x, (tuple, T)) else x) for k, x in st.tags.items()}
    if "mem" in n.tags:
        n.tags["mem"] = norm_repeat(n.tags["mem"])
    n.fresh = set(st.fresh)
    val = o.val
    if isinstance(val, tuple) and len(val) == 2 and isinstance(val[1], dict):
        val = (val[0], {k: S(x) for k, x in val[1].items()})
    else:
        val = S(val)
    loc = o.loc
    if isinstance(loc, dict):
        loc = {k: S(x) for k, x in loc.items()}
    return Out(o.kind, val, n, loc)


def norm_repeat(evs):
    r = []
    for e in evs:
        if e and e[0] == "repeat" and is_c(e[1]):
            for i in range(cval(e[1])):
                r += Subst({ITER: const(i, 32)})(e[2])
            continue
        r.append(e)
    return tuple(r)


def norm_fill(v, F=None):
    """a fill repeated a constant number of times becomes explicit writes"""
    b = v.base
    if isinstance(b, tuple) and b and b[0] == "fill" and is_c(b[5]):
        size0, vals, n = b[3], b[4], cval(b[5])
        log = list(b[2])
        i = size0
        for k in range(n):
            S = Subst({ITER: const(k, 32)}, F)
            for ent in vals:
                for off, sz, x in ent:
                    log.append((i, off, sz, S(x)))
                i = addc(i, 1)
        return Vec(b[1], v.size, tuple(log) + v.log)
    if isinstance(b, tuple) and b and b[0] == "fill":
        # writes of one period directly before the fill belong to it
        _, base, log, start, vals, n = b
        p = len(vals)
        log = list(log)
        dep = mentions(vals, ITER)
        while True:
            rest = list(log)
            v0 = first = vals
            if dep:
                v0 = Subst({ITER: addc(ITER, -1)}, F)(vals)
                first = Subst({ITER: const(0, 32)}, F)(v0)
            for j, ent in enumerate(first):
                i = addc(start, j - p)
                for off, sz, x in ent:
                    w = [e for e in rest if e[0] is i and e[1] == off]
                    if len(w) == 1 and w[0][2] == sz and w[0][3] is x:
                        rest.remove(w[0])
                    else:
                        rest = None
                        break
                if rest is None:
                    break
            if rest is None:
                break
            log = rest
            vals = v0
            start = addc(start, -p)
            n = addc(n, 1)
        if start is not b[3]:
            return Vec(("fill", base, tuple(log), start, vals, n), v.size, v.log)
    return v


Interp.widen_loop = Interp.run_loop
Interp.run_loop = run_loop
for f in (step_loop, counted_loop, close_loop, subst_out, _kap):
    setattr(Interp, f.__name__, f)
Interp.step_fns = frozenset()
Interp.debug_loops = False
Interp.unroll_cap = 70
Interp.multi_cap = 400
Interp.loop_fallback = None
Interp.given_phis = None
