"""Common parts of the rule modules."""
from ir import AnalysisError, load_sim, load_compiler, load_library_tools


class Anchor(AnalysisError):
    """a construct the rule is anchored at no longer exists"""


class Ob:
    """one proof obligation"""
    __slots__ = ("what", "where", "status", "detail", "key", "rule")

    def __init__(self, what, where, status, detail="", key=None):
        self.what, self.where, self.status, self.detail = what, where, status, detail
        self.key = (key or "%s|%s" % (where, what)).replace(" ", "_")
        self.rule = None


def ok(what, where):
    return Ob(what, where, "ok")


def bad(what, where, detail, key=None):
    return Ob(what, where, "violation", detail, key)


def undecided(what, where, detail):
    return Ob(what, where, "undecided", str(detail))


def verdict(good, what, where, detail="", key=None):
    return ok(what, where) if good else bad(what, where, detail, key)


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.functions = set()
        self.paths = 0
        self.sites = 0
        self.assume = []
        self._c = {}
        self.rule = ""

    def get(self, name, make):
        if name not in self._c:
            self._c[name] = make()
        return self._c[name]

    @property
    def sim(self):
        from sim import Sim
        return self.get("sim", Sim)

    @property
    def simprog(self):
        return self.sim.prog

    @property
    def comp(self):
        return self.get("comp", load_compiler)

    @property
    def tools(self):
        return self.get("tools", load_library_tools)

    def count(self, it, outs):
        self.functions |= set(getattr(it, "analysed", ()))
        self.paths += len(outs)

    def where(self, prog, short):
        f = prog.one(short)
        return "%s (%s)" % (f.short, fnloc(f))


def fnloc(f):
    l = getattr(f, "loc", None)
    return "%s:%s" % (l[0].replace("/repo/", ""), l[1]) if l else "?"
