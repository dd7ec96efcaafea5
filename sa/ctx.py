"""Obligations of a rule run: what was decided, for which construct, and how."""

from collections import Counter

from .project import AnalysisBroken, ClassInfo, FuncInfo

FIXTURE = "skada._zz_fixture"
RANK = {"ok": 0, "undecided": 1, "bad": 2}


class Ctx:
    def __init__(self, project, pid, tier="quick", fixture=False):
        self.p, self.pid, self.tier, self.fixture = project, pid, tier, fixture
        self.obl = {}
        self.functions = set()
        self.notes = Counter()

    # -- scope
    def inscope(self, x):
        m = getattr(x, "module", None)
        name = m.name if m is not None else getattr(x, "name", "")
        return (name == FIXTURE) == self.fixture

    def classes(self):
        return [c for c in self.p.classes() if self.inscope(c)]

    def scoped(self, xs):
        return [x for x in xs if self.inscope(x)]

    # -- obligations
    def _put(self, status, rule, construct, site, msg):
        k = (rule, str(construct))
        old = self.obl.get(k)
        if old is None or RANK[status] > RANK[old["status"]]:
            self.obl[k] = {"status": status, "rule": rule, "construct": str(construct), "site": str(site) if site is not None else "", "message": msg}

    def ok(self, rule, construct, site=None, msg=""):
        self._put("ok", rule, construct, site, msg)

    def bad(self, rule, construct, site=None, msg=""):
        self._put("bad", rule, construct, site, msg)

    def und(self, rule, construct, site=None, msg=""):
        self._put("undecided", rule, construct, site, msg)

    def check(self, cond, rule, construct, site=None, msg=""):
        (self.ok if cond else self.bad)(rule, construct, site, msg)

    def analysed(self, engine):
        self.functions |= engine.inlined

    def need(self, n, minimum, what):
        """Anchor count: an analysis that finds nothing to look at is broken."""
        if not self.fixture and n < minimum:
            raise AnalysisBroken(f"{what}: {n} found, at least {minimum} expected")

    def by(self, status):
        return [o for o in self.obl.values() if o["status"] == status]


def cname(x):
    if isinstance(x, (ClassInfo, FuncInfo)):
        return x.full
    return str(x)
