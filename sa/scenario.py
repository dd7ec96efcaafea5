"""Symbolic call sequences on classes/functions and the row facet over them."""

from .facets import RV, Rows, arr
from .project import ClassInfo
from .vf import Engine, Node, State, callee_name

SRC_NAMES = {"X_source", "Xs", "y_source", "ys", "X_s", "y_s", "source", "source_weights", "features_s", "y_pred_s", "X_val_source"}
TGT_NAMES = {"X_target", "Xt", "y_target", "yt", "X_t", "y_t", "features_t", "y_pred_t"}


class Run:
    def __init__(self, project, **kw):
        self.p = project
        self.e = Engine(project, **kw)
        self.seeds = {}
        self._rows = None
        self.results = {}
        self.st = State()
        self.self_node = None
        self.args = {}

    @property
    def rows(self):
        if self._rows is None:
            self._rows = Rows(self.e, self.seeds)
        return self._rows

    def data(self, fi, base, skip_self=True, none=(), given=(), roles=True):
        """Symbolic arguments of an entry function for one sample set `base`."""
        out = {}
        names = fi.all_params
        allr = ("all", base)
        for nme in names:
            if nme in none:
                out[nme] = self.e.const(None)
                continue
            rv = None
            if nme in ("X", "y", "sample_weight", "features", "X_", "data", "weights", "sample_idx", "target_labels") or nme in ("y_true", "y_pred"):
                rv = arr(allr)
            elif nme in ("sample_domain", "sample_domains", "domain"):
                rv = RV("dom", allr, None, None)
            elif roles and nme in SRC_NAMES:
                rv = arr(("sel", allr, "SRC"))
            elif roles and nme in TGT_NAMES:
                rv = arr(("sel", allr, "TGT"))
            elif roles and nme in ("sample_domain_s", "sample_domain_source", "source_domain"):
                rv = RV("dom", ("sel", allr, "SRC"), None, None)
            elif roles and nme in ("sample_domain_t", "sample_domain_target", "target_domain"):
                rv = RV("dom", ("sel", allr, "TGT"), None, None)
            if rv is not None:
                out[nme] = self.e.param(nme, nonnull=nme in ("X", "features") or nme in given, array=True, role="data", extra={"base": base})
                self.seeds[out[nme].id] = rv
            elif nme in given:
                out[nme] = self.e.param(nme, nonnull=True, role="arg")
        if fi.kwarg == "params" and fi.cls is not None and fi.cls.has_base_named("BaseSelector"):
            for nme, rv in (("sample_domain", RV("dom", allr, None, None)), ("sample_weight", arr(allr))):
                if nme not in out and nme not in names:
                    out[nme] = self.e.param(nme, nonnull=True, array=True, role="data", extra={"base": base})
                    self.seeds[out[nme].id] = rv
        self._rows = None
        return out

    def make(self, ci, ctor=None):
        self.self_node, self.st = self.e.instance(ci, ctor)
        return self

    def call(self, meth, base, args=None, none=(), given=("y", "sample_domain"), phase=None, keep=True):
        fi = self.self_node.val.cls.find(meth)
        if fi is None:
            return None
        a = self.data(fi, base, none=none, given=given)
        if args:
            a.update(args)
        self.args[(meth, base)] = a
        st = self.st if keep else self.st.copy()
        kn = self.e.mk("dict", (), val=[]) if fi.kwarg else None
        r, st2 = self.e.run(fi, a, self_node=self.self_node, st=st, phase=phase or meth, kwargs_node=kn)
        if keep:
            if st2.dead:
                st2.dead = None
            self.st = st2
        self.results[(meth, base)] = r
        self._rows = None
        return r

    def func(self, fi, base="N", args=None, none=(), given=(), phase=None):
        a = self.data(fi, base, none=none, given=given)
        if args:
            a.update(args)
        self.args[(fi.name, base)] = a
        r, st = self.e.run(fi, a, phase=phase or fi.name)
        self.results[(fi.name, base)] = r
        self._rows = None
        self.st = st
        return r


def is_abstract(ci):
    for m in ("fit", "fit_transform", "_compute_weights", "compute_weights", "_create_transport_estimator"):
        f = ci.find(m)
        if f is not None and f.has_deco("abstractmethod"):
            return True
    return False


def adapters(p):
    return [c for c in p.classes() if c.has_base_named("BaseAdapter") and c.name != "BaseAdapter" and not c.name.startswith("Base")]


def estimators(p):
    return [c for c in p.classes() if c.has_base_named("DAEstimator") and c.name != "DAEstimator"]


def selectors(p):
    return [c for c in p.classes() if c.has_base_named("BaseSelector") and not c.name.startswith("_") and c.name != "BaseSelector"]


def scorers(p):
    return [c for c in p.classes() if c.has_base_named("_BaseDomainAwareScorer") and c.name != "_BaseDomainAwareScorer"]


def splitters(p):
    return [c for c in p.classes() if c.has_base_named("SplitSampleDomainRequesterMixin") and c.name not in ("SplitSampleDomainRequesterMixin", "BaseDomainAwareShuffleSplit")]
