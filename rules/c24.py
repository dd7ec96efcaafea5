"""Effects of prediction-time methods.  Each prediction, transformation or scoring method of
every estimator, adapter, selector, transformer, generator-free splitter and net is walked on
a fitted object whose attributes are symbolic.  Reported: an attribute of the object that is
set or deleted on the way; an in-place change (item or augmented store, mutating method,
out=/overwrite argument) of a value that may share memory with an attribute or a constructor
parameter; a fit-like method applied to an object held by an attribute."""

from rules.c05 import parameterised
from sa.alias import Alias, mutations
from sa.entries import method_runs
from sa.facets import Facet
from sa.rowscan import class_runs, kinds
from sa.vf import callee_name, flat_alts

TECHNIQUE = "static effect analysis (attribute write sets and may-alias with learned state)"
ASSUMPTIONS = ["methods of scikit-learn, POT and torch objects do not change arrays given to them unless they are asked to"]

PRED = {
    "predict", "compute_weights", "predict_proba", "predict_log_proba", "decision_function", "transform", "inverse_transform", "score", "score_samples", "predict_features", "feature_iter", "infer", "get_estimator", "get_n_splits",
    "get_params", "get_feature_names_out", "get_intermediate_estimators", "sample_y", "estimate_covar", "compute_distance_matrix", "predict_nonlin", "__len__", "__getitem__", "select_domain", "get_domain", "pack", "pack_train", "pack_test", "pack_lodo", "select", "as_dict",
}
FITS = {"fit", "partial_fit", "fit_transform", "fit_predict", "set_params", "initialize", "fit_resample"}


class StateAlias(Alias):
    """Alias with the attributes an object has before the call as owners."""

    def __init__(self, R, seeds):
        super().__init__(R.e, R.rows, seeds)
        self.obj = R.self_node.val

    held = {}

    def get(self, n):
        r = super().get(n)
        h = self.held.get(n.root.id)
        return r | h if h else r

    def t_attr0(self, n):
        return frozenset([("attribute", n.val)]) if (n.extra or {}).get("obj") is self.obj else frozenset()


class Holds(Facet):
    """Attributes that may hold the object a value is."""

    def __init__(self, obj):
        super().__init__()
        self.obj = obj

    def t_default(self, n):
        return frozenset()

    def t_attr0(self, n):
        return frozenset([n.val]) if (n.extra or {}).get("obj") is self.obj else frozenset()

    def t_phi(self, n):
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        return r

    t_bool = t_phi

    def t_elem(self, n):
        return self.get(n.args[0])

    t_item = t_dval = t_sub = t_update = t_elem


SCALARS = {"float", "int", "len", "str", "bool", "min", "max", "sum", "item", "mean", "median", "std", "tuple", "frozenset", "round", "abs", "trace", "norm", "dot"}


def has_fit(c):
    return c.find("fit") is not None or any(b.split(".")[-1] in ("NeuralNet", "NeuralNetClassifier", "BaseEstimator", "TransformerMixin", "ClassifierMixin") for b in c.ext_bases())


def run(ctx):
    n = 0
    for c, m, R in method_runs(ctx, [c for c in ctx.classes() if parameterised(c) and has_fit(c)]):
        if m not in PRED:
            continue
        n += 1
        scan(ctx, c, m, R)
    for w, c, R in class_runs(ctx, ("adapters", "estimators", "selectors")):
        learned(ctx, c, R)
    for w, c, R in class_runs(ctx, ("scorers",)):
        guest(ctx, c, R)
    ctx.need(n, 40, "prediction methods")


def guest(ctx, c, R):
    """The estimator that a scorer evaluates keeps its attributes."""
    con = f"{c.full}._score"
    ok = True

    def its(n, d=0):
        return n is not None and d < 6 and any(a.op == "param" and a.val == "estimator" or a.op in ("attr", "attr0") and a.args and its(a.args[0], d + 1) for a in flat_alts(n))

    for ev in R.e.events:
        if ev.phase != "_score":
            continue
        if ev.kind in ("setattr", "delattr") and its(ev.base) and ev.base.op != "inst":
            ok = False
            ctx.bad("state", con, ev.site, f"the scorer sets {ev.name} of the estimator it evaluates")
        elif ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "set_params" and its(ev.node.args[0].args[0]):
            ok = False
            ctx.bad("state", con, ev.site, "the scorer sets parameters of the estimator it evaluates")
    if ok:
        ctx.ok("state", con)


def learned(ctx, c, R):
    """Arrays set by fit, changed by a later prediction method."""
    obj = R.self_node.val
    A = StateAlias(R, {})
    A.held = {}
    arrays = set()
    for ev in R.e.events:
        if ev.kind == "setattr" and ev.phase in ("fit", "fit_transform") and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj and ev.value is not None:
            for a in [ev.value] + flat_alts(ev.value):
                if a.op in ("const", "attr0", "func", "cls", "inst"):
                    continue
                A.held[a.root.id] = frozenset([("attribute", ev.name)])
                if any(x.kind in ("arr", "mask", "idx", "dom") for x in kinds(R.rows.get(a))) or a.op == "call" and callee_name(a).split(".")[-1] not in SCALARS:
                    arrays.add(a.root.id)
    ok = True
    for ev, owners, how in mutations(R, A, predicting):
        owners = [o for o in owners if o[0] == "attribute"]
        if owners and how == "augmented assignment" and not any(a.root.id in arrays for a in [ev.base] + flat_alts(ev.base)):
            continue
        if owners:
            ok = False
            ctx.bad("learned", f"{c.full}.{ev.phase}", ev.site, f"{how} changes the contents of the attribute {sorted(owners)[0][1]} set by fit")
    if ok:
        ctx.ok("learned", f"{c.full} ({len(A.held)} values set by fit)")


def predicting(ev):
    """Inside a prediction method, and not inside the fit of a fresh object made there."""
    names = [f.split(".")[-1].split(":")[-1] for f in (ev.site.stack or ())]
    if ev.phase == "fit_transform":
        at = next((i for i, q in enumerate(names) if q in PRED), None)
        if at is None:
            return False
        names = names[at:]
    elif ev.phase not in PRED:
        return False
    return not any(q in ("fit", "_fit", "fit_transform") for q in names)


def in_fit(ev):
    """Inside a fit that is nested in the method (of a fresh object)."""
    return any(f.split(".")[-1].split(":")[-1] in ("set_params", "__setstate__") for f in (ev.site.stack or ()))


def init_state(R):
    """Containers made by the constructor, by node."""
    out = {}
    for ev in R.e.events:
        if ev.kind == "setattr" and ev.phase == "init" and ev.base is not None and ev.base.op == "inst" and ev.base.val is R.self_node.val and ev.value is not None:
            v = ev.value
            if v.op in ("dict", "list", "call", "comp", "update", "set"):
                out[v.root.id] = frozenset([("attribute", ev.name)])
    return out


def training(n):
    """A network is put in training mode, or batches are drawn as for training."""
    on = lambda a: a is not None and a.op == "const" and a.val is True
    if n is None or n.op != "call":
        return False
    first = lambda k: n.args[1] if len(n.args) > 1 else n.kw.get(k)
    for f in [a for x in flat_alts(n.args[0]) for a in (x.args if x.op == "loop" else (x,)) if a is not None]:
        t = f.val if f.op in ("attr", "attr0") else None
        if t == "_set_training" and on(first("training")):
            return True
        if t in ("get_iterator", "evaluation_step", "forward_iter") and on(n.kw.get("training")):
            return True
        if t == "train" and f.op == "attr" and f.args[0].op != "ext" and (len(n.args) == 1 and not n.kw or on(first("mode"))):
            return True
    return False


def scan(ctx, c, m, R):
    con = f"{c.full}.{m}"
    obj = R.self_node.val
    seeds = {}
    for ev in R.e.events:
        if ev.kind == "enter" and ev.phase == "init" and isinstance(ev.value, dict):
            for q, v in ev.value.items():
                for a in flat_alts(v) if v is not None else []:
                    if a.op == "param" and (a.extra or {}).get("role") == "ctor":
                        seeds[a.id] = frozenset([("parameter", a.val)])
    A = StateAlias(R, seeds)
    A.held = init_state(R)
    H = Holds(obj)
    ok = True
    for ev in R.e.events:
        if ev.phase == "init":
            continue
        if ev.kind in ("setattr", "delattr") and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj:
            v = ev.value
            if v is not None and v.op == "attr0" and v.val == ev.name:
                continue
            ok = False
            ctx.bad("state", con, ev.site, f"{m} {'sets' if ev.kind == 'setattr' else 'deletes'} the attribute {ev.name}")
        elif ev.kind == "call" and training(ev.node):
            ok = False
            ctx.bad("state", con, ev.site, f"{m} works in training mode (batches drawn at random, dropout, running statistics)")
        elif ev.kind in ("setattr", "delattr") and ev.base is not None:
            o = H.get(ev.base)
            if o:
                ok = False
                ctx.bad("state", con, ev.site, f"{m} sets {ev.name} of the object in the attribute {sorted(o)[0]}")
        elif ev.kind == "call":
            cal = ev.node.args[0]
            if cal.op == "attr" and cal.val in FITS:
                o = H.get(cal.args[0])
                if o:
                    ok = False
                    ctx.bad("refit", con, ev.site, f"{m} applies .{cal.val}() to the object in the attribute {sorted(o)[0]}")
    for ev, owners, how in mutations(R, A, lambda ev: ev.phase != "init"):
        owners = [o for o in owners if o[0] in ("parameter", "attribute")]
        if owners:
            ok = False
            ctx.bad("in-place", con, ev.site, f"{how} changes the contents of the {sorted(owners)[0][0]} {sorted(owners)[0][1]}")
    if ok:
        ctx.ok("state", con)
