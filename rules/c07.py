"""Typestate of estimators.  Each prediction or transformation method is walked on an object
whose learned attributes are unknown: the first read of a learned attribute (or hand-over of
the work to a helper that reads one) must come after a not-fitted check on every path that
reaches it.  The check itself must be able to tell: the constructor may not set attributes
with the trailing underscore that marks a fitted object.  Each public fit method must return
the object on all its paths."""

import ast

from rules.c05 import parameterised
from rules.c21 import ctor_names, leftover
from rules.c24 import has_fit
from sa.entries import method_runs
from sa.scenario import Run
from sa.vf import callee_name, flat_alts, show

TECHNIQUE = "static typestate analysis (not-fitted check before learned state is read; returned values of fit)"
ASSUMPTIONS = ["check_is_fitted of scikit-learn raises NotFittedError when the object has no attribute with a trailing underscore"]

USES = {"predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "inverse_transform", "score", "score_samples", "get_estimator", "compute_weights", "predict_features"}
FIT = {"fit", "partial_fit"}


def run(ctx):
    n = k = 0
    cls = [c for c in ctx.classes() if parameterised(c) and has_fit(c)]
    for c, m, R in list(method_runs(ctx, cls)):
        if m in USES:
            n += 1
            use(ctx, c, m, R)
        elif m in FIT:
            k += 1
            returns(ctx, c, m, R)
            try:
                S = Run(ctx.p).make(c)
                S.call(m, "N", given=())
                returns(ctx, c, m, S)
            except Exception as x:
                ctx.und("returns", f"{c.full}.{m}", None, f"{type(x).__name__}: {x}")
    for c in cls:
        marks(ctx, c)
    ctx.need(n, 30, "prediction methods")
    ctx.need(k, 15, "fit methods")


def external(c):
    """State held by a base class of another package (skorch nets)."""
    return any(b.split(".")[-1] in ("NeuralNet", "NeuralNetClassifier", "Module", "_Loss", "_BaseScorer") for b in c.ext_bases())


def raises_not_fitted(R, ev):
    return ev.kind == "raise" and "NotFitted" in (ev.name or "")


def use(ctx, c, m, R):
    con = f"{c.full}.{m}"
    if external(c):
        return
    obj = R.self_node.val
    params = ctor_names(c)
    checks = []
    for ev in R.e.events:
        if ev.phase == "init":
            continue
        if ev.kind == "call":
            nm = (callee_name(ev.node) or "").split(".")[-1]
            if nm == "check_is_fitted" and len(ev.node.args) > 1 and ev.node.args[1].op == "inst" and ev.node.args[1].val is obj:
                checks.append(ev.guards)
                continue
            if nm == "hasattr" and len(ev.node.args) > 1 and ev.node.args[1].op == "inst" and ev.node.args[1].val is obj:
                checks.append(())  # its own test of the state
        elif ev.kind == "raise" and raises_not_fitted(R, ev):
            checks.append(())
        elif ev.kind == "getattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj and leftover(ev.node, obj):
            if ev.name in params or not ev.name.endswith("_") or ev.name.startswith("_"):
                continue
            if any(tuple(ev.guards[:len(g)]) == tuple(g) for g in checks):
                continue
            ctx.bad("order", con, ev.site, f"{m} reads the learned attribute {ev.name} without checking that the object is fitted")
            return
    ctx.ok("order", con)


def marks(ctx, c):
    if external(c) or c.find("__sklearn_is_fitted__") is not None:
        return
    runs = ctx.p.__dict__.get("_method_runs", {})
    R = next((r for (k, f, m), r in runs.items() if f == c.full and r is not None), None)
    if R is None:
        return
    obj = R.self_node.val
    for ev in R.e.events:
        if ev.phase == "init" and ev.kind == "setattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj and ev.name.endswith("_") and not ev.name.startswith("__"):
            ctx.bad("marks", c.full, ev.site, f"the constructor sets {ev.name}: an object that was never fitted passes for a fitted one")
            return
    ctx.ok("marks", c.full)


def stub(f):
    """A method for subclasses to define."""
    body = f.node.body
    return f.has_deco("abstractmethod") or all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in body)


def returns(ctx, c, m, R):
    con = f"{c.full}.{m}"
    r = R.results.get((m, "N"))
    if r is None or stub(c.find(m)):
        return
    for a in flat_alts(r):
        a = a.root if a.op == "update" else a
        other = a.op == "func" and a.val.self_node is not None or a.op == "attr0"
        f = a.args[0] if a.op == "call" else None
        if f is not None and f.op == "call" and (callee_name(f) or "").endswith("getattr") and len(f.args) > 2 and f.args[2].op == "const":
            to, name = f.args[1], f.args[2].val
        elif f is not None and f.op == "attr":
            to, name = f.args[0], f.val
        else:
            to = None
        other = other or to is not None and name in FIT and all(x.op == "call" and (callee_name(x) or "").split(".")[-1] in ("clone", "deepcopy") or x.op in ("attr0", "param") for x in flat_alts(to))
        if a.op == "const" or other or a.op == "inst" and a.val is not R.self_node.val or a.op in ("tuple", "list", "dict", "bin", "cmp"):
            ctx.bad("returns", con, None, f"{m} may return {show(a, 3)} instead of the estimator")
            return
    ctx.ok("returns", con)
