"""Permission to use source samples at prediction time.  Each method with an allow_source
parameter is walked twice, with the permission refused and granted.  An adapter that does
anything to the samples must reach, when refused, an error that depends on nothing but the
presence of source samples, and must not reach it when granted; a net must hand on only
target samples when refused and all of them when granted.  The permission is off by default
and a fit_transform of an adapter grants it to its own transform."""

import ast

from rules.c15 import count_literal, lits
from sa.scenario import Run, adapters
from sa.vf import callee_name, flat_alts, show

TECHNIQUE = "static path analysis under both values of the permission (guards of the errors, provenance of the samples handed on)"
ASSUMPTIONS = ["DeepDADataset.select_target keeps target samples only (C17)"]

METHODS = ("transform", "predict", "predict_proba", "predict_log_proba", "decision_function", "score")


def refused(R, ev):
    """The error is raised for the presence of source samples and nothing else."""
    L = []
    for g, pol in ev.guards:
        if g.op == "iter":
            return False
        if pol or not compound(g):
            L += lits(g, pol)
    cl = [count_literal(R, n, p) for n, p in L]
    hit = [c for c in cl if c is not None]
    rest = [n for (n, p), c in zip(L, cl) if c is None and not harmless(n)]
    return hit == [("SRC", 1)] and not rest


def compound(g):
    return g.op == "bool"


def harmless(n):
    """Conditions on missing domain labels or options."""
    return n.op == "const" or n.op == "param" or n.op == "cmp" and any(a.op == "const" and a.val is None for a in n.args) or n.op == "call" and (callee_name(n) or "").split(".")[-1] in ("isscalar", "isinstance")


def run(ctx):
    n = 0
    for c in ctx.scoped(adapters(ctx.p)):
        f = c.find("transform")
        if f is None or "allow_source" not in f.all_params:
            continue
        n += 1
        adapter(ctx, c, f)
        fitting(ctx, c)
    for c in ctx.classes():
        for m in METHODS:
            f = c.methods.get(m)
            if f is not None and "allow_source" in f.all_params:
                off(ctx, c, f)
    nets(ctx)
    ctx.need(n, 10, "adapters whose transform takes allow_source")


def off(ctx, c, f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    for x, d in pairs:
        if x.arg == "allow_source":
            if isinstance(d, ast.Constant) and d.value:
                ctx.bad("default", f"{c.full}.{f.name}", f"{c.module.rel}:{f.node.lineno}", "source samples are allowed by default")
            else:
                ctx.ok("default", f"{c.full}.{f.name}")


def walk(ctx, c, m, value, **kw):
    R = Run(ctx.p, **kw)
    try:
        R.make(c)
        R.call(m, "N", args={"allow_source": R.e.const(value)}, given=("sample_domain", "y"))
    except Exception as x:
        ctx.und("walk", f"{c.full}.{m}", None, f"{type(x).__name__}: {x}")
        return None
    ctx.analysed(R.e)
    return R


def adapter(ctx, c, f):
    con = f"{c.full}.transform"
    R0, R1 = walk(ctx, c, "transform", False), walk(ctx, c, "transform", True)
    if R0 is None or R1 is None:
        return
    site = f"{f.module.rel}:{f.node.lineno}"
    r = R0.results.get(("transform", "N"))
    untouched = r is not None and all(a.op == "param" and a.val == "X" for a in flat_alts(r))
    hit0 = [ev for ev in R0.e.events if ev.kind == "raise" and ev.phase == "transform" and refused(R0, ev)]
    hit1 = [ev for ev in R1.e.events if ev.kind == "raise" and ev.phase == "transform" and refused(R1, ev)]
    if hit1:
        ctx.bad("granted", con, hit1[0].site, "source samples are refused although they are allowed")
    elif not hit0 and not untouched:
        if any(ev.kind == "raise" and ev.phase == "transform" and unknown(R0, ev) and ev.site.line not in {e.site.line for e in R1.e.events if e.kind == "raise"} for ev in R0.e.events):
            ctx.und("refused", con, site, "an error depends on the permission in a form the rule does not know")
            return
        ctx.bad("refused", con, site, "source samples are transformed although they are not allowed")
    else:
        ctx.ok("refused", con)
        ctx.ok("granted", con)


def fitting(ctx, c):
    """A fit_transform that refuses the sources it was just fitted on."""
    f = c.find("fit_transform")
    if f is None:
        return
    R = Run(ctx.p)
    try:
        R.make(c)
        R.call("fit_transform", "N", given=("sample_domain", "y"))
    except Exception as x:
        ctx.und("fitting", f"{c.full}.fit_transform", None, f"{type(x).__name__}: {x}")
        return
    ctx.analysed(R.e)
    for ev in R.e.events:
        if ev.kind == "raise" and refused(R, ev) and not any(mentions(g, "allow_source") for g, _ in ev.guards):
            ctx.bad("fitting", f"{c.full}.fit_transform", ev.site, "source samples are refused while fitting")
    ctx.ok("fitting", f"{c.full}.fit_transform")


def mentions(g, name):
    return g.op != "iter" and name in show(g, 12)


def unknown(R, ev):
    """A condition on the domain labels in a form the rule does not know."""
    for g, pol in ev.guards:
        if g.op == "iter":
            continue
        for n, p in lits(g, pol):
            if count_literal(R, n, p) is None and not harmless(n) and mentions(n, "sample_domain"):
                return True
    return False


# ------------------------------------------------------------------ nets
def nets(ctx):
    ds = [f for c in ctx.p.classes() for k, f in c.methods.items() if k in ("select_target", "select_source", "_prepare_input")]
    keep = {f.full for f in ds}
    for c in ctx.classes():
        if not any(b.split(".")[-1] in ("NeuralNet", "NeuralNetClassifier") for b in c.ext_bases()):
            continue
        for m in METHODS:
            f = c.methods.get(m)
            if f is None or "allow_source" not in f.all_params:
                continue
            con = f"{c.full}.{m}"
            got = {}
            for v in (False, True):
                R = walk(ctx, c, m, v, no_inline=keep)
                if R is None:
                    break
                got[v] = handed(R, m)
            if len(got) < 2:
                continue
            site = f"{f.module.rel}:{f.node.lineno}"
            for ev, kind in got[False]:
                if kind == "all":
                    ctx.bad("refused", con, ev.site, "source samples are predicted although they are not allowed")
            for ev, kind in got[True]:
                if kind == "target":
                    ctx.bad("granted", con, ev.site, "source samples are left out although they are allowed")
            if got[False] and got[True] and all(k for v in got for _, k in got[v]):
                ctx.ok("refused", con, site)
            else:
                ctx.und("refused", con, site, "no prediction of a base class found")


def handed(R, m):
    """(event, 'target'/'all'/None) for each prediction handed to a base class."""
    out = []
    for ev in R.e.events:
        if ev.kind != "call" or ev.phase != m:
            continue
        cal = ev.node.args[0]
        if cal.op == "attr" and cal.val in METHODS + ("forward_iter", "infer") and cal.args[0].op == "super" and len(ev.node.args) > 1:
            kinds = {kind(a) for a in flat_alts(ev.node.args[1])}
            if "target" in kinds and "all" not in kinds:
                out.append((ev, "target"))
            elif kinds == {"all"}:
                out.append((ev, "all"))
            else:
                out.append((ev, None))
    return out


def kind(n, d=0):
    if d > 8:
        return None
    if n.op == "call":
        cal = n.args[0]
        nm = cal.val if cal.op in ("attr", "attr0") else cal.val.fi.name if cal.op == "func" else callee_name(n)
        nm = (nm or "").split(".")[-1]
        if nm in ("select_target", "select_source"):
            return nm.split("_")[1]
        if nm == "_prepare_input":
            inner = kind(n.args[1], d + 1) if len(n.args) > 1 else None
            return inner or "all"
        return None
    if n.op == "param" and n.val == "X":
        return "all"
    if n.op in ("item", "sub") and n.args[0].op == "call":
        return kind(n.args[0], d + 1)
    if n.op == "phi":
        ks = {kind(a, d + 1) for a in flat_alts(n)}
        return ks.pop() if len(ks) == 1 else None
    return None
