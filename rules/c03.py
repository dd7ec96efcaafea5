"""Label-taint analysis.  Fitting y carries the labels {source, target}; masks, selections
and domain-guarded accesses remove one side.  (mask) every selector that accepts masking is
walked with masking on: what the wrapped clone's fit, fit_transform or partial_fit receives
must carry no target label, the markers written at target positions and the removal of
masked samples must agree (-1 / nan), and removal must happen exactly for the final
estimators that are not given the domain labels.  (default) masking is on by default and
reaches the selectors built by the pipeline factory unchanged.  (use) in adapters and
estimators no target label may reach learned attributes, inner fits or solvers, except
through a partial-label argument (yt) and fold stratification.  (pack) packing with masking
must not put labels of target domains into the result, and without masking must keep them."""

import ast
import math
import operator

from sa.facets import role
from sa.rowscan import class_runs
from sa.scenario import Run
from sa.taint import NEUTRAL_CALLS, Labels
from sa.vf import Node, callee_name, flat_alts, show, walk

TECHNIQUE = "static label-taint analysis over the value-flow graph"
ASSUMPTIONS = ["samples are labelled target exactly when their domain label is negative (C02)", "POT's transports use yt only as partial labels, where the mask marker stands for unlabeled samples"]

BOTH = frozenset(["SRC", "TGT"])
FITS = {"fit", "fit_transform", "partial_fit", "fit_predict"}
HARMLESS = NEUTRAL_CALLS | {"check_array", "isnan", "any", "all", "array", "asarray", "unique", "split", "StratifiedShuffleSplit", "isfinite", "max", "min", "where", "nonzero", "flatnonzero"}


def run(ctx):
    masking(ctx)
    scorers(ctx)
    uses(ctx)
    if not ctx.fixture:
        defaults(ctx)
        packing(ctx)


# ------------------------------------------------------------------ selectors
def conj(guards):
    """Guards as (atom, polarity), conjunctions taken apart."""
    out, stack = [], [(g, p) for g, p in guards]
    while stack:
        g, p = stack.pop()
        if g.op == "unary" and g.val == "Not":
            stack.append((g.args[0], not p))
        elif g.op == "bool" and ((g.val == "And") == p):
            stack.extend((a, p) for a in g.args)
        else:
            out.append((g, p))
    return out


def selectors_of(ctx):
    return [c for c in ctx.classes() if c.has_base_named("BaseSelector") and c.name != "BaseSelector" and not any(f.has_deco("abstractmethod") for f in all_methods(c))]


def all_methods(c):
    seen = {}
    for k in c.project_mro():
        for n, f in k.methods.items():
            seen.setdefault(n, f)
    return seen.values()


def removal(rv):
    """(marker, keeps) of a selection that compares labels with the mask marker."""
    r = rv.rows
    out = []
    while r is not None and r[0] in ("sel", "take"):
        if r[0] == "sel" and isinstance(r[2], tuple):
            pol, keep = r[2], True
            while pol and pol[0] == "not":
                pol, keep = pol[1], not keep
            if pol and pol[0] == "k":
                k = pol[1]
                if isinstance(k, tuple) and k and k[0] == "isfinite":
                    out.append(("nan", keep))
                elif isinstance(k, tuple) and k and k[0] == "isnan":
                    out.append(("nan", not keep))
                elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1][:1] == ("c",):
                    # equality with a constant: kept when different
                    out.append((k[1][2], not keep))
        r = r[1]
    return out


def masking(ctx):
    n = 0
    for c in selectors_of(ctx):
        init = c.find("__init__")
        if init is None or "mask_target_labels" not in init.all_params:
            continue
        for m in ("fit", "fit_transform", "partial_fit"):
            if c.find(m) is None:
                continue
            R = Run(ctx.p)
            con = f"{c.full}.{m}"
            try:
                R.make(c, ctor={"mask_target_labels": R.e.const(True)})
                if R.e.init_dead:
                    continue  # the selector refuses to mask
                R.call(m, "N")
            except Exception as x:
                ctx.und("mask", con, None, f"{type(x).__name__}: {x}")
                continue
            ctx.analysed(R.e)
            y = R.args[(m, "N")].get("y")
            if y is None:
                continue
            L = Labels(R.rows, {y.id: BOTH})
            found = removed = False
            whole = True
            for ev in R.e.events:
                if ev.kind == "setitem":
                    marker(ctx, R, ev, y, c)
                if ev.kind == "sub":
                    predicate(ctx, R, ev, y, c)
                    g = gate(R, ev)
                    if g is not None:
                        removed = True
                        bad = [t for t in g if t]
                        if bad:
                            ctx.bad("removal", f"{c.full}.{m}", ev.site, bad[0])
                        else:
                            ctx.ok("removal", f"{c.full}.{m}:{ev.site.line}")
                if ev.kind != "call":
                    continue
                cal = ev.node.args[0]
                if not (cal.op == "attr" and cal.val in FITS or cal.op == "call" and callee_name(cal) == "builtins.getattr"):
                    continue
                if cal.op == "attr" and cal.args[0].op in ("super", "inst"):
                    continue
                found = True
                args = list(ev.node.args[1:]) + list(ev.node.kw.values())
                if any("TGT" in L.get(a) for a in args):
                    ctx.bad("mask", con, ev.site, "labels of target samples reach the wrapped estimator although masking is on")
                else:
                    ctx.ok("mask", f"{con}:{ev.site.line}")
                # kept samples
                xr = R.rows.get(ev.node.args[1]) if len(ev.node.args) > 1 else ()
                if not xr or any(x.kind != "arr" or x.rows not in (("all", "N"), ("sel", ("all", "N"), "SRC")) for x in xr):
                    whole = False
                if len(ev.node.args) > 2:
                    alts = R.rows.get(ev.node.args[2])
                    rem = [x for a in alts for x in removal(a)]
                    for mk, keeps in rem:
                        if mk in ("nan", "-1"):
                            if keeps:
                                ctx.ok("removal", f"{con}:{mk}")
                            else:
                                ctx.bad("removal", con, ev.site, "the masked samples are kept and the others removed")
                        else:
                            ctx.bad("removal", con, ev.site, f"samples are removed by comparing labels with {mk}, which is not the mask marker")
            if not found:
                ctx.und("mask", con, None, "no call that fits the wrapped estimator found")
            elif not removed:
                # every sample set the clone may be fitted on is known, and none is reduced
                if whole:
                    ctx.bad("removal", con, c.find(m).full, "masked samples are never removed before the wrapped estimator is fitted")
                else:
                    ctx.und("removal", con, None, "removal not recognised")
            n += 1
    ctx.need(n, 3, "fit methods of masking selectors")


def marker(ctx, R, ev, y, c):
    """What is written at the positions of target samples of y."""
    if ev.base.root is not y and not any(x is y for x in walk(ev.base)):
        return
    fi = R.rows.first_index(ev.index)
    ms = [x for x in R.rows.get(fi) if x.kind == "mask"]
    if not ms or not all(x.pol in ("SRC", "TGT") for x in ms):
        return
    con = f"{ev.site.file}:{ev.site.func}"
    v = ev.value
    val = v.val if v.op == "const" else ("nan" if v.op == "ext" and v.val.split(".")[-1] in ("nan", "NaN") else None)
    if val is None and v.op != "const":
        return
    if {x.pol for x in ms} == {"SRC"}:
        ctx.bad("marker", con, ev.site, f"the labels of source samples are replaced by {show(v, 2)}")
        return
    of_kind(ctx, ev, con, val)


def of_kind(ctx, ev, con, val):
    kind = label_kind(ev.guards)
    if kind == "discrete" and val is not None and val != -1:
        ctx.bad("marker", con, ev.site, f"discrete target labels are masked by {val}, not by -1")
    elif kind == "continuous" and val is not None and val != "nan":
        ctx.bad("marker", con, ev.site, f"continuous target labels are masked by {val}, not by nan")
    else:
        ctx.ok("marker", f"{con}:{ev.site.line}")


def scorers(ctx):
    """Markers written by the scorers that refit an estimator."""
    for _, c, R in class_runs(ctx, ("scorers",)):
        for ev in R.e.events:
            v = ev.value
            if ev.kind != "setitem" or not hasattr(v, "op") or not any(x.kind == "mask" for x in R.rows.get(R.rows.first_index(ev.index))):
                continue
            if v.op == "const" and v.val == -1:
                of_kind(ctx, ev, f"{ev.site.file}:{ev.site.func}", -1)
            elif v.op == "ext" and v.val.split(".")[-1] in ("nan", "NaN"):
                of_kind(ctx, ev, f"{ev.site.file}:{ev.site.func}", "nan")


def at(n, v):
    """Value of a test of labels for the label v (None: not known)."""
    if n.op == "const":
        return n.val if isinstance(n.val, (int, float)) else None
    if n.op == "ext":
        return {"nan": math.nan, "NaN": math.nan, "inf": math.inf}.get(n.val.split(".")[-1])
    if n.op == "unary":
        x = at(n.args[0], v)
        if x is None:
            return None
        return {"Not": lambda: not x, "Invert": lambda: not x, "USub": lambda: -x}.get(n.val, lambda: None)()
    if n.op == "cmp" and len(n.args) == 2:
        a, b = at(n.args[0], v), at(n.args[1], v)
        f = OPS.get(n.val)
        return f(a, b) if f and a is not None and b is not None else None
    if n.op == "bin" and n.val in ("BitAnd", "BitOr"):
        a, b = at(n.args[0], v), at(n.args[1], v)
        if a is None or b is None:
            return None
        return a and b if n.val == "BitAnd" else a or b
    if n.op == "call":
        t = (callee_name(n) or "").split(".")[-1]
        xs = [at(a, v) for a in n.args[1:]]
        if xs and xs[0] is not None:
            f = {"isfinite": math.isfinite, "isnan": math.isnan, "isinf": math.isinf, "logical_not": lambda q: not q, "invert": lambda q: not q, "abs": abs}.get(t)
            if f:
                return f(xs[0])
            if t in ("asarray", "array"):
                return xs[0]
            if t in ("not_equal", "equal") and len(xs) > 1 and xs[1] is not None:
                return (xs[0] == xs[1]) == (t == "equal")
        return None
    if n.op in ("param", "phi", "update", "loop", "sub"):
        return v
    return None


OPS = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


def predicate(ctx, R, ev, y, c):
    """A selection by a test of the labels that keeps ordinary labels drops the marker."""
    i = R.rows.first_index(ev.index)
    if i is None:
        return
    for a, conds in arms(i):
        if a.op not in ("cmp", "unary", "call", "bin") or not any(m is y for m in walk(a)):
            continue
        got = [at(a, v) for v in (0, 3, 2.5)]
        if None in got or not all(got):
            continue
        kinds_ = label_kind(conds + list(a.guards or ()) + list(ev.guards))
        con = f"{ev.site.file}:{ev.site.func}"
        for mk, v, k in ((-1, -1, "discrete"), ("nan", math.nan, "continuous")):
            if kinds_ == k:
                if at(a, v):
                    ctx.bad("removal", con, a.site or ev.site, f"the test that removes masked samples keeps the marker of {k} labels ({mk})")
                else:
                    ctx.ok("removal", f"{con}:{k}")


def arms(n, conds=(), d=0):
    """Alternatives of a value with the conditions under which each is taken."""
    if n.op == "phi" and d < 8:
        two = n.val is not None and len(n.args) == 2
        for k, a in enumerate(n.args):
            yield from arms(a, conds + (((n.val, k == 0),) if two else ()), d + 1)
    else:
        yield n, list(conds)


def label_kind(guards):
    kinds = ["discrete", "continuous"]
    no = None
    for g, p in conj(guards):
        if g.op == "cmp" and g.val in ("Eq", "Is", "NotEq", "IsNot"):
            yes = p == (g.val in ("Eq", "Is"))
            for a in g.args:
                k = a.val if a.op == "const" and a.val in kinds else a.val.lower() if a.op == "attr" and a.val in ("DISCRETE", "CONTINUOUS") else None
                if k and yes:
                    return k
                if k:
                    no = kinds[1 - kinds.index(k)]
    return no


def gate(R, ev):
    """Tests on the way to a removal of masked samples; None when ev is no removal."""
    fi = R.rows.first_index(ev.index)
    ms = [x for x in R.rows.get(fi) if x.kind in ("mask", "idx")]
    if not any(removal(x if x.kind == "idx" else x._replace(rows=("sel", ("all", "N"), x.pol))) for x in ms if x.kind == "idx" or isinstance(x.pol, tuple)):
        return None
    out = []
    for g, p in conj(ev.guards):
        if g.op == "cmp" and g.val in ("In", "NotIn") and g.args[0].op == "const" and g.args[0].val == "sample_domain":
            if (g.val == "In") == p:
                out.append("masked samples are removed for estimators that are given the domain labels, and kept for the others")
            else:
                out.append("")
        elif g.op == "call" and callee_name(g) == "builtins.hasattr" and len(g.args) > 2 and g.args[2].op == "const" and g.args[2].val == "transform":
            out.append("masked samples are removed for transformers and kept for final estimators" if p else "")
        elif g.id in routed(R):
            out.append("masked samples are kept when some metadata is routed" if not p else "masked samples are kept when no metadata is routed")
    return out


def routed(R):
    """Nodes of the metadata given to wrapped estimators."""
    got = R.__dict__.setdefault("_routed", {})
    if not got:
        got[None] = None
        for ev in R.e.events:
            if ev.kind == "call" and "**" in ev.node.kw and ev.node.args[0].op == "attr" and ev.node.args[0].val in FITS:
                todo = [ev.node.kw["**"]]
                while todo:
                    d = todo.pop()
                    if not isinstance(d, Node) or d.id in got:
                        continue
                    got[d.id] = d
                    if d.op == "phi":
                        todo.extend(d.args)
                    elif d.op == "dictcomp":
                        todo.extend(a.args[0].args[0] if a.op == "call" and a.args[0].op == "attr" else a for a in d.args[2:])
    return got


# ------------------------------------------------------------------ adapters, estimators
def uses(ctx):
    n = 0
    for w, c, R in class_runs(ctx, ("adapters", "estimators")):
        seeds = {a["y"].id: BOTH for a in R.args.values() if "y" in a}
        for a in R.args.values():
            if "y_target" in a:
                seeds[a["y_target"].id] = frozenset(["TGT"])
        if not seeds:
            continue
        L = Labels(R.rows, seeds)
        k = 0
        for ev in R.e.events:
            if ev.phase not in ("fit", "fit_transform", "partial_fit"):
                continue
            if ev.kind == "setattr" and ev.base.op == "inst" and ev.base.val is R.self_node.val:
                k += 1
                if "TGT" in L.get(ev.value) and not derived_from_both(ev.value, seeds):
                    ctx.bad("use", f"{c.full}.fit", ev.site, f"attribute {ev.name} is computed from labels of target samples")
                else:
                    ctx.ok("use", f"{c.full}.{ev.name}")
            elif ev.kind == "call":
                nm = callee_name(ev.node) or ""
                tail = nm.split(".")[-1]
                if not sink(nm, tail):
                    continue
                args = [(str(i), a) for i, a in enumerate(ev.node.args[1:])] + [(q, a) for q, a in ev.node.kw.items() if q != "yt"]
                k += 1
                hit = [q for q, a in args if "TGT" in L.get(a)]
                if hit:
                    ctx.bad("use", f"{c.full}.fit", ev.site, f"labels of target samples reach {nm} (argument {hit[0]})")
                else:
                    ctx.ok("use", f"{c.full}:{nm}:{ev.site.line}")
        propagated(ctx, c, R, L, seeds)
        if k:
            n += 1
    ctx.need(n, 20, "fit methods of adapters and estimators")


def propagated(ctx, c, R, L, seeds):
    """Labels an adapter predicts for target samples are made from labels of source samples."""
    for (m, _), r in R.results.items():
        if m != "fit_transform" or r is None:
            continue
        for a in flat_alts(r):
            if a.op == "tuple" and len(a.args) == 3 and all(x.op == "update" and R.e.base_of(x).op in ("call", "unary", "bin") for x in flat_alts(a.args[1])):
                if "TGT" in L.get(a.args[1]) and not derived_from_both(a.args[1], seeds):
                    ctx.bad("use", f"{c.full}.fit_transform", c.find(m).full, "the labels predicted for target samples are computed from their own labels")
                else:
                    ctx.ok("use", f"{c.full}.fit_transform")


def derived_from_both(v, seeds):
    """Kept fitting data (the whole y stored for transform-time look-up) is not training."""
    return v.op == "param" and v.id in seeds


def sink(nm, tail):
    if nm.startswith("."):
        return tail in FITS
    return nm.startswith(("ot.", "scipy.optimize", "cvxopt", "scipy.linalg", "numpy.linalg"))


# ------------------------------------------------------------------ defaults and factory
def defaults(ctx):
    for q in ("Shared", "PerDomain", "SelectSource"):
        c = ctx.p.cls(q)
        if c is None:
            continue
        f = c.find("__init__")
        d = f.default("mask_target_labels") if f is not None and "mask_target_labels" in f.all_params else None
        flag(ctx, f"{c.full}.__init__", d, f)
    try:
        f = ctx.p.func("make_da_pipeline")
    except Exception:
        f = None
    if f is None:
        return
    if "mask_target_labels" in f.all_params:
        flag(ctx, f.full, f.default("mask_target_labels"), f)
    for sel in ("shared", "per_domain", "select_source"):
        for on in (True, False):
            R = Run(ctx.p)
            con = f"make_da_pipeline({sel}, mask_target_labels={on})"
            try:
                est = R.e.param("estimator", nonnull=True)
                est.extra.update(type="Estimator", exact=True)
                R.e.run(f, {"steps": R.e.mk("tuple", (est,)), "default_selector": R.e.const(sel), "mask_target_labels": R.e.const(on)})
            except Exception as x:
                ctx.und("factory", con, None, f"{type(x).__name__}: {x}")
                continue
            ctx.analysed(R.e)
            k = 0
            for ev in R.e.events:
                if ev.kind == "setattr" and ev.name == "mask_target_labels" and ev.base.op == "inst":
                    k += 1
                    alts = flat_alts(ev.value)
                    if on:
                        why = unasked(ev.value)
                        if why is not None:
                            ctx.bad("factory", con, why.site or ev.site, "masking is switched off for reasons other than an estimator that predicts target labels")
                    if all(a.op == "const" for a in alts):
                        vals = {a.val for a in alts}
                        if on and True not in vals or not on and True in vals:
                            ctx.bad("factory", con, ev.site, f"the selector is built with mask_target_labels in {vals}")
                        else:
                            ctx.ok("factory", con)
            if not k:
                ctx.und("factory", con, None, "no selector construction resolved")
    for on in (True, False):
        custom(ctx, f, on)


def mentions(n):
    return any(m.op == "const" and m.val == "predicts_target_labels" or m.op == "attr" and m.val == "predicts_target_labels" for m in walk(n))


def unasked(n, d=0):
    """A test on which the flag is off that is not about predicted target labels."""
    if d > 12:
        return None
    if n.op == "bool":
        for a in n.args:
            if not mentions(a) and any(m.op == "call" and (callee_name(m) or "").startswith("builtins.") for m in walk(a)):
                return a
        return next((x for a in n.args for x in [unasked(a, d + 1)] if x is not None), None)
    if n.op in ("phi", "loop"):
        if n.op == "phi" and n.val is not None and len(n.args) == 2:
            for i, a in enumerate(n.args):
                if a.op == "const" and a.val is False:
                    c, pos = n.val, i == 0
                    while c.op == "unary" and c.val == "Not":
                        c, pos = c.args[0], not pos
                    if not mentions(c) and any(m.op == "call" and (callee_name(m) or "").startswith("builtins.") for m in walk(c)):
                        return c
        return next((x for a in n.args if a.op in ("phi", "bool", "loop") and not (n.op == "loop" and a.op == "loop") for x in [unasked(a, d + 1)] if x is not None), None)
    return None


def custom(ctx, f, on):
    """A selector given as a callable gets the option too."""
    R = Run(ctx.p)
    con = f"make_da_pipeline(callable, mask_target_labels={on})"
    try:
        est, fun = R.e.param("estimator", nonnull=True), R.e.param("default_selector", nonnull=True)
        est.extra.update(type="Estimator", exact=True)
        R.e.run(f, {"steps": R.e.mk("tuple", (est,)), "default_selector": fun, "mask_target_labels": R.e.const(on)})
    except Exception as x:
        ctx.und("factory", con, None, f"{type(x).__name__}: {x}")
        return
    ctx.analysed(R.e)
    for ev in R.e.events:
        if ev.kind != "call" or not any(a is fun for a in flat_alts(ev.node.args[0])):
            continue
        kw, pos = ev.node.kw, ev.node.args[1:]
        v = kw.get("mask_target_labels") or (pos[1] if len(pos) > 1 else None)
        if "**" in kw or any(a.op == "star" for a in pos):
            ctx.und("factory", con, ev.site, "arguments not resolved")
        elif v is None:
            ctx.bad("factory", con, ev.site, "the selector that was given does not get mask_target_labels")
        else:
            vals = {a.val if a.op == "const" else "?" for a in flat_alts(v)}
            if "?" not in vals and (on not in vals):
                ctx.bad("factory", con, ev.site, f"the selector that was given gets mask_target_labels in {vals}")
            else:
                ctx.ok("factory", con)


def flag(ctx, con, d, f):
    if isinstance(d, ast.Constant):
        ctx.check(d.value is True, "default", con, f.full if f else None, "target labels are not masked by default")
    else:
        ctx.und("default", con, None, "default not a literal")


# ------------------------------------------------------------------ packing
def packing(ctx):
    try:
        c = ctx.p.cls("DomainAwareDataset")
    except Exception:
        c = None
    if c is None or c.find("pack") is None or c.find("get_domain") is None:
        ctx.und("pack", "DomainAwareDataset.pack", None, "not found")
        return
    gd = c.find("get_domain").full

    def attempt(meth, con, args, masked, side):
        src, tgt = {}, {}

        def summary(e, callee, pos, kw, kwstar, fr, st, astn):
            a = pos[0] if pos else next(iter(kw.values()), None)
            nm = a.val if isinstance(a, Node) and a.op == "const" else "?"
            x, y = e.param(f"X<{nm}>", nonnull=True), e.param(f"y<{nm}>", nonnull=True)
            # as an array or as a tensor
            seeds[y.id] = frozenset(["SRC"]) if nm == "s" else frozenset(["TGT"])
            return e.mk("tuple", (x, y))

        seeds = {}
        R = Run(ctx.p, summaries={gd: summary})
        try:
            R.make(c)
            a = {k: v(R) for k, v in args.items()}
            r, st = R.e.run(c.find(meth), a, self_node=R.self_node, st=R.st)
        except Exception as x:
            ctx.und("pack", con, None, f"{type(x).__name__}: {x}")
            return
        ctx.analysed(R.e)
        if not seeds:
            ctx.und("pack", con, None, "access to the domains not recognised")
            return
        L = Labels(R.rows, seeds)
        parts = labels_of(R, r)
        if not parts:
            ctx.und("pack", con, None, "labels of the result not recognised")
            return
        for where, part in parts:
            got = L.get(part)
            if masked and "TGT" in got:
                ctx.bad("pack", con, c.find(meth).full, f"labels of target domains are in the packed labels ({where}) although masking is asked for")
            elif not masked and side not in got:
                ctx.bad("pack", con, c.find(meth).full, f"labels are missing from the packed labels ({where})")
            else:
                ctx.ok("pack", f"{con}:{where}")

    lst = lambda *names: (lambda R: R.e.mk("list", [R.e.const(n) for n in names]))
    k = lambda v: (lambda R: R.e.const(v))
    for rt in ("array", "tensor", "DeepDADataset", "Bunch"):
        for mask in (None, "given"):
            base = {"return_X_y": k(None), "return_type": k(rt), "train": k(None)}
            base["mask"] = k(None) if mask is None else (lambda R: R.e.param("mask", nonnull=True))
            attempt("pack", f"DomainAwareDataset.pack(masked, {rt}, mask={mask})", {**base, "as_sources": lst("s"), "as_targets": lst("t"), "mask_target_labels": k(True)}, True, "SRC")
            attempt("pack", f"DomainAwareDataset.pack(source only, {rt}, mask={mask})", {**base, "as_sources": lst("s"), "as_targets": lst(), "mask_target_labels": k(True)}, False, "SRC")
            attempt("pack", f"DomainAwareDataset.pack(unmasked, {rt}, mask={mask})", {**base, "as_sources": lst(), "as_targets": lst("t"), "mask_target_labels": k(False)}, False, "TGT")
    if c.find("pack_train") is not None:
        attempt("pack_train", "DomainAwareDataset.pack_train", {"as_sources": lst("s"), "as_targets": lst("t")}, True, "SRC")
    if c.find("pack_test") is not None:
        attempt("pack_test", "DomainAwareDataset.pack_test", {"as_targets": lst("t")}, False, "TGT")


def labels_of(R, r):
    out = []
    for i, a in enumerate(flat_alts(r)):
        if a.op in ("tuple", "list") and len(a.args) >= 2:
            out.append((f"return {i}", a.args[1]))
        elif a.op == "call" and (callee_name(a) or "").split(".")[-1] == "Bunch" and "y" in a.kw:
            out.append(("Bunch", a.kw["y"]))
        elif a.op == "inst":
            pos, kw = a.extra.get("pos") or [], a.extra.get("kw") or {}
            if len(pos) > 1 and isinstance(pos[1], Node):
                out.append((a.val.cls.name, pos[1]))
            elif "y" in kw:
                out.append((a.val.cls.name, kw["y"]))
    return out
