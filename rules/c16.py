"""Deep training.  (base) The criterion is walked on a batch of symbols: the base loss gets
predictions and labels of the same samples, those of the sources (of the targets only when
training on the target is asked for).  (slots) The adaptation loss gets every piece in its own
slot, with the samples of the role of the slot.  (penalty) The total is taken apart as a sum of
products: base loss with coefficient one, adaptation loss with the configured weight.
(module) The network returns predictions, domain predictions, features, domain labels and ids
in that order while fitting, and none of the domain classifier's work otherwise.  (loss) Inside
adaptation losses, source and target are not crossed where samples are paired, and the two
domains get different domain labels, one for each sample.  (sampler) Samplers draw from the
domain they are asked for, and balanced ones draw as many of both.  (flag) Fitting mode is
asked for by fit only.  (weights) The weights of the loss are those of the source samples."""

import ast

from sa.axes import Axes
from sa.entries import function_runs
from sa.facets import RV, arr, role
from sa.rowscan import differ, differ_len
from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static slot and role analysis of the training protocol, symbolic decomposition of the total loss, guard analysis of the samplers"
ASSUMPTIONS = ["criteria and modules given by the user do what they document", "skorch hands fit parameters to the module while fitting only"]

ALL = ("all", "N")
OTHER = {"SRC": "TGT", "TGT": "SRC"}
WORD = {"SRC": "source", "TGT": "target"}
SLOTS = ("y_pred", "domain_pred", "features", "sample_domain", "sample_idx")


def reach(n, stop=()):
    seen, todo = {}, [n]
    while todo:
        m = todo.pop()
        if not isinstance(m, Node) or m.id in seen or m.id in stop:
            continue
        seen[m.id] = m
        todo.extend(m.args)
        todo.extend(m.kw.values())
    return list(seen.values())


def deep(n):
    """Like reach, through the arguments new objects are made from."""
    seen, todo = {}, [n]
    while todo:
        m = todo.pop()
        if not isinstance(m, Node) or m.id in seen:
            continue
        seen[m.id] = m
        todo.extend(m.args)
        todo.extend(m.kw.values())
        if m.op == "inst":
            todo.extend((m.extra or {}).get("pos", ()))
            todo.extend(((m.extra or {}).get("kw") or {}).values())
    return list(seen.values())


def named(c, base):
    return c.name == base or c.has_base_named(base)


def run(ctx):
    crits = [c for c in ctx.classes() if named(c, "DomainAwareCriterion")]
    mods = [c for c in ctx.classes() if named(c, "DomainAwareModule")]
    losses = [c for c in ctx.classes() if c.has_base_named("BaseDALoss")]
    bal = [c for c in ctx.classes() if named(c, "DomainBalancedSampler")]
    only = [c for c in ctx.classes() if named(c, "DomainOnlySampler")]
    nets = [c for c in ctx.classes() if named(c, "DomainAwareNet")]
    for cs, f in ((crits, criterion), (mods, module), (losses, loss), (bal, balanced), (only, single), (nets, net)):
        for c in cs:
            try:
                f(ctx, c)
            except Exception as x:
                if ctx.tier == "debug":
                    raise
                ctx.und("walk", f"{c.full}: {f.__name__}", None, f"{type(x).__name__}: {x}")
    factories(ctx, only, crits)
    for c in ctx.classes():
        if "Callback" in {b.split(".")[-1] for b in c.ext_bases()}:
            try:
                callback(ctx, c, nets)
            except Exception as x:
                if ctx.tier == "debug":
                    raise
                ctx.und("walk", f"{c.full}: callback", None, f"{type(x).__name__}: {x}")
    means(ctx)
    ctx.need(len(crits), 1, "domain aware criteria")
    ctx.need(len(losses), 5, "adaptation losses")
    ctx.need(len(bal) + len(only), 2, "samplers")


def means(ctx):
    """A sum over samples divided by the sum of their weights: a weighted mean, whose terms
    are the values times the weights."""
    def summed(n):
        if n.op != "call" or (callee_name(n) or "").split(".")[-1] not in ("sum", "nansum") and not (n.args[0].op == "attr" and n.args[0].val == "sum"):
            return None
        return n.args[0].args[0] if n.args[0].op == "attr" and n.args[0].args and n.args[0].args[0].op not in ("ext", "module") else n.args[1] if len(n.args) > 1 else None

    for f, R in function_runs(ctx):
        nodes = {}
        for v in R.results.values():
            if isinstance(v, Node):
                nodes.update((q.id, q) for q in reach(v))
        done = False
        for n in nodes.values():
            if n.op != "bin" or n.val != "Div":
                continue
            a = summed(n.args[0])
            if a is None or a.op != "bin" or a.val not in ("Mult", "Div"):
                continue
            w = {R.e.key(x) for x in (summed(q) for q in reach(n.args[1])) if x is not None}
            if not any(R.e.key(x) in w for x in a.args[:2]):
                continue
            done = True
            if a.val == "Div":
                ctx.bad("mean", f.full, n.site, "the terms of a weighted mean are divided by their weights, or the other way round")
        if done:
            ctx.ok("mean", f.full)


# ------------------------------------------------------------------ criterion
def criterion(ctx, c):
    for on_target in (False, True):
        for missing in ((), ("domain_pred",), ("features",), ("sample_idx",)):
            criterion_once(ctx, c, on_target, missing)


def criterion_once(ctx, c, on_target, missing):
    R = Run(ctx.p)
    e = R.e
    P = {n: e.param(n, nonnull=True) for n in ("base_criterion", "adapt_criterion", "reg")}
    ins, st = e.instance(c, {**P, "train_on_target": e.const(on_target)})
    init = c.find("__init__")
    for n in ("base_criterion", "adapt_criterion", "reg"):
        if init is not None and n not in init.all_params:
            return
    V = {}
    for n in SLOTS:
        if n in missing:
            V[n] = e.const(None)
            continue
        V[n] = e.param(n, nonnull=True, array=True, role="data")
        R.seeds[V[n].id] = RV("dom", ALL, None, None) if n == "sample_domain" else arr(ALL)
    y = e.param("y_true", nonnull=True, array=True, role="data")
    R.seeds[y.id] = arr(ALL)
    slot = {V[n].id: n for n in SLOTS if n not in missing}
    slot[y.id] = "y"
    fi = c.find("forward")
    pos = [p for p in fi.params if p != "self"]
    if len(pos) < 2:
        return
    r, st = e.run(fi, {pos[0]: e.mk("tuple", tuple(V[n] for n in SLOTS)), pos[1]: y}, self_node=ins, st=st, phase="forward")
    ctx.analysed(e)
    con = f"{c.full}.forward(train_on_target={on_target}{', without ' + missing[0] if missing else ''})"
    calls = [ev.node for ev in e.events if ev.kind == "call" and ev.node is not None]
    base = [n for n in calls if n.args[0].root is P["base_criterion"]]
    adapt = [n for n in calls if n.args[0].root is P["adapt_criterion"]]
    rows = R.rows

    def what(v):
        """(slots, roles) of a value"""
        s = {slot[m.id] for m in reach(v, stop={i for i in indexes(v)}) if m.id in slot}
        return s, {role(x.rows) for x in rows.get(v) if x.rows is not None}

    want = "TGT" if on_target else "SRC"
    if not base:
        ctx.und("base", con, None, "call of the base criterion not found")
    for n in base:
        a = args_of(n, ("input", "target"))
        if len(a) < 2:
            ctx.und("base", con, n.site, "arguments not known")
            continue
        good = True
        for v, name in zip(a, ("y_pred", "y")):
            s, ro = what(v)
            if s and s <= set(SLOTS) | {"y"} and name not in s:
                ctx.bad("base", con, n.site, f"the base loss gets {', '.join(sorted(s))} as {'predictions' if name == 'y_pred' else 'labels'}")
                good = False
            elif badsign(rows, v):
                ctx.bad("base", con, n.site, "sources (label >= 0) are not separated from targets (label < 0)")
                good = False
            elif ro and ro <= {OTHER[want], "ALL"} or any(x.rows is not None and (x.rows == ALL or differ(x.rows, ("sel", ALL, want))) for x in rows.get(v)):
                ctx.bad("base", con, n.site, f"the base loss gets {'labels' if name == 'y' else 'predictions'} that are not those of {WORD[want]} samples")
                good = False
            elif ro != {want}:
                ctx.und("base", con, n.site, "samples not known")
                good = False
        if good:
            ctx.ok("base", con)
    if not adapt:
        ctx.und("slots", con, None, "call of the adaptation criterion not found")
    for n in adapt:
        good = True
        for k, v in n.kw.items():
            if v.op == "const" and v.val is None:
                stem0 = k[:-2] if k[-2:] in ("_s", "_t") else k
                if (stem0 if stem0 != "y" else "y") not in missing and stem0 in SLOTS + ("y",):
                    ctx.bad("slots", con, n.site, f"the adaptation loss gets no {k}")
                    good = False
                continue
            stem, want2 = (k[:-2], "SRC" if k.endswith("_s") else "TGT") if k[-2:] in ("_s", "_t") else (k, None)
            if stem not in SLOTS + ("y",) or want2 is None:
                continue
            s, ro = what(v)
            if s and stem not in s:
                ctx.bad("slots", con, n.site, f"{k} is taken from {', '.join(sorted(s))}")
                good = False
            elif badsign(rows, v):
                ctx.bad("slots", con, n.site, "sources (label >= 0) are not separated from targets (label < 0)")
                good = False
            elif OTHER[want2] in ro or any(x.rows is not None and (x.rows == ALL or differ(x.rows, ("sel", ALL, want2))) for x in rows.get(v)):
                ctx.bad("slots", con, n.site, f"{k} is not made of {WORD[want2]} samples")
                good = False
            elif ro - {want2} or not ro:
                ctx.und("slots", con, n.site, f"samples of {k} not known")
                good = False
        if good:
            ctx.ok("slots", con)
    total(ctx, e, con, fi, r, base, adapt, P["reg"])


def badsign(rows, v):
    return any(x.rows is not None and "'badsign'" in str(x.rows) for x in rows.get(v))


def indexes(v):
    """ids of nodes used only as an index"""
    out = set()
    for m in reach(v):
        if m.op == "sub":
            out |= {x.id for x in reach(m.args[1])}
    keep = set()
    todo = [v]
    seen = set()
    while todo:
        m = todo.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        keep.add(m.id)
        todo.extend(m.args[:1] if m.op == "sub" else m.args)
        todo.extend(m.kw.values())
    return out - keep


def args_of(n, names):
    a = [x for x in n.args[1:] if x.op != "star"]
    for k in names[len(a):]:
        if k in n.kw:
            a.append(n.kw[k])
    return a


def terms(e, n, T, d=0):
    """[(coefficients, sign, atom)] of a sum of products; T: what coefficients do not hold."""
    if n.id in T or d > 12:
        return [((), 1, n)]
    if n.op in ("bin", "aug") and n.val in ("Add", "Sub") and len(n.args) >= 2:
        sg = -1 if n.val == "Sub" else 1
        return terms(e, n.args[0], T, d + 1) + [(c, s * sg, a) for c, s, a in terms(e, n.args[1], T, d + 1)]
    if n.op in ("bin", "aug") and n.val in ("Mult", "Div") and len(n.args) >= 2:
        a, b = n.args[:2]
        ia, ib = (any(m.id in T for m in reach(x)) for x in (a, b))
        if ia and not ib:
            if n.val == "Mult" and b.op == "const" and b.val == 1:
                return terms(e, a, T, d + 1)
            return [(c + ((n.val, b),), s, x) for c, s, x in terms(e, a, T, d + 1)]
        if ib and not ia and n.val == "Mult":
            if a.op == "const" and a.val == 1:
                return terms(e, b, T, d + 1)
            return [(c + (("Mult", a),), s, x) for c, s, x in terms(e, b, T, d + 1)]
    if n.op == "unary" and n.val == "USub":
        return [(c, -s, a) for c, s, a in terms(e, n.args[0], T, d + 1)]
    return [((), 1, n)]


def total(ctx, e, con, fi, r, base, adapt, reg):
    if not base or not adapt:
        return
    bi, ai = {n.id for n in base}, {n.id for n in adapt}
    for alt in flat_alts(r):
        ts = terms(e, alt, bi | ai)
        b = [(c, s) for c, s, a in ts if a.id in bi]
        p = [(c, s) for c, s, a in ts if a.id in ai]
        rest = [a for c, s, a in ts if a.id not in bi | ai and any(m.id in bi | ai for m in reach(a))]
        if rest:
            ctx.und("penalty", con, None, "total loss of unknown form")
        elif len(p) != 1 or len(b) != 1:
            ctx.bad("penalty", con, alt.site or fi.full, f"the total loss has the base loss {len(b)} times and the adaptation loss {len(p)} times")
        elif b[0][1] < 0 or any(own(q, reg) for q in b[0][0]):
            ctx.bad("penalty", con, alt.site or fi.full, "the base loss is scaled or subtracted")
        elif p[0][1] < 0 or not p[0][0] or any(own(q, reg) and (q[0] != "Mult" or q[1].root is not reg) for q in p[0][0]) or sum(q[1].root is reg for q in p[0][0]) != 1 and all(own(q, reg) for q in p[0][0]):
            ctx.bad("penalty", con, alt.site or fi.full, "the adaptation loss does not enter with the weight that was configured")
        elif b[0][0] or len(p[0][0]) != 1:
            ctx.und("penalty", con, None, "weights of the losses not known")
        else:
            ctx.ok("penalty", con)


def own(q, reg):
    """A coefficient made of numbers and of the configured weight."""
    leafs = [m for m in reach(q[1]) if not m.args and m.op != "ext"]
    return all(m.op == "const" or m.root is reg for m in leafs)


# ------------------------------------------------------------------ network
def module(ctx, c):
    fi = c.find("forward")
    init = c.find("__init__")
    if fi is None or init is None or not {"is_fit", "return_features"} <= set(fi.all_params):
        return
    for fit, feats in ((True, False), (False, True), (False, False)):
        R = Run(ctx.p)
        e = R.e
        P = {n: e.param(n, nonnull=True) for n in init.all_params if n != "self"}
        ins, st = e.instance(c, P)
        V = {n: e.param(n, nonnull=True, array=True, role="data") for n in fi.all_params if n not in ("self", "is_fit", "return_features")}
        r, st = e.run(fi, {**V, "is_fit": e.const(fit), "return_features": e.const(feats)}, self_node=ins, st=st, phase="forward")
        ctx.analysed(e)
        con = f"{c.full}.forward(is_fit={fit}, return_features={feats})"
        bm, dc, ln = P.get("base_module"), P.get("domain_classifier"), P.get("layer_name")
        x = V.get(next((p for p in fi.params if p != "self"), ""))

        def is_pred(n):
            return n.op == "call" and n.args[0].root is bm

        def is_feat(n):
            return n.op == "sub" and n.args[1].root is ln

        for alt in flat_alts(r):
            if fit:
                if alt.op != "tuple":
                    ctx.und("module", con, None, "result of unknown form")
                    continue
                if len(alt.args) != 5:
                    ctx.bad("module", con, alt.site or fi.full, f"returns {len(alt.args)} values, the criterion takes five")
                    continue
                p, d, f, sd, si = alt.args
                if any(is_pred(q) for q in flat_alts(p)):
                    ctx.ok("module", con)
                elif any(is_feat(q) or q.op == "call" and q.args[0].root is dc or q.root in V.values() for q in flat_alts(p)):
                    ctx.bad("module", con, alt.site or fi.full, "the first value is not the prediction of the network")
                if any(is_pred(q) or is_feat(q) or q.root in V.values() for q in flat_alts(d)):
                    ctx.bad("module", con, alt.site or fi.full, "the second value is not the prediction of the domain classifier")
                for q in flat_alts(d):
                    if q.op == "call" and q.args[0].root is dc and not any(is_feat(m) for a in q.args[1:] for m in reach(a)):
                        if any(m.root is x or is_pred(m) for a in q.args[1:] for m in reach(a)):
                            ctx.bad("module", con, q.site, "the domain classifier does not get the features of the chosen layer")
                if any(is_pred(q) or q.op == "call" and q.args[0].root is dc or q.root in V.values() for q in flat_alts(f)):
                    ctx.bad("module", con, alt.site or fi.full, "the third value is not made of the features of the chosen layer")
                for v, n in ((sd, "sample_domain"), (si, "sample_idx")):
                    if n in V and v.root is not V[n] and (v.root in V.values() or v.op == "const" or is_pred(v) or is_feat(v)):
                        ctx.bad("module", con, alt.site or fi.full, f"{n} is not handed on in its place")
            else:
                if alt.op == "tuple" and len(alt.args) == 5:
                    ctx.bad("module", con, alt.site or fi.full, "the pieces of the training loss are returned outside of fitting")
                    continue
                if any(m.op == "call" and m.args[0].root is dc for m in reach(alt)):
                    ctx.bad("module", con, alt.site or fi.full, "the domain classifier takes part outside of fitting")
                    continue
                if feats:
                    if alt.op == "tuple" and len(alt.args) == 2 and is_feat(alt.args[0]) and is_pred(alt.args[1]):
                        ctx.bad("module", con, alt.site or fi.full, "features and predictions are returned in each other's place")
                    else:
                        ctx.ok("module", con)
                elif is_feat(alt) or alt.op == "tuple":
                    ctx.bad("module", con, alt.site or fi.full, "does not return the prediction alone")
                else:
                    ctx.ok("module", con)
            calls = [m for m in reach(alt) if is_pred(m)]
            for m in calls:
                a = args_of(m, ())
                if a and a[0].root is not x and a[0].root in V.values():
                    ctx.bad("module", con, m.site, "the network does not get the features of the samples")
        calls = [ev.node for ev in e.events if ev.kind == "call" and ev.node is not None and is_pred(ev.node)]
        if fit and calls and "sample_weight" in V:
            if not any(a.root is V["sample_weight"] for m in calls for a in list(m.args[1:]) + list(m.kw.values())):
                ctx.bad("module", con + ": weights", calls[0].site, "the weights of the samples are not handed to the network")
            else:
                ctx.ok("module", con + ": weights")


# ------------------------------------------------------------------ adaptation losses
def side(name):
    for s, r in (("_s", "SRC"), ("_t", "TGT"), ("_source", "SRC"), ("_target", "TGT")):
        if name.endswith(s):
            return r
    return {"s": "SRC", "t": "TGT", "source": "SRC", "target": "TGT", "Xs": "SRC", "Xt": "TGT", "ys": "SRC", "yt": "TGT"}.get(name)


def filled(n):
    """The constant an array is filled with."""
    if n.op != "call":
        return None
    t = (callee_name(n) or "").split(".")[-1]
    if n.args[0].op == "attr" and n.args[0].args[0].op != "ext":
        return filled(n.args[0].args[0]) if t in ("to", "float", "long", "double", "type", "unsqueeze", "view", "reshape") else None
    if t.startswith("zeros"):
        return 0
    if t.startswith("ones"):
        return 1
    if t in ("full", "full_like"):
        v = n.args[2] if len(n.args) > 2 else n.kw.get("fill_value")
        return v.val if v is not None and v.op == "const" and isinstance(v.val, (int, float)) else None
    return None


def loss(ctx, c):
    fi = c.find("forward")
    if fi is None or fi.cls is None or fi.cls.name == "BaseDALoss":
        return
    R = Run(ctx.p)
    e = R.e
    ins, st = e.instance(c)
    V = {}
    for n in fi.all_params:
        if n == "self":
            continue
        V[n] = e.param(n, nonnull=True, array=True, role="data")
        if side(n):
            R.seeds[V[n].id] = arr(("sel", ALL, side(n)))
    kn = None
    if fi.kwarg:
        rest = {}
        for n in [f"{a}{b}" for a in ("y_pred", "domain_pred", "features", "sample_idx") for b in ("_s", "_t")] + ["y_s"]:
            if n not in V:
                rest[n] = e.param(n, nonnull=True, array=True, role="data")
                R.seeds[rest[n].id] = arr(("sel", ALL, side(n)))
        kn = e.mk("dict", tuple(rest.values()), val=list(rest.items()))
    r, st = e.run(fi, V, self_node=ins, st=st, phase="forward", kwargs_node=kn)
    if kn is not None:
        V.update(rest)
    ctx.analysed(e)
    rows = R.rows
    con = f"{c.full}.forward"

    def sides(v):
        got = {role(x.rows) for x in rows.get(v) if x.rows is not None and x.kind in ("arr", "idx", "dom", "mask")}
        return got if got <= {"SRC", "TGT"} and all(x.rows is not None for x in rows.get(v)) else set()

    def leafs(v):
        """Roles of the data a value is made of."""
        return {side(m.val) for m in reach(v) if m.op == "param" and m.id in {q.id for q in V.values()} and side(m.val)}

    n = 0
    for ev in e.events:
        # functions of the public interface say by name whose samples they take
        if ev.kind == "enter" and isinstance(ev.value, dict) and ev.name != fi.full and not ev.name.split(":")[-1].split(".")[-1].startswith("_"):
            for k, v in ev.value.items():
                k = k[1] if isinstance(k, tuple) else k
                if not isinstance(v, Node) or not isinstance(k, str) or side(k) is None:
                    continue
                L = leafs(v)
                n += 1
                if L == {OTHER[side(k)]}:
                    ctx.bad("loss", f"{con}: {ev.name.split(':')[-1]}({k})", ev.site, f"{k} is made of {WORD[OTHER[side(k)]]} samples")
                elif L:
                    ctx.ok("loss", f"{con}: {ev.name.split(':')[-1]}({k})")
    labels = {}
    for ev in e.events:
        if ev.kind != "call" or ev.node is None:
            continue
        cal = ev.node.args[0]
        nm = (callee_name(ev.node) or "")
        a = args_of(ev.node, ("input", "target"))
        if len(a) != 2 or not (cal.op in ("param", "attr", "attr0", "phi", "inst") or nm.endswith("Loss") or "criterion" in nm.lower() or cal.op == "call"):
            continue
        if cal.op == "attr" and cal.val not in ("forward", "__call__") and "criterion" not in cal.val.lower():
            continue
        s0, s1 = sides(a[0]), sides(a[1])
        fill = filled(a[1])
        if fill is not None:
            L = leafs(a[0])
            if len(L) == 1:
                labels.setdefault(next(iter(L)), set()).add(fill)
            w = rows.get(a[1])
            ln = {x.rows[1] for x in w if x.rows is not None and x.rows[0] == "fresh" and x.rows[1] is not None}
            if len(s0) == 1 and ln and all(role(q) == OTHER[next(iter(s0))] for q in ln):
                ctx.bad("loss", f"{con}: domain labels", ev.site, f"the domain labels of {WORD[next(iter(s0))]} samples are as many as the samples of the other domain")
            continue
        if len(s0) == 1 and len(s1) == 1:
            ctx.check(s0 == s1, "loss", f"{con}: pairs at {nm or 'criterion'}", ev.site, f"predictions of {WORD[next(iter(s0))]} samples are compared with labels of {WORD[next(iter(s1))]} samples")
    if {"SRC", "TGT"} <= set(labels):
        ctx.check(not labels["SRC"] & labels["TGT"], "loss", f"{con}: domain labels", fi.full, "source and target samples get the same domain label")
    both(ctx, e, R, con, fi, r, V, leafs)
    crossed(ctx, e, st, con, V)
    if not n and not labels:
        ctx.und("loss", con, None, "no paired samples found")


SHAPES = {"y": 1, "sample_idx": 1, "y_pred": "K", "features": "F", "domain_pred": "*"}


def crossed(ctx, e, st, con, V):
    """Tables over samples of the two batches: the axis of the source samples never meets the
    one of the target samples, or of the classes, in arithmetic, in a product, in a mask."""
    seeds = {}
    for nm, v in V.items():
        w = {"SRC": "S", "TGT": "T"}.get(side(nm))
        k = SHAPES.get(nm[:-2])
        if w and k:
            seeds[v.id] = (w,) if k == 1 else (w, k)
        elif nm in ("memory_features", "memory_outputs"):
            seeds[v.id] = ("M", nm[7].upper() if nm[7] == "f" else "K")
    A = Axes(e, st, seeds)
    k = 0
    for ev in e.events:
        if ev.kind == "setitem" and ev.base is not None and ev.index is not None:
            A.stored(ev.value, ev.base, ev.index)
        if ev.node is not None and ev.node.op in ("bin", "cmp", "call", "sub", "aug", "attr"):
            k += A.get(ev.node) not in (None, ())
    for n, msg in A.found.values():
        ctx.bad("axes", f"{con}: {n.site.func if n.site else ''}", n.site, msg)
    if not A.found:
        ctx.ok("axes", f"{con} ({k} tensors with known axes)")


def both(ctx, e, R, con, fi, r, V, leafs):
    """The penalty depends on the samples of both domains it takes, and where the samples of one
    domain are compared with each other and with those of the other one, so are the latter."""
    for alt in flat_alts(r):
        if alt.op == "const" or any(m.op == "unknown" for m in reach(alt)):
            continue
        L = leafs(alt)
        took = {side(m.val) for m in V.values() if side(m.val) and m.val in fi.all_params}
        for s in took - L:
            if L:
                ctx.bad("loss", f"{con}: both domains", alt.site or fi.full, f"the penalty does not depend on the {WORD[s]} samples")
        if L == took:
            ctx.ok("loss", f"{con}: both domains")
    pairs = {}
    for ev in e.events:
        if ev.kind == "call" and ev.node is not None and ev.node.args[0].op != "inst":
            a, nm = ev.node.args[1:3], callee_name(ev.node) or ""
        elif ev.kind == "enter" and isinstance(ev.value, dict):
            a = [v for k, v in ev.value.items() if isinstance(v, Node)][:2]
            nm = ev.name
        else:
            continue
        if len(a) != 2 or not all(isinstance(x, Node) for x in a) or nm.split(".")[-1].startswith("_maximum"):
            continue
        s = [leafs(x) for x in a]
        if all(len(x) == 1 for x in s):
            pairs.setdefault(nm, {}).setdefault(tuple(next(iter(x)) for x in s), ev.site)
    for nm, g in pairs.items():
        for s in ("SRC", "TGT"):
            o = OTHER[s]
            if (s, s) in g and (o, o) not in g and ((s, o) in g or (o, s) in g):
                ctx.bad("loss", f"{con}: both domains", g.get((s, o)) or g[(o, s)], f"{nm.split(':')[-1]} compares {WORD[s]} samples with themselves and with the others, but {WORD[o]} samples not with themselves")


# ------------------------------------------------------------------ samplers
def cond_role(conds):
    """The role a filter on domain labels lets through."""
    out = set()
    for c, pol in conds:
        while c.op == "unary" and c.val == "Not":
            c, pol = c.args[0], not pol
        if c.op != "cmp" or c.val not in ("GtE", "Gt", "Lt", "LtE") or len(c.args) != 2:
            continue
        a, b, op = c.args[0], c.args[1], c.val
        if b.op != "const" and a.op == "const":
            a, b, op = b, a, {"GtE": "LtE", "Gt": "Lt", "Lt": "Gt", "LtE": "GtE"}[op]
        if b.op != "const" or not any(m.op == "const" and m.val == "sample_domain" or m.op in ("attr", "attr0") and m.val == "sample_domain" for m in reach(a)):
            continue
        v = b.val
        if not isinstance(v, (int, float)) or isinstance(v, bool):
            continue
        if (op == "GtE" and -1 < v <= 0) or (op == "Gt" and -1 <= v < 0):
            got = "SRC"
        elif (op == "Lt" and -1 < v <= 0) or (op == "LtE" and -1 <= v < 0):
            got = "TGT"
        else:
            out.add("BAD")
            continue
        out.add(got if pol else OTHER[got])
    return out


def list_roles(e, n, st):
    """Roles of the samples whose positions a list holds."""
    n = e.cur(n, st)
    out = set()
    for m in flat_alts(n):
        if m.op == "comp":
            out |= cond_role((m.extra or {}).get("conds") or ()) or {"?"}
        elif m.op in ("loop", "update", "list"):
            got = set()
            for ev in e.events:
                if ev.kind == "mutcall" and ev.name == "append" and ev.base is not None and ev.base.root is m.root:
                    got |= cond_role([(g[0], g[1]) for g in ev.guards if len(g) >= 2]) or {"?"}
            out |= got or {"?"}
        else:
            out.add("?")
    return out


def sampler(ctx, c, opt, val):
    R = Run(ctx.p)
    e = R.e
    ds, bs = e.param("dataset", nonnull=True), e.param("batch_size", nonnull=True)
    ins, st = e.instance(c, {"dataset": ds, "batch_size": bs, opt: e.const(val)})
    fi = c.find("__iter__")
    if fi is None:
        return None
    mark = len(e.events)
    r, st = e.run(fi, {}, self_node=ins, st=st, phase="iter")
    ctx.analysed(e)
    ys = [ev for ev in e.events[mark:] if ev.kind == "yield"]
    return R, e, ins, st, ys


RAW = object()


def drawn(e, n, st=None):
    """[(list indexed, list whose positions are drawn)] of a yielded position."""
    out = []
    for m in flat_alts(n):
        if m.op != "sub":
            raw = (m.op == "elem" or m.op == "call" and callee_name(m) == "builtins.next") and [q for q in reach(m) if q.op == "call" and (callee_name(q) or "").split(".")[-1] == "RandomSampler"]
            out.append((RAW if raw and all(len(q.args) > 1 and list_roles(e, q.args[1], st) & {"SRC", "TGT"} for q in raw) else None, None))
            continue
        pools = [q.args[1] for q in reach(m.args[1]) if q.op == "call" and (callee_name(q) or "").endswith("RandomSampler") and len(q.args) > 1]
        out.append((m.args[0], pools))
    return out


def yields(ctx, c, con, got):
    """[(roles, event)] of what is yielded, checked for positions of another list."""
    R, e, ins, st, ys = got
    out = []
    for ev in ys:
        rs = set()
        for lst, pools in drawn(e, ev.node, st):
            if lst is None:
                rs.add("?")
                continue
            if lst is RAW:
                ctx.bad("sampler", con, ev.site, "a position in the list of the samples of a domain is taken for a position in the dataset")
                rs.add("?")
                continue
            mine = list_roles(e, lst, st)
            rs |= mine
            for p in pools or ():
                pr = list_roles(e, p, st)
                if len(mine) == 1 and len(pr) == 1 and "?" not in mine | pr and mine != pr:
                    ctx.bad("sampler", con, ev.site, f"positions drawn among {WORD.get(next(iter(pr)), 'other')} samples are looked up among {WORD.get(next(iter(mine)), 'other')} samples")
        if "BAD" in rs:
            ctx.bad("sampler", con, ev.site, "the filter does not separate sources (label >= 0) from targets (label < 0)")
        out.append((rs, ev))
    return out


def balanced(ctx, c):
    for opt in ("max", "min", "source", "target"):
        got = sampler(ctx, c, "max_samples", opt)
        if got is None:
            return
        R, e, ins, st, ys = got
        con = f"{c.full}(max_samples={opt})"
        out = yields(ctx, c, con, got)
        if any("?" in rs for rs, _ in out) or not out:
            ctx.und("sampler", con, None, "what is drawn is not known")
        else:
            n = {r: sum(1 for rs, _ in out if rs == {r}) for r in ("SRC", "TGT")}
            if all(len(rs) == 1 for rs, _ in out):
                same = len({tuple((g[0].id, g[1]) for g in ev.guards) for _, ev in out}) == 1
                if n["SRC"] == n["TGT"]:
                    ctx.ok("sampler", con)
                elif same or not n["SRC"] or not n["TGT"]:
                    ctx.bad("sampler", con, out[0][1].site, f"draws {n['SRC']} source samples for {n['TGT']} target samples")
                else:
                    ctx.und("sampler", con, None, "numbers of samples not compared")
            else:
                ctx.und("sampler", con, None, "what is drawn is not known")
        size(ctx, con, e, ins, st, opt)
        length(ctx, c, con, got)


def size(ctx, con, e, ins, st, opt):
    """The number of samples follows the domain that was asked for."""
    n = st.heap.get((ins.val, "num_samples"))
    if n is None:
        return
    if opt in ("max", "min"):
        t = [q for q in flat_alts(n) if q.op == "call" and callee_name(q) in ("builtins.max", "builtins.min")]
        if t and len(t) == len(list(flat_alts(n))):
            ctx.check(all(callee_name(q) == f"builtins.{opt}" for q in t), "sampler", con + ": size", n.site, f"the number of samples does not follow the {'larger' if opt == 'max' else 'smaller'} domain")
        return
    rs = set()
    for m in reach(n):
        if m.op == "call" and callee_name(m) == "builtins.len" and len(m.args) > 1:
            rs |= list_roles(e, m.args[1], st)
    want = {"source": "SRC", "target": "TGT"}[opt]
    if rs == {want}:
        ctx.ok("sampler", con + ": size")
    elif rs == {OTHER[want]} or rs == {"SRC", "TGT"}:
        ctx.bad("sampler", con + ": size", n.site, f"the number of samples does not follow the {opt} samples")
    else:
        ctx.und("sampler", con + ": size", None, "number of samples not known")


def length(ctx, c, con, got):
    """As many samples are announced as are drawn."""
    R, e, ins, st, ys = got
    fi, it = c.find("__len__"), c.find("__iter__")
    if fi is None or not ys:
        return
    r, _ = e.run(fi, {}, self_node=ins, st=st, phase="len")
    n = st.heap.get((ins.val, "num_samples"))
    loops = [x for x in ast.walk(it.node) if isinstance(x, ast.For)]
    if n is None or len(loops) != 1 or any(isinstance(x, (ast.While, ast.Break, ast.Continue, ast.YieldFrom)) for x in ast.walk(it.node)):
        return ctx.und("sampler", con + ": length", None, "number of turns not known")
    turns = [q for q in e.events if q.phase == "iter" and q.kind == "call" and callee_name(q.node) == "builtins.range" and len(q.node.args) == 2]
    inside = {id(y) for y in ast.walk(loops[0])}
    made = [y for y in ast.walk(it.node) if isinstance(y, ast.Yield)]
    ifs = [x for x in ast.walk(loops[0]) if isinstance(x, ast.If) and any(isinstance(y, ast.Yield) for y in ast.walk(x))]
    if not turns or any(times(q.node.args[1], n) is None for q in turns) or not all(id(y) in inside for y in made) or ifs or any(isinstance(x, ast.For) and x is not loops[0] for x in ast.walk(loops[0])):
        return ctx.und("sampler", con + ": length", None, "number of turns not known")
    k, w = times(r, n), times(turns[0].node.args[1], n)
    if k is None:
        ctx.und("sampler", con + ": length", None, "length not known")
    else:
        ctx.check(k == w * len(made), "sampler", con + ": length", r.site or fi.full, f"announces {k} samples a turn and draws {w * len(made)}")


def times(v, n):
    """k with v = k * n."""
    if v is n or len(list(flat_alts(v))) == 1 and next(iter(flat_alts(v))) is n:
        return 1
    if v.op == "bin" and v.val == "Mult":
        for a, b in (v.args[:2], v.args[1::-1]):
            if a.op == "const" and isinstance(a.val, int) and times(b, n) is not None:
                return a.val * times(b, n)
    if v.op == "bin" and v.val == "Add":
        a, b = times(v.args[0], n), times(v.args[1], n)
        return None if a is None or b is None else a + b
    return None


def single(ctx, c):
    for opt, want in (("source", "SRC"), ("target", "TGT")):
        got = sampler(ctx, c, "domain_used", opt)
        if got is None:
            return
        con = f"{c.full}(domain_used={opt})"
        out = yields(ctx, c, con, got)
        if not out or any("?" in rs or not rs for rs, _ in out):
            ctx.und("sampler", con, None, "what is drawn is not known")
        elif all(rs == {want} for rs, _ in out):
            ctx.ok("sampler", con)
        else:
            ctx.bad("sampler", con, out[0][1].site, f"draws samples that are not {opt} samples")
        length(ctx, c, con, got)


def factories(ctx, only, crits):
    """Where a net is made that draws from one domain only, that is the domain it is trained on."""
    for f in ctx.scoped(ctx.p.functions()):
        if f.cls is not None or not f.module.name.startswith("skada.deep"):
            continue
        for q in ast.walk(f.node):
            if not isinstance(q, ast.Call):
                continue
            kw = {k.arg: k.value for k in q.keywords if k.arg}
            du = kw.get("iterator_train__domain_used")
            if not isinstance(du, ast.Constant) or du.value not in ("source", "target"):
                continue
            on = kw.get("criterion__train_on_target")
            if on is not None and not isinstance(on, ast.Constant):
                continue
            on = on.value if on is not None else False
            ctx.check(bool(on) == (du.value == "target"), "base", f"{f.full}: domain trained on", f"{f.module.rel}:{q.lineno} {f.full}", f"draws {du.value} samples and trains on the others")


# ------------------------------------------------------------------ estimator
def net(ctx, c):
    for m in ("fit", "predict", "predict_proba", "predict_features", "score"):
        fi = c.find(m)
        if fi is None or fi.module.name.split(".")[0] != "skada":
            continue
        R = Run(ctx.p)
        e = R.e
        ins, st = e.instance(c)
        V = {n: e.param(n, nonnull=True, array=True, role="data") for n in fi.all_params if n != "self"}
        r, st = e.run(fi, V, self_node=ins, st=st, phase=m, kwargs_node=e.mk("dict", (), val=[]) if fi.kwarg else None)
        ctx.analysed(e)
        con = f"{c.full}.{m}"
        flags = [ev for ev in e.events if ev.kind == "call" and ev.node is not None and "is_fit" in ev.node.kw]
        on = [ev for ev in flags if not (ev.node.kw["is_fit"].op == "const" and ev.node.kw["is_fit"].val is False)]
        if m == "fit":
            if not any(ev.node.kw["is_fit"].op == "const" and ev.node.kw["is_fit"].val is True for ev in flags):
                ups = [ev for ev in e.events if ev.kind == "call" and ev.node is not None and (callee_name(ev.node) or "").split(".")[-1] in ("fit", "fit_loop", "partial_fit")]
                if ups and all("**" not in ev.node.kw for ev in ups):
                    ctx.bad("flag", con, ups[0].site, "fitting mode is not asked for while fitting")
                else:
                    ctx.und("flag", con, None, "fitting mode not known")
            else:
                ctx.ok("flag", con)
        else:
            ctx.check(not on, "flag", con, on[0].site if on else None, "fitting mode is asked for outside of fitting")
    scored(ctx, c)
    fi = c.find("get_loss")
    if fi is None:
        return
    R = Run(ctx.p)
    e = R.e
    ins, st = e.instance(c)
    w = e.param("sample_weight", nonnull=True, array=True, role="data")
    d = e.param("sample_domain", nonnull=True, array=True, role="data")
    R.seeds[w.id], R.seeds[d.id] = arr(ALL), RV("dom", ALL, None, None)
    X = e.mk("dict", (d, w), val=[("sample_domain", d), ("sample_weight", w)])
    pos = [p for p in fi.params if p != "self"]
    V = {p: e.param(p, nonnull=True) for p in pos}
    if "X" not in V:
        return
    V["X"] = X
    r, st = e.run(fi, V, self_node=ins, st=st, phase="get_loss", kwargs_node=e.mk("dict", (), val=[]) if fi.kwarg else None)
    ctx.analysed(e)
    con = f"{c.full}.get_loss"
    inside = {q.id for q in reach(r) if q.op == "call" and any(a is X for a in list(q.args) + list(q.kw.values()))}
    used = 0
    for m in reach(r):
        if m.op in ("bin", "aug") and m.val in ("Mult", "Div"):
            for a in m.args[:2]:
                if not any(q.id == w.id for q in reach(a)):
                    continue
                b = m.args[1 - [id(q) for q in m.args[:2]].index(id(a))]
                if m.val == "Mult" and a.op == "call" and (callee_name(a) or "").split(".")[-1] in ("mean", "sum", "max", "min", "median", "nanmean") and not a.kw and any(q.id in inside for q in reach(b)) and not any(q.id in inside for q in reach(a)) and not any(q.id == w.id for q in reach(b, stop=inside)):
                    used += 1
                    ctx.bad("weights", con, m.site, "all samples weigh the same: their losses are multiplied by one number made from the weights")
                    continue
                for x in R.rows.get(a):
                    if x.rows is None or x.kind != "arr":
                        continue
                    used += 1
                    other = m.args[1 - [id(q) for q in m.args[:2]].index(id(a))]
                    if m.val == "Div" and not any(q.id == w.id for q in reach(other, stop=inside)) and any(q.id in inside for q in reach(other)):
                        ctx.bad("weights", con, m.site, "the losses of samples are divided by their weights, or the other way round")
                        continue
                    if x.rows == ALL or role(x.rows) == "TGT":
                        ctx.bad("weights", con, m.site, "the losses of source samples are weighted with weights of other samples")
                    elif role(x.rows) == "SRC":
                        ctx.ok("weights", con)
    if not any(q.id == w.id for q in reach(r, stop=inside)):
        ctx.bad("weights", con, fi.full, "the weights of the samples are not used")
    elif not used:
        ctx.und("weights", con, None, "use of the weights not known")


def scored(ctx, c):
    """Labels and weights that enter the score are those of the samples that are predicted."""
    fi = c.find("score")
    data = [d for d in ctx.p.classes() if d.name == "DeepDADataset" and ctx.inscope(d)]
    if fi is None or fi.module.name.split(".")[0] != "skada" or "allow_source" not in fi.all_params or not data:
        return
    data = data[0]
    for allow in (False, True):
        R = Run(ctx.p)
        e = R.e
        ins, st = e.instance(c)
        V = {n: e.param(n, nonnull=True, array=True, role="data") for n in fi.all_params if n != "self"}
        for n, v in V.items():
            R.seeds[v.id] = RV("dom", ALL, None, None) if n == "sample_domain" else arr(ALL)
        V["allow_source"] = e.const(allow)
        V[fi.params[1]], st = dataset(R, data, st)
        e.run(fi, V, self_node=ins, st=st, phase="score", kwargs_node=e.mk("dict", (), val=[]) if fi.kwarg else None)
        ctx.analysed(e)
        con = f"{c.full}.score(allow_source={allow})"
        want = ("sel", ALL, "TGT")
        for ev in e.events:
            if ev.kind != "call" or ev.node is None or not (callee_name(ev.node) or "").endswith("_score"):
                continue
            if "sample_weight" in fi.all_params and "sample_weight" not in ev.node.kw and "**" not in ev.node.kw and len(ev.node.args) < 4:
                ctx.bad("score", con, ev.site, "the weights given do not enter the score")
            for what, v in (("labels", ev.node.args[1] if len(ev.node.args) > 1 else None), ("weights", ev.node.kw.get("sample_weight"))):
                if v is None or v.op == "const":
                    continue
                got = [x.rows for x in R.rows.get(v) if x.kind == "arr" and x.rows is not None]
                if not got:
                    ctx.und("score", con, ev.site, f"samples of the {what} not known")
                    continue
                bad = [r for r in got if (allow or r != ALL) and differ(r, ALL if allow else want)]
                ctx.check(not bad and (allow or set(got) != {ALL}), "score", con, ev.site, f"the {what} are not those of the samples that are scored")


def dataset(R, c, st):
    """A dataset of symbols."""
    e = R.e
    ins, _ = e.instance(c, run_init=False)
    for s in ("X", "y", "sample_domain", "sample_weight", "_sample_idx", "has_y"):
        n = e.param(f"{s}<data>", nonnull=True, array=True, role="data")
        R.seeds[n.id] = RV("dom", ALL, None, None) if s == "sample_domain" else RV("mask", ALL, ("k", "labelled"), ALL) if s == "has_y" else arr(ALL)
        st.heap[(ins.val, s)] = n
    st.heap[(ins.val, "has_weights")] = e.const(True)
    st.heap[(ins.val, "device")] = e.const("cpu")
    st.heap[(ins.val, "allow_label_masks")] = e.const(True)
    return ins, st


def callback(ctx, c, nets):
    """What a callback learns from the samples of one domain is named and stored as such."""
    data = [d for d in ctx.p.classes() if d.name == "DeepDADataset"]
    nets = [d for d in nets or ctx.p.classes() if d.name == "DomainAwareNet"] or [d for d in ctx.p.classes() if d.name == "DomainAwareNet"]
    if not data or not nets:
        return
    stores, sizes = {}, {}
    for m in ("on_train_begin", "on_epoch_begin", "on_epoch_end", "on_batch_begin", "on_batch_end", "on_train_end"):
        fi = c.methods.get(m)
        if fi is None:
            continue
        R = Run(ctx.p)
        e = R.e
        ins, st = e.instance(c)
        net, _ = e.instance(nets[0], run_init=False)
        V = {n: e.param(n, nonnull=True) for n in fi.all_params if n not in ("self", fi.vararg, fi.kwarg)}
        if "net" in V:
            V["net"] = net
        ds = labels = None
        for n in ("X", "dataset_train"):
            if n in V:
                V[n], st = dataset(R, data[0], st)
                labels = st.heap[(V[n].val, "y")]
        if "batch" in V:
            it = {}
            for s in ("X", "sample_domain", "sample_idx", "sample_weight"):
                it[s] = e.param(s, nonnull=True, array=True, role="data")
                R.seeds[it[s].id] = RV("dom", ALL, None, None) if s == "sample_domain" else arr(ALL)
            labels = e.param("y", nonnull=True, array=True, role="data")
            R.seeds[labels.id] = arr(ALL)
            V["batch"] = e.mk("tuple", (e.mk("dict", tuple(it.values()), val=list(it.items())), labels))
        e.run(fi, V, self_node=ins, st=st, phase=m, kwargs_node=e.mk("dict", (), val=[]) if fi.kwarg else None)
        ctx.analysed(e)
        rows = R.rows
        con = f"{c.full}.{m}"

        def drawn_from(v):
            return {role(x.rows) for q in deep(v) if q.op == "sub" for x in rows.get(q) if x.kind in ("arr", "idx") and x.rows is not None and x.rows != ALL} - {None}

        for ev in e.events:
            if ev.kind == "setattr" and ev.base is not None and ev.value is not None and not any(b.op == "inst" for b in flat_alts(ev.base)):
                own = [q for q in reach(ev.value) if q.op in ("attr", "attr0") and q.val == ev.name or q.op == "call" and callee_name(q) == "builtins.getattr" and len(q.args) > 2 and q.args[2].op == "const" and q.args[2].val == ev.name]
                if m == "on_train_begin":
                    ctx.check(not own, "callback", f"{con}({ev.name})", ev.site, f"{ev.name} starts with what an earlier training left there")
                for q in reach(ev.value):
                    for x in rows.get(q):
                        if x.kind == "count" and x.rows is not None:
                            sizes.setdefault(ev.name, []).append((x.rows, ev.site, con))
                    if q.op == "call" and callee_name(q) == "builtins.len":
                        for a in q.args[1:]:
                            for i in flat_alts(a):
                                v = st.heap.get((i.val, "sample_domain")) if i.op == "inst" else None
                                rs = {x.rows for w in flat_alts(v) for x in rows.get(w) if x.kind in ("arr", "dom") and x.rows is not None} if v is not None else set()
                                rs = {r for r in rs if role(r)} or rs & {ALL}
                                sizes.setdefault(ev.name, []).extend((r, ev.site, con) for r in rs)
            elif ev.kind == "setitem" and ev.base is not None and ev.index is not None:
                nm = [q.val for q in flat_alts(ev.base) if q.op in ("attr", "attr0")]
                if not nm:
                    continue
                xs = {x.rows for x in rows.get(ev.index) if x.kind in ("arr", "idx") and x.rows is not None}
                vs = drawn_from(ev.value)
                if "batch" in V and vs and not any(q.id == it["sample_idx"].id or q.op == "unknown" for q in reach(ev.index)):
                    ctx.bad("callback", f"{con}({nm[0]}): ids", ev.site, "what is learned from samples of the batch is not stored at their ids")
                for q in reach(ev.value):
                    if q.op == "sub" and any(b.op in ("attr", "attr0") and b.val == nm[0] for b in flat_alts(q.args[0])) and e.key(q.args[1]) != e.key(ev.index):
                        ctx.bad("callback", f"{con}({nm[0]}): ids", q.site or ev.site, "what was kept for some samples is mixed into what is kept for others")
                for r in xs:
                    stores.setdefault(nm[0], []).append((r, ev.site, con))
                    ends = [x.rows for q in reach(ev.value) if q.op == "sub" and any(b.val == "X" and b.op == "param" for b in flat_alts(q.args[0])) for x in rows.get(q) if x.kind == "arr" and x.rows is not None]
                    if role(r) and vs and role(r) not in vs or ends and all(differ(r, q) for q in ends):
                        ctx.bad("callback", f"{con}({nm[0]})", ev.site, "what is learned from some samples is stored at the positions of others")
                    elif role(r) and vs == {role(r)}:
                        ctx.ok("callback", f"{con}({nm[0]})")
            elif ev.kind == "enter" and labels is not None and ev.site is not None and ev.site.func == fi.qual and ev.name.endswith(".fit") and isinstance(ev.value, dict):
                given = [v for k, v in ev.value.items() if k != "self" and isinstance(v, Node)]
                for q in {q for q, r in (("target", "TGT"), ("source", "SRC")) if q in name_like(ev, fi)}:
                    want = {"target": "TGT", "source": "SRC"}[q]
                    got = drawn_from(given[0]) if given else set()
                    if len(got) == 1:
                        ctx.check(got == {want}, "callback", f"{con}: fit", ev.site, f"what is called {q} is learned from the {WORD[OTHER[want]]} samples")
            elif ev.kind == "call" and ev.node is not None and labels is not None:
                f = ev.node.args[0]
                if f.op == "attr" and f.val == "fit" and ev.site.func == fi.qual:
                    for q in {q for q, r in (("target", "TGT"), ("source", "SRC")) if q in name_like(ev, fi)}:
                        want = {"target": "TGT", "source": "SRC"}[q]
                        got = drawn_from(ev.node.args[1]) if len(ev.node.args) > 1 else set()
                        if len(got) == 1:
                            ctx.check(got == {want}, "callback", f"{con}: fit", ev.site, f"what is called {q} is learned from the {WORD[OTHER[want]]} samples")
        if labels is not None:
            bad = [ev for ev in e.events if ev.node is not None for q in [ev.node] if q.op == "sub" and labels in flat_alts(q.args[0]) and any(x.kind == "arr" and x.rows is not None and x.rows != ALL and role(x.rows) != "SRC" and x.rows[0] == "sel" for x in rows.get(q))]
            used = [ev for ev in bad if ev.node.op == "sub" and any(ev.node in reach(w.node) for w in e.events if w.kind == "call" and w.site.func == fi.qual and w.node is not None and w.node is not ev.node)]
            for ev in used[:1]:
                ctx.bad("callback", f"{con}: labels", ev.site, "uses labels of samples other than the source samples")
    for nm, xs in stores.items():
        for r, _, _ in xs:
            for q, site, con in sizes.get(nm, ()):
                if role(r):
                    ctx.check(role(q) == role(r) or role(q) is None and q != ALL, "callback", f"{con}({nm}): size", site, f"{nm} is kept for the {WORD[role(r)]} samples and has as many entries as there are {WORD.get(role(q), 'other')} samples")


def name_like(ev, fi):
    """The name of the object a method is called on."""
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call) and getattr(x, "lineno", None) == ev.site.line and isinstance(x.func, ast.Attribute):
            return ast.unparse(x.func.value)
    return ""
