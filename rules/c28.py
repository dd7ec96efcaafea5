"""Gradients of the adaptation penalty.  A gradient route is a chain of differentiable
operations from the value returned back to an input; it ends at detach, at .data, .item and
conversions to numbers or arrays, at maxima's positions, comparisons, counts, shapes, masks,
and at anything computed where gradients are switched off.  (input) In every adaptation loss
each feature and domain prediction the value of the loss depends on has a gradient route, so
have the scores given to a classification criterion, and
(role) so has something of each domain the loss compares.  (criterion) The pieces the
criterion gives to the adaptation loss, and the losses it adds up, keep their routes.
(module) In fitting mode predictions, features and domain predictions keep theirs, the layer's
hook included.  (reversal) The backward of the reversal layer is the incoming gradient, negated
once and scaled by alpha; its forward hands the features on unchanged; the domain classifier
sees features only through it.  (kept) What callbacks keep from batch to batch carries no
gradient route to the network."""

from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static gradient-route analysis (reachability over differentiable operations of the value-flow graph)"
ASSUMPTIONS = ["operations of torch outside the listed ones are differentiable", "modules and criteria given by the user are differentiable"]

CUT_ATTR = {"data", "shape", "dtype", "device", "ndim", "size", "dim", "is_cuda"}
CUT = {
    "detach", "detach_", "item", "numpy", "tolist", "argmax", "argmin", "argsort", "long", "int", "bool", "size", "dim", "numel", "nelement", "requires_grad_", "sign", "round", "floor", "ceil",
    "bincount", "unique", "one_hot", "eq", "ne", "lt", "gt", "le", "ge", "isnan", "isfinite", "isinf", "zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "randn_like", "new_zeros", "new_ones",
    "new_full", "new_tensor", "to_numpy", "len", "range", "isinstance", "type", "hasattr", "float16", "nonzero", "histc", "multinomial", "searchsorted", "bucketize",
}
CUT_EXT = {"torch.tensor", "torch.zeros", "torch.ones", "torch.full", "torch.eye", "torch.empty", "torch.rand", "torch.randn", "torch.arange", "torch.from_numpy", "builtins.int", "builtins.float", "builtins.bool", "builtins.len", "torch.sign", "torch.heaviside"}
PAIRS = {"max", "min", "sort", "topk", "mode", "median", "kthvalue", "cummax", "cummin"}


def tail(n):
    return (callee_name(n) or "").split(".")[-1]


def edges(n):
    """Arguments a gradient may go to."""
    if n.extra and n.extra.get("nograd"):
        return ()
    if n.op in ("cmp", "bool", "const", "func", "cls", "ext"):
        return ()
    if n.op == "unary" and n.val in ("Not", "Invert"):
        return ()
    if n.op == "attr":
        return () if n.val in CUT_ATTR else n.args
    if n.op == "item" and n.val not in (0, None) and n.args and n.args[0].op == "call" and tail(n.args[0]) in PAIRS:
        return ()
    if n.op == "sub":
        if n.args[0].op == "call" and tail(n.args[0]) in PAIRS and n.args[1].op == "const" and n.args[1].val == 1:
            return ()
        return n.args[:1]
    if n.op == "phi":
        return n.args
    if n.op == "call":
        nm = callee_name(n) or ""
        if tail(n) in CUT or nm in CUT_EXT or nm.startswith("numpy."):
            return ()
        if tail(n) in ("scatter_", "scatter", "gather", "index_select"):
            return [a for i, a in enumerate(n.args) if i != (2 if n.args[0].op == "attr" else 3)]
        if tail(n) == "cross_entropy":
            return n.args[:2]
        return list(n.args) + list(n.kw.values())
    return list(n.args) + list(n.kw.values())


def uses(n):
    """Arguments the value of a node depends on (shapes and devices left out)."""
    if n.op == "attr" and n.val in ("shape", "dtype", "device", "ndim", "size", "dim"):
        return ()
    if n.op == "call" and tail(n) in ("len", "zeros_like", "ones_like", "isinstance", "type", "hasattr", "numel", "size", "dim"):
        return ()
    return [a for a in list(n.args) + list(n.kw.values()) if isinstance(a, Node)]


def reach(roots, step):
    seen, todo = {}, list(roots)
    while todo:
        m = todo.pop()
        if not isinstance(m, Node) or m.id in seen:
            continue
        seen[m.id] = m
        todo.extend(step(m))
    return seen


def grads(*roots):
    return reach(roots, edges)


def named(c, base):
    return c.name == base or c.has_base_named(base)


def cut_at(n, p):
    """Where the value of n loses p's gradient."""
    best = None
    for m in reach([n], uses).values():
        if p.id in reach([m], uses) and m is not p and not any(p.id in grads(a) for a in edges(m)) and any(p.id in grads(a) for a in uses(m)):
            best = m
    return best


def run(ctx):
    losses = [c for c in ctx.classes() if c.has_base_named("BaseDALoss")]
    crits = [c for c in ctx.classes() if named(c, "DomainAwareCriterion")]
    mods = [c for c in ctx.classes() if named(c, "DomainAwareModule")]
    revs = [c for c in ctx.classes() if any(b.split(".")[-1] == "Function" for b in c.ext_bases()) and {"forward", "backward"} <= set(c.methods)]
    cbs = [c for c in ctx.classes() if any(b.split(".")[-1] == "Callback" for b in c.ext_bases())]
    doms = [c for c in ctx.classes() if c.name == "DomainClassifier" or ctx.fixture and "Domain" in c.name and "forward" in c.methods]
    hooks = [c for c in ctx.classes() if "Hook" in c.name and "__call__" in c.methods]
    for cs, f in ((losses, loss), (crits, criterion), (mods, module), (revs, reversal), (doms, classifier), (cbs, kept), (hooks, hook)):
        for c in cs:
            try:
                f(ctx, c)
            except Exception as x:
                if ctx.tier == "debug":
                    raise
                ctx.und("walk", f"{c.full}: {f.__name__}", None, f"{type(x).__name__}: {x}")
    ctx.need(len(losses), 5, "adaptation losses")
    ctx.need(len(crits), 1, "criteria")
    ctx.need(len(mods), 1, "modules")
    ctx.need(len(revs), 1, "reversal layers")
    ctx.need(len(doms), 1, "domain classifiers")


def role(n):
    return {"s": "source", "t": "target"}.get(n.rpartition("_")[2]) if n.endswith(("_s", "_t")) else None


def loss(ctx, c):
    fi = c.find("forward")
    if fi is None or fi.has_deco("abstractmethod"):
        return
    R = Run(ctx.p)
    R.make(c)
    e = R.e
    P = {n: e.param(n, nonnull=True, array=True, role="data") for n in fi.all_params if n != "self"}
    r, st = e.run(fi, P, self_node=R.self_node, st=R.st, phase="forward")
    ctx.analysed(e)
    ps = {n: p for n, p in P.items() if n.startswith(("features", "domain_pred", "y_pred"))}
    used = reach([r], uses)
    g = grads(r)
    sides = {}
    for n, p in ps.items():
        con = f"{c.full}.forward({n})"
        if p.id not in used:
            continue
        sides.setdefault(role(n), []).append((n, p.id in g, p))
        if n.startswith("y_pred"):
            continue  # pseudo-labels are predictions taken as they are
        dead = [a for a in flat_alts(r) if p.id in reach([a], uses) and p.id not in grads(a)]
        if not dead:
            ctx.ok("input", con)
        else:
            w = cut_at(dead[0], p)
            ctx.bad("input", con, w.site if w is not None else fi.full, f"the loss depends on {n}, and no gradient reaches it" + (f" ({tail(w) or w.val or w.op})" if w is not None else ""))
    for m in used.values():
        if m.op == "call" and len(m.args) >= 3 and entropy(m) and not (m.extra or {}).get("nograd"):
            have = {p.id for p in ps.values()}
            con = f"{c.full}.forward: scores of {tail(m) or tail(m.args[0])}"
            if not have & set(grads(m.args[1])):
                ctx.bad("input", con, m.site, "the scores given to the criterion carry no gradient")
            else:
                ctx.ok("input", con)
    for s, xs in sides.items():
        if s is None:
            continue
        con = f"{c.full}.forward: {s}"
        if any(ok for _, ok, _ in xs):
            ctx.ok("role", con)
        else:
            w = cut_at(r, xs[0][2])
            ctx.bad("role", con, w.site if w is not None else fi.full, f"no gradient of the loss reaches anything of the {s} domain")


ENTROPY = {"cross_entropy", "binary_cross_entropy", "nll_loss", "binary_cross_entropy_with_logits", "kl_div"}
ENTROPY_CLS = {"CrossEntropyLoss", "BCELoss", "NLLLoss", "BCEWithLogitsLoss", "KLDivLoss"}


def entropy(m):
    """A call of a classification criterion of torch: criterion()(scores, labels)."""
    f = m.args[0]
    if f.op == "ext":
        return f.val.split(".")[-1] in ENTROPY
    return f.op == "call" and tail(f) in ENTROPY_CLS


def criterion(ctx, c):
    fi = c.find("forward")
    for tot in (False, True):
        R = Run(ctx.p)
        e = R.e
        init = c.find("__init__")
        P = {n: e.param(n, nonnull=True) for n in init.all_params if n != "self"}
        if "train_on_target" in P:
            P["train_on_target"] = e.const(tot)
        ins, st = e.instance(c, P)
        names = [p for p in fi.params if p != "self"]
        parts = [e.param(n, nonnull=True, array=True, role="data") for n in ("y_pred", "domain_pred", "features", "sample_domain", "sample_idx")]
        V = {names[0]: e.mk("tuple", parts), names[1]: e.param("y", nonnull=True, array=True, role="data")}
        r, st = e.run(fi, V, self_node=ins, st=st, phase="forward")
        ctx.analysed(e)
        con = f"{c.full}.forward(train_on_target={tot})"
        base, adapt = P.get("base_criterion"), P.get("adapt_criterion")
        calls = {"base": [], "adapt": []}
        for m in reach([r], lambda n: list(n.args) + list(n.kw.values())).values():
            if m.op == "call" and m.args[0].root is base:
                calls["base"].append(m)
            elif m.op == "call" and m.args[0].root is adapt:
                calls["adapt"].append(m)
        g = grads(r)
        for k, ms in calls.items():
            for m in ms:
                if m.id in g:
                    ctx.ok("criterion", f"{con}: {k} loss")
                else:
                    ctx.bad("criterion", f"{con}: {k} loss", m.site, f"no gradient of the total reaches the {k} loss")
        for m in calls["adapt"]:
            for k, v in m.kw.items():
                for q, nm in zip(parts[:3], ("y_pred", "domain_pred", "features")):
                    if q.id in reach([v], uses) and k.startswith(nm):
                        if q.id in grads(v):
                            ctx.ok("criterion", f"{con}: {k}")
                        else:
                            w = cut_at(v, q)
                            ctx.bad("criterion", f"{con}: {k}", (w or m).site, f"{k} is handed to the adaptation loss without its gradient")


def module(ctx, c):
    fi, init = c.find("forward"), c.find("__init__")
    if fi is None or init is None or "is_fit" not in fi.all_params:
        return
    R = Run(ctx.p)
    e = R.e
    P = {n: e.param(n, nonnull=True) for n in init.all_params if n != "self"}
    ins, st = e.instance(c, P)
    V = {n: e.param(n, nonnull=True, array=True, role="data") for n in fi.all_params if n not in ("self", "is_fit", "return_features")}
    V["is_fit"] = e.const(True)
    if "return_features" in fi.all_params:
        V["return_features"] = e.const(False)
    r, st = e.run(fi, V, self_node=ins, st=st, phase="forward")
    ctx.analysed(e)
    con = f"{c.full}.forward"
    bm, dc, ln = P.get("base_module"), P.get("domain_classifier"), P.get("layer_name")
    for alt in flat_alts(r):
        if alt.op != "tuple" or len(alt.args) != 5:
            continue
        for v, what, is_ in (
            (alt.args[0], "prediction", lambda m: m.op == "call" and m.args[0].root is bm),
            (alt.args[1], "domain prediction", lambda m: m.op == "call" and m.args[0].root is dc),
            (alt.args[2], "features", lambda m: m.op == "sub" and m.args[1].root is ln),
            (alt.args[1], "features of the domain prediction", lambda m: m.op == "sub" and m.args[1].root is ln),
        ):
            have = [m for m in reach([v], uses).values() if is_(m)]
            if not have:
                continue
            dead = [a for a in spread(v) if any(m.id in reach([a], uses) for m in have) and not any(m.id in grads(a) and not (m.extra or {}).get("nograd") for m in have)]
            if not dead:
                ctx.ok("module", f"{con}: {what}")
            else:
                ctx.bad("module", f"{con}: {what}", dead[0].site or have[0].site, f"the {what} is computed without its gradient")
        # what the domain prediction is conditioned on
        for a in spread(alt.args[1]):
            for m in reach([a], uses).values():
                if m.op == "call" and m.args[0].root is bm and m.id not in grads(a):
                    ctx.bad("module", f"{con}: condition of the domain prediction", a.site or m.site, "the predictions the domain prediction depends on are used without their gradient")


def spread(n, d=0):
    """Alternatives of a value, also those of the data a called module is given."""
    out = []
    for a in flat_alts(n):
        if a.op == "call" and len(a.args) == 2 and d < 3 and a.args[1].root.op == "phi":
            out.extend(spread(a.args[1], d + 1))
        else:
            out.append(a)
    return out


def hook(ctx, c):
    f = c.methods["__call__"]
    R = Run(ctx.p)
    R.make(c)
    e = R.e
    P = {n: e.param(n, nonnull=True, array=True) for n in f.all_params if n != "self"}
    e.run(f, P, self_node=R.self_node, st=R.st, phase="hook")
    ctx.analysed(e)
    out = list(P.values())[-1] if P else None
    for ev in e.events:
        if ev.kind in ("setitem", "setattr", "mutcall", "setname") and ev.value is not None and out is not None and out.id in reach([ev.value], uses):
            con = f"{c.full}.__call__"
            if out.id in grads(ev.value):
                ctx.ok("module", con)
            else:
                ctx.bad("module", con, ev.site, "the output of the layer is kept without its gradient")


def signs(n, grad, alpha, d=0):
    """(number of negations modulo 2, scaled by alpha) of a product that is the gradient, or
    None."""
    if d > 40:
        return None
    if n.root is grad or n is grad:
        return (0, 0)
    if n.op == "phi":
        xs = {signs(a, grad, alpha, d + 1) for a in n.args}
        return xs.pop() if len(xs) == 1 else None
    if n.op == "unary" and n.val == "USub":
        x = signs(n.args[0], grad, alpha, d + 1)
        return x and (1 - x[0], x[1])
    if n.op == "call":
        t = tail(n)
        recv = n.args[0].args[0] if n.args[0].op == "attr" else None
        a = n.args[1:]
        if recv is not None and recv.op != "ext":
            a = (recv,) + tuple(a)
        if t in ("neg", "negative", "neg_") and a:
            x = signs(a[0], grad, alpha, d + 1)
            return x and (1 - x[0], x[1])
        if t in ("clone", "contiguous", "view_as", "view", "to", "reshape") and a:
            return signs(a[0], grad, alpha, d + 1)
        if t in ("mul", "mul_", "multiply") and len(a) == 2:
            return prod(a[0], a[1], grad, alpha, d)
        return None
    if n.op in ("bin", "aug") and n.val == "Mult":
        return prod(n.args[0], n.args[1], grad, alpha, d)
    return None


def prod(a, b, grad, alpha, d):
    for x, y in ((a, b), (b, a)):
        s = signs(x, grad, alpha, d + 1)
        if s is not None:
            neg = 0
            k = y
            while True:
                if k.op == "unary" and k.val == "USub":
                    neg, k = 1 - neg, k.args[0]
                elif k.op == "call" and tail(k) in ("neg", "negative") and k.args[0].op == "attr":
                    neg, k = 1 - neg, k.args[0].args[0]
                else:
                    break
            if isalpha(k, alpha):
                return ((s[0] + neg) % 2, s[1] + 1)
            if k.op == "const" and isinstance(k.val, (int, float)) and not isinstance(k.val, bool):
                return ((s[0] + neg + (k.val < 0)) % 2, s[1]) if abs(k.val) == 1 else None
            if k.op in ("bin",) and k.val == "Mult":
                # alpha times a sign
                for u, v in (k.args, k.args[::-1]):
                    if isalpha(u, alpha) and v.op == "const" and v.val in (1, -1, 1.0, -1.0):
                        return ((s[0] + neg + (v.val < 0)) % 2, s[1] + 1)
    return None


def isalpha(k, alpha):
    return k.op in ("attr", "attr0") and k.val == "alpha" or alpha is not None and k.root is alpha


def reversal(ctx, c):
    fw, bw = c.methods["forward"], c.methods["backward"]
    R = Run(ctx.p)
    e = R.e
    P = {n: e.param(n, nonnull=True, array=n == "x") for n in fw.all_params}
    r, st = e.run(fw, P, phase="forward")
    names = [n for n in fw.all_params][1:]
    x = P[names[0]] if names else None
    con = f"{c.full}.forward"
    if x is not None:
        for alt in flat_alts(r):
            n = alt
            while n.op == "call" and tail(n) in ("view_as", "clone", "view", "contiguous", "alias") and n.args[0].op == "attr":
                n = n.args[0].args[0]
            if n.root is x:
                ctx.ok("reversal", con)
            elif n.op in ("bin", "unary") and x.id in grads(n):
                ctx.bad("reversal", con, alt.site or fw.full, "changes the features on the way forward")
    kept = {ev.name: ev.value for ev in e.events if ev.kind == "setattr" and ev.value is not None}
    R2 = Run(ctx.p)
    e2 = R2.e
    Q = {n: e2.param(n, nonnull=True, array=True) for n in bw.all_params}
    if bw.vararg:
        return
    r, st = e2.run(bw, Q, phase="backward")
    ctx.analysed(e)
    ctx.analysed(e2)
    if len(bw.all_params) < 2:
        return
    grad = Q[bw.all_params[1]]
    con = f"{c.full}.backward"
    for alt in flat_alts(r):
        v = alt.args[0] if alt.op == "tuple" and alt.args else alt
        s = signs(v, grad, None)
        if s is None:
            if v.op == "const" or grad.id not in grads(v):
                ctx.bad("reversal", con, alt.site or bw.full, "the gradient of the features does not depend on the incoming gradient")
            else:
                ctx.und("reversal", con, alt.site, "form of the gradient not known")
        elif s[0] != 1:
            ctx.bad("reversal", con, v.site or alt.site or bw.full, "the incoming gradient is not reversed")
        elif s[1] != 1 and "alpha" in kept:
            ctx.bad("reversal", con, v.site or alt.site or bw.full, "the reversed gradient is not scaled by alpha" if not s[1] else "the reversed gradient is scaled by alpha more than once")
        else:
            ctx.ok("reversal", con)


def classifier(ctx, c):
    fi = c.find("forward")
    if fi is None:
        return
    revs = {k.full for k in ctx.p.classes() if any(b.split(".")[-1] == "Function" for b in k.ext_bases()) and "backward" in k.methods}
    R = Run(ctx.p)
    R.make(c)
    e = R.e
    P = {n: e.param(n, nonnull=True, array=True, role="data") for n in fi.all_params if n != "self"}
    r, st = e.run(fi, P, self_node=R.self_node, st=R.st, phase="forward")
    ctx.analysed(e)
    x = next(iter(P.values()))

    def rev(m):
        return m.op == "call" and tail(m) == "apply" and m.args[0].op == "attr" and m.args[0].args[0].op == "cls" and m.args[0].args[0].val.full in revs

    def step(m):
        return () if rev(m) else edges(m)

    con = f"{c.full}.forward"
    g = grads(r)
    if x.id not in g:
        ctx.bad("reversal", con, fi.full, "no gradient of the domain prediction reaches the features")
    elif not any(rev(m) for m in g.values()):
        ctx.bad("reversal", con, fi.full, "the features reach the domain classifier without the gradient reversal")
    elif x.id in reach([r], step):
        ctx.bad("reversal", con, fi.full, "some gradient of the domain prediction reaches the features without being reversed")
    elif any(rev(m) and any(rev(k) for k in reach(m.args[1:2], edges).values()) for m in g.values()):
        ctx.bad("reversal", con, fi.full, "the gradient of the features is reversed more than once")
    else:
        ctx.ok("reversal", con)
    # the strength of the reversal is the parameter's
    for m in g.values():
        if rev(m) and len(m.args) > 2:
            a = m.args[2]
            if a.op == "const":
                ctx.bad("reversal", con + ": alpha", m.site, "the strength of the reversal is not the parameter alpha")
            else:
                ctx.ok("reversal", con + ": alpha")


def kept(ctx, c):
    for n, f in c.methods.items():
        if not n.startswith("on_"):
            continue
        R = Run(ctx.p)
        R.make(c)
        e = R.e
        P = {k: e.param(k, nonnull=True) for k in f.all_params if k != "self"}
        e.run(f, P, self_node=R.self_node, st=R.st, phase=n)
        ctx.analysed(e)
        net = P.get("net")
        if net is None:
            continue
        for ev in e.events:
            if ev.kind not in ("setattr", "setitem", "mutcall") or ev.value is None:
                continue
            g = grads(ev.value)
            hot = [m for m in g.values() if m.op == "call" and m.args[0].op == "attr" and m.args[0].val in ("module_", "infer", "forward", "feature_infer", "base_module_") and net.id in reach([m.args[0]], uses) and not (m.extra or {}).get("nograd")]
            con = f"{c.full}.{n}"
            if hot:
                ctx.bad("kept", con, ev.site, "keeps outputs of the network with their gradients from batch to batch")
            elif any(m.op == "call" and m.args[0].op == "attr" and m.args[0].val in ("module_", "infer", "forward", "feature_infer") for m in reach([ev.value], uses).values()):
                ctx.ok("kept", con)
