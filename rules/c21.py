"""What a fit may read.  Each fit-like method is walked on an object whose attributes (other
than constructor parameters and what the constructor sets) are unknown leftovers.  Reported: a
leftover attribute that is read, or asked for with hasattr/getattr, before this fit has set
it; an in-place change of a container made by the constructor or kept on the class, which
would grow from fit to fit; an attribute that a fit sets for some arguments only while a
prediction method uses it without a condition."""

from rules.c05 import parameterised
from rules.c24 import PRED, StateAlias, init_state
from sa.alias import mutations
from sa.entries import method_runs
from sa.vf import callee_name, flat_alts

TECHNIQUE = "static effect analysis (attributes read before they are set, growth of kept state)"
ASSUMPTIONS = ["attributes of base classes outside the package are not learned state"]

FITS = {"fit", "fit_transform", "_score", "fit_predict", "fit_resample"}
INFRA = {"_metadata_request", "_sklearn_output_config", "_is_final", "__dict__", "__class__", "__doc__"}


def run(ctx):
    n = 0
    for c, m, R in list(method_runs(ctx, [c for c in ctx.classes() if parameterised(c)])):
        if m not in FITS or R.self_node is None:
            continue
        if any(b.split(".")[-1] in ("NeuralNet", "NeuralNetClassifier", "Module", "_Loss") for b in c.ext_bases()):
            continue  # skorch: initialize() resets
        n += 1
        scan(ctx, c, m, R)
    ctx.need(n, 25, "fit methods")


def ctor_names(c):
    out = set()
    for k in c.project_mro():
        f = k.methods.get("__init__")
        if f is not None:
            out |= set(f.params[1:] + f.kwonly)
    return out


def leftover(n, obj):
    if n.op == "loop" and n.args:
        return all(a is n or a is not None and leftover(a, obj) for a in n.args)
    return n.op == "attr0" and (n.extra or {}).get("obj") is obj and n.val not in INFRA and not n.val.startswith("__")


def maybe(sets, ev):
    """One of the earlier assignments may have been made on the way to the event."""
    return any(not any(g.get(x.id, p) != p for x, p in ev.guards) for g in sets)


def scan(ctx, c, m, R):
    con = f"{c.full}.{m}"
    obj = R.self_node.val
    params = ctor_names(c)
    ext = any(not b.startswith("skada") and b.split(".")[-1] not in ("BaseEstimator", "TransformerMixin", "ClassifierMixin", "RegressorMixin", "object", "ABC", "_MetadataRequester", "BaseShuffleSplit", "SelectorMixin", "OneToOneFeatureMixin") for b in c.ext_bases())
    ok = True
    isset = {}  # attribute -> conditions under which it was set
    later = {ev.name for ev in R.e.events if ev.phase != "init" and ev.kind == "setattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj}
    for ev in R.e.events:
        if ev.phase == "init":
            if ev.kind == "setattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj:
                isset.setdefault(ev.name, []).append({g.id: p for g, p in ev.guards})
            continue
        if ev.kind == "setattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj:
            isset.setdefault(ev.name, []).append({g.id: p for g, p in ev.guards})
        elif ev.kind == "getattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is obj and leftover(ev.node, obj):
            if ev.name in params or c.find(ev.name) is not None:
                continue
            if ext and not ev.name.endswith("_"):
                continue
            ok = False
            ctx.bad("leftover", con, ev.site, f"{m} reads the attribute {ev.name} before setting it: what an earlier fit left there")
        elif ev.kind == "call":
            nm = callee_name(ev.node)
            if nm in ("builtins.hasattr", "builtins.getattr") and len(ev.node.args) > 2 and ev.node.args[1].op == "inst" and ev.node.args[1].val is obj:
                a = ev.node.args[2]
                q = a.val if a.op == "const" else None
                if isinstance(q, str) and (q.endswith("_") or q in later) and not q.endswith("__") and q not in params and not maybe(isset.get(q, ()), ev) and c.find_attr(q) is None and c.find(q) is None:
                    ok = False
                    ctx.bad("leftover", con, ev.site, f"{m} depends on whether an earlier fit left the attribute {q}")
            elif (nm or "").split(".")[-1] == "check_is_fitted" and len(ev.node.args) > 1 and ev.node.args[1].op == "inst" and ev.node.args[1].val is obj:
                pass
    A = StateAlias(R, {})
    A.held = dict(init_state(R))
    for (k, attr), n in R.e.class_attrs.items():
        A.held.setdefault(n.root.id, frozenset([("class attribute", attr)]))
    for ev, owners, how in mutations(R, A, lambda ev: ev.phase != "init"):
        owners = [o for o in owners if o[0] in ("attribute", "class attribute") and (o[0] != "attribute" or o[1] not in params and o[1] not in INFRA)]
        if owners and every(A, ev.base):
            ok = False
            ctx.bad("growth", con, ev.site, f"{how} changes the {sorted(owners)[0][0]} {sorted(owners)[0][1]} that is not made anew by this fit")
    if m in ("fit", "fit_transform"):
        ok = stale(ctx, c, m, R, con) and ok
    if ok:
        ctx.ok("refit", con)


def every(A, n, seen=None):
    """No alternative of the object was made by this fit."""
    seen = seen if seen is not None else set()
    if n is None or n.id in seen:
        return True
    seen.add(n.id)
    if n.op in ("phi", "loop"):
        return all(every(A, a, seen) for a in n.args if a is not None and a.op != "unbound")
    if n.op == "update" and n.root.id not in A.held:
        return every(A, n.args[0], seen)
    return bool(A.get(n))


def stale(ctx, c, m, R, con):
    """Attributes a fit sets for some of its arguments only, used without condition later."""
    obj = R.self_node.val
    runs = ctx.p.__dict__.get("_method_runs", {})
    ok = True
    for (o, attr), v in R.st.heap.items():
        if o is not obj or v is None:
            continue
        v = R.e.cur(v, R.st)
        if v.op != "phi" or v.val is None or not any(leftover(a, obj) for a in v.args):
            continue
        if not data_condition(v.val):
            continue
        for q in PRED:
            P = runs.get(("plain", c.full, q))
            if P is None:
                continue
            for ev in P.e.events:
                if ev.kind == "getattr" and ev.name == attr and ev.base is not None and ev.base.op == "inst" and ev.phase == q and not guarded(ev):
                    ok = False
                    ctx.bad("stale", con, ev.site, f"{q} uses {attr}, which {m} sets only when {short(v.val)}")
    return ok


def short(n):
    from sa.vf import show

    return show(n, 3)


def data_condition(c, d=0):
    """The condition is about the arguments of the fit, not about constructor parameters."""
    if d > 6:
        return False
    if c.op == "param":
        return (c.extra or {}).get("role") in ("data", "arg")
    return any(data_condition(a, d + 1) for a in list(c.args) + list(c.kw.values()) if hasattr(a, "op"))


def guarded(ev):
    return any(mentions_self(g) for g, _ in ev.guards)


def mentions_self(g, d=0):
    if not hasattr(g, "op") or d > 5:
        return False
    if g.op in ("attr0", "inst"):
        return True
    return any(mentions_self(a, d + 1) for a in list(g.args) + list(g.kw.values()))
