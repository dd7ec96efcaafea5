"""Write sets of hyper-parameters.  For every class with parameters (estimators, adapters,
selectors, scorers, splitters, losses, nets) each public method is walked after the
constructor: outside the constructor and the parameter accessors no attribute named like a
constructor parameter may be given another value, deleted, or set through __dict__/setattr
with a parameter name, and (alias analysis) no in-place store, mutating method or out=
argument may reach the object a parameter holds."""

from rules.c14 import in_scope
from sa.alias import Alias, mutations
from sa.entries import method_runs
from sa.rowscan import class_runs
from sa.vf import flat_alts, show

TECHNIQUE = "static effect analysis (attribute write sets and may-alias with constructor parameters)"
ASSUMPTIONS = ["boolean and integer-array indexing, arithmetic and astype give new arrays"]

ACCESSORS = {"set_params", "__setstate__", "__init__", "set_scope", "_mark_as_final", "_unmark_as_final"}


def run(ctx):
    n = 0
    seen = set()
    for c, m, R in method_runs(ctx, ctx.classes()):
        init = c.find("__init__")
        if init is None or not own_params(init) or not parameterised(c):
            continue
        n += c.full not in seen
        seen.add(c.full)
        if m in ACCESSORS:
            continue
        scan(ctx, c, f"{c.full}.{m}", R, init)
    for w, c, R in class_runs(ctx, ("adapters", "estimators", "selectors")):
        init = c.find("__init__")
        if init is not None:
            scan(ctx, c, c.full, R, init)
    ctx.need(n, 50, "classes with constructor parameters")


def parameterised(c):
    """Has parameters in the sense of get_params (data containers and hooks do not)."""
    tails = {b.split(".")[-1] for b in c.ext_bases()}
    return in_scope(c) is not None or bool(tails & {"NeuralNet", "NeuralNetClassifier", "Module", "Sampler", "_Loss"})


def own_params(init):
    return [q for q in init.params[1:] + init.kwonly]


def parameters(R):
    """Constructor parameter nodes by name."""
    out = {}
    for ev in R.e.events:
        if ev.kind == "enter" and ev.phase == "init" and ev.base is R.self_node and isinstance(ev.value, dict):
            for q, v in ev.value.items():
                for a in flat_alts(v) if v is not None else []:
                    if a.op == "param" and (a.extra or {}).get("role") == "ctor":
                        out[a.id] = a.val
    return out


def in_accessor(ev):
    return any(f.split(".")[-1].split(":")[-1] in ACCESSORS for f in (ev.site.stack or ()))


def scan(ctx, c, con, R, init):
    names = set(own_params(init))
    ids = parameters(R)
    A = Alias(R.e, R.rows, {i: frozenset([("parameter", q)]) for i, q in ids.items()})
    ok = True
    for ev in R.e.events:
        if ev.phase == "init" or in_accessor(ev):
            continue
        if ev.kind in ("setattr", "delattr") and ev.base is not None and ev.base.op == "inst" and ev.base.val is R.self_node.val and ev.name in names:
            if ev.kind == "setattr" and c.find(ev.name + "#set") is not None:
                continue
            v = ev.value
            if v is not None and all(ids.get(a.id) == ev.name for a in flat_alts(v)):
                continue
            ok = False
            ctx.bad("rewrite", con, ev.site, f"the constructor parameter {ev.name} is replaced by {show(v, 3) if v is not None else 'nothing'}")
        elif ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "set_params" and ev.node.args[0].args[0] is R.self_node:
            bad = [q for q in ev.node.kw if q in names]
            if bad:
                ok = False
                ctx.bad("rewrite", con, ev.site, f"set_params changes the constructor parameter {bad[0]}")
    for ev, owners, how in mutations(R, A, lambda ev: ev.phase != "init" and not in_accessor(ev)):
        owners = [o for o in owners if o[0] == "parameter"]
        if owners:
            ok = False
            ctx.bad("in-place", con, ev.site, f"{how} changes the contents of the constructor parameter {sorted(owners)[0][1]}")
    if ok:
        ctx.ok("parameters", con)
