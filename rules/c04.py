"""Alias analysis.  Every public function and every public method of every class is walked
with its arguments as caller-owned objects; views (slices, reshapes, asarray, check_array
without copy, dictionary entries, loop elements) keep ownership, copies and fancy indexing
do not.  Reported: stores, augmented assignments, in-place methods, out= arguments and
mutating numpy functions applied to a value that may be the caller's, or to the array an
estimator of the caller returned.  Branches on a documented copy/inplace switch are left
out."""

from sa.alias import Alias, mutations
from sa.entries import function_runs, method_runs
from sa.rowscan import class_runs

TECHNIQUE = "static alias analysis (may-alias with caller-owned arguments)"
ASSUMPTIONS = ["boolean and integer-array indexing, arithmetic and astype give new arrays", "view-returning functions are those listed in sa/alias.py"]


def run(ctx):
    n = 0
    for f, R in function_runs(ctx):
        scan(ctx, f.full, R)
        n += 1
    for c, m, R in method_runs(ctx, ctx.classes()):
        scan(ctx, f"{c.full}.{m}", R, m)
        n += 1
    # sequences of calls: what fit has kept is still the caller's
    for w, c, R in class_runs(ctx, ("adapters", "estimators", "selectors")):
        scan(ctx, c.full, R, "*")
    ctx.need(n, 200, "public functions and methods")


def scan(ctx, con, R, m=None):
    seeds = {}
    for a in R.args.values():
        for nm, node in a.items():
            if nm in ("self", "cls"):
                continue
            for x in [node] + (list(node.args) if node.op == "tuple" else []):
                if x.op == "param":
                    seeds[x.id] = frozenset([("caller", nm)])
    for ev in R.e.events:
        # parameters made by the engine itself (variable arguments)
        if ev.kind == "enter" and ev.depth == 0 and isinstance(ev.value, dict):
            for nm, node in ev.value.items():
                if node is not None and node.op == "param" and (node.extra or {}).get("role") == "arg":
                    seeds.setdefault(node.id, frozenset([("caller", nm)]))
    A = Alias(R.e, R.rows, seeds)
    hits, k = {}, 0
    for ev, owners, how in mutations(R, A, (lambda ev: ev.phase != "init") if m else None):
        k += 1
        if not owners:
            continue
        o = sorted(owners)[0]
        what = f"argument {o[1]} of {con}" if o[0] == "caller" else f"the array returned by the estimator's {o[1]}"
        hits[(f"{ev.site.file}:{ev.site.func}", ev.site.line)] = (ev.site, f"{how} modifies {what} in place")
    if hits:
        for (kk, line), (site, msg) in hits.items():
            ctx.bad("in-place", kk, site, msg)
    else:
        ctx.ok("in-place", f"{con} ({k} stores and mutating calls)")
