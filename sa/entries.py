"""Every public function and method of the package as an entry of the value-flow engine."""

from .scenario import Run
from .vf import State

SKIP = {"__init__", "__repr__", "__str__", "get_metadata_routing"}


def public_functions(ctx):
    out = []
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        for f in m.functions.values():
            if not f.name.startswith("_"):
                out.append(f)
    return out


def public_methods(c):
    seen = {}
    for k in c.project_mro():
        for n, f in k.methods.items():
            if (not n.startswith("_") or n in ("__call__", "__getitem__", "_score", "__iter__", "__next__")) and n not in SKIP and "#" not in n and not f.has_deco("abstractmethod") and not f.has_deco("staticmethod"):
                seen.setdefault(n, f)
    return seen


def function_runs(ctx, key="plain", **kw):
    """(function, Run) with symbolic arguments."""
    cache = ctx.p.__dict__.setdefault("_function_runs", {})
    for f in public_functions(ctx):
        R = cache.get((key, f.full))
        if R is None:
            R = Run(ctx.p)
            try:
                R.func(f, "N", **kw)
            except Exception as x:
                ctx.und("walk", f.full, None, f"{type(x).__name__}: {x}")
                continue
            cache[(key, f.full)] = R
        ctx.analysed(R.e)
        yield f, R


def method_runs(ctx, classes, key="plain", given=("y", "sample_domain")):
    """(class, method, Run): each public method on its own, after the constructor."""
    cache = ctx.p.__dict__.setdefault("_method_runs", {})
    for c in classes:
        for n, f in public_methods(c).items():
            k = (key, c.full, n)
            if k in cache:
                R = cache[k]
            else:
                R = Run(ctx.p)
                try:
                    R.make(c)
                    R.call(n, "N", given=given)
                except Exception as x:
                    ctx.und("walk", f"{c.full}.{n}", None, f"{type(x).__name__}: {x}")
                    cache[k] = None
                    continue
                cache[k] = R
            if R is None:
                continue
            ctx.analysed(R.e)
            yield c, n, R
