"""Options that take effect.  Functions: every parameter of a public function that builds an
object must reach, through the value-flow graph (helpers inlined), the value returned, an
argument of an external call, an attribute or a condition; a parameter of the same name of
an object of the package built on the way must receive it.  Classes: the value of every
constructor parameter must reach something else than the attribute that keeps it, in one of
the methods (parameter accessors aside); an argument of a call with the name of a parameter
of the class must not be another parameter."""

import ast

from rules.c05 import parameterised
from sa.entries import function_runs, public_functions, public_methods
from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts, show

TECHNIQUE = "static value-flow reachability from parameters to effects, and name agreement of forwarded arguments"
ASSUMPTIONS = ["an argument handed to an external function or constructor takes effect there"]

ACCESS = {"get_params", "set_params", "__repr__", "__init__", "__setstate__", "__getstate__", "__sklearn_clone__"}
# parameters the interface prescribes
API = {"X", "y", "sample_domain", "sample_weight", "self", "deep", "allow_source", "sample_idx"}

# attributes that arrays have as well
NDARRAY = {"T", "shape", "size", "ndim", "dtype", "real", "mean", "std", "max", "min", "sum"}


def run(ctx):
    n = 0
    for f in factories(ctx):
        n += 1
        factory(ctx, f)
    functions(ctx, factories(ctx))
    m = 0
    for c in ctx.classes():
        init = c.methods.get("__init__")
        if init is None or not (parameterised(c) or c.has_base_named("BaseDALoss")):
            continue
        m += 1
        ctor(ctx, c, init)
    for c in ctx.classes():
        switches(ctx, c)
        backwards(ctx, c)
    for f in ctx.scoped(list(ctx.p.functions())):
        if f.cls is None:
            switch(ctx, f, {q for q in f.all_params if switched(f, q)}, ())
    ctx.need(n, 20, "factories")
    ctx.need(m, 40, "classes with a constructor")


def switched(f, q):
    d = f.default(q)
    return isinstance(d, ast.Constant) and isinstance(d.value, bool)


def switches(ctx, c):
    init = c.find("__init__")
    attrs = {q for q in init.params[1:] + init.kwonly if switched(init, q)} if init is not None and hasattr(init, "params") and init.module.name.split(".")[0] == "skada" else set()
    for f in c.methods.values():
        switch(ctx, f, {q for q in f.all_params if switched(f, q)}, attrs)


def switch(ctx, f, names, attrs):
    """A yes/no option that is only asked whether it is None decides nothing."""
    asked = {}
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store):
            asked.setdefault(name_of(x), []).append(None)
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)) and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
            q = name_of(x.left)
            if q in names or q.startswith("self.") and q[5:] in attrs:
                asked.setdefault(q, []).append(x)
    for q, xs in asked.items():
        if None in xs or not q:
            continue
        loads = [x for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and name_of(x) == q]
        if len(loads) == len(xs):
            ctx.bad("switch", f"{f.full}({q})", f"{f.module.rel}:{xs[0].lineno}", f"{q.split('.')[-1]}, which is true or false, is only compared with None: it makes no difference")


def name_of(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
        return "self." + x.attr
    return ""


def backwards(ctx, c):
    """What the forward pass of a differentiable function keeps for the backward pass is used there."""
    if "Function" not in {b.split(".")[-1] for b in c.ext_bases()} or not {"forward", "backward"} <= set(c.methods):
        return
    f, b = c.methods["forward"], c.methods["backward"]
    if not f.params or not b.params:
        return
    fc, bc = f.params[0], b.params[0]
    kept_ = {x.attr: x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == fc}
    used = {x.attr for x in ast.walk(b.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == bc}
    whole = any(isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == bc for a in x.args) for x in ast.walk(b.node))
    for a, x in kept_.items():
        ctx.check(a in used or whole, "kept", f"{c.full}({a})", f"{f.module.rel}:{x.lineno}", f"{a} is kept for the gradient and not used there")


# ------------------------------------------------------------------ dependencies
class Deps:
    """Ids of the parameter nodes a node depends on (data, and the conditions of joins)."""

    def __init__(self):
        self.memo = {}

    def of(self, n):
        out, seen, stack = set(), set(), [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, Node) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "param":
                out.add(x.id)
            stack.extend(x.args)
            stack.extend(x.kw.values())
            if isinstance(x.val, Node):
                stack.append(x.val)
            elif x.op in ("dict", "list", "tuple") and isinstance(x.val, list):
                stack.extend(v for _, v in x.val)
            if x.op == "func" and x.val.self_node is not None:
                stack.append(x.val.self_node)
            if x.op == "inst" and x.extra:
                stack.extend(v for v in x.extra.get("pos", ()) if isinstance(v, Node))
                stack.extend(v[1] for v in x.extra.get("pos", ()) if isinstance(v, tuple))
                stack.extend(x.extra.get("kw", {}).values())
                if x.extra.get("kwstar") is not None:
                    stack.append(x.extra["kwstar"])
        return out


# ------------------------------------------------------------------ factories
def is_class_ref(n):
    return n is not None and n.op == "cls"


def factories(ctx):
    """Public functions named like a class: they build an estimator or a net."""
    return [f for f in public_functions(ctx) if f.name[:1].isupper() or f.name.startswith("make_da")]


def bound(ci, ev):
    """{constructor parameter: node or None} of a constructor call, or None if unknown."""
    x = ev.node.extra or {}
    init = ci.find("__init__")
    if init is None:
        return None
    names = init.params[1:]
    out = {}
    pos = x.get("pos", ())
    if any(not isinstance(p, Node) for p in pos):
        return None
    for q, v in zip(names, pos):
        out[q] = v
    out.update(x.get("kw", {}))
    star = x.get("kwstar") is not None
    for q in names + init.kwonly:
        if q not in out:
            out[q] = "?" if star else None
    return out


def factory(ctx, f):
    R = Run(ctx.p)
    try:
        R.func(f, "N", given=())
    except Exception as x:
        ctx.und("walk", f.full, None, f"{type(x).__name__}: {x}")
        return
    ctx.analysed(R.e)
    own = {}
    for ev in R.e.events:
        if ev.kind == "enter" and ev.name == f.full and ev.depth == 0:
            for q, v in ev.value.items():
                if v is not None and v.op == "param":
                    own[v.id] = q
    if not own:
        return
    D = Deps()
    for ev in R.e.events:
        if ev.kind == "new" and isinstance(ev.node, Node) and in_factory(ev, f):
            agree(ctx, R, f, ev, ev.node.val.cls, bound(ev.node.val.cls, ev), own, D, "")
            # classes handed over, with options for them: sub=Class, sub__option=value
            b = dict((ev.node.extra or {}).get("kw", {}))
            for k, v in b.items():
                if is_class_ref(v) and hasattr(v.val, "find"):
                    init = v.val.find("__init__")
                    if init is None:
                        continue
                    sub = {q: b.get(f"{k}__{q}") for q in init.params[1:] + init.kwonly}
                    agree(ctx, R, f, ev, v.val, sub, own, D, f"{k}__")
                    for kk in b:
                        if kk.startswith(k + "__") and "__" not in kk[len(k) + 2:] and kk[len(k) + 2:] not in sub and not init.kwarg:
                            ctx.bad("unknown", f"{f.full}({kk})", ev.site, f"{v.val.name} has no option {kk[len(k) + 2:]}")


def in_factory(ev, f):
    """The object is built by the factory or a helper function, not by another class."""
    return all(("." not in s.split(":")[-1]) for s in ev.site.stack)


def agree(ctx, R, f, ev, ci, b, own, D, prefix):
    if b is None:
        return
    names = set(own.values())
    for q, v in b.items():
        if q not in names or v == "?":
            continue
        con = f"{f.full}({q})"
        if v is None:
            if q in {own[i] for w in b.values() if isinstance(w, Node) for a in flat_alts(w) if a.op != "inst" and a.id not in own for i in D.of(a) if i in own}:
                continue  # another option is computed from it
            ctx.bad("not-forwarded", con, ev.site, f"{ci.name} is built without the option {prefix}{q} of the factory")
            continue
        deps = {own[i] for i in D.of(v) if i in own}
        if q in deps:
            ctx.ok("forwarded", con, ev.site)
        elif v.op == "cls":
            continue
        else:
            ctx.bad("crossed", con, ev.site, f"the option {q} of {ci.name} gets {show(v, 3)} instead of the factory's {q}")
    defaults(ctx, f, ci, b, own)


def literal(d):
    try:
        return True, ast.literal_eval(d)
    except Exception:
        return False, None


def defaults(ctx, f, ci, b, own):
    init = ci.find("__init__")
    for q in b:
        if q in own.values() and q in init.all_params:
            v = b[q]
            if not isinstance(v, Node) or v.op != "param" or own.get(v.id) != q:
                continue
            d1, d2 = f.default(q), init.default(q)
            if d1 is None or d2 is None:
                continue
            (k1, x1), (k2, x2) = literal(d1), literal(d2)
            if k1 and k2 and x1 != x2:
                if x1 is None or x2 is None:
                    ctx.und("default", f"{f.full}({q})", f"{f.module.rel}:{f.node.lineno}", f"default {x1!r}, {ci.name} has {x2!r}")
                else:
                    ctx.bad("default", f"{f.full}({q})", f"{f.module.rel}:{f.node.lineno}", f"the default is {x1!r}, but {x2!r} for {ci.name}")


# ------------------------------------------------------------------ functions
# functions that only compute: handing them an argument is no effect of its own
PURE = ("numpy.", "builtins.", "scipy.", "sklearn.model_selection.check_cv", "sklearn.utils.check_random_state", "sklearn.metrics.pairwise", "math.", "itertools.", "copy.")
ACTS = {"builtins.print", "builtins.setattr", "builtins.open", "builtins.delattr", "numpy.save", "numpy.savez", "numpy.savetxt", "numpy.load", "builtins.next", "builtins.exec"}
MAKES = ("list", "dict", "set", "tuple", "comp", "const", "call", "bin", "aug", "loop", "phi", "unary", "cmp")


def computes(ev):
    """The event only computes a value, or changes one made on the way: what counts is where
    the value goes."""
    if ev.kind == "call":
        nm, c = callee_name(ev.node) or "", ev.node.args[0]
        if c.op == "attr" and c.val in ("split", "get", "items", "keys", "values"):
            return True
        if c.op == "attr" and c.val in ("append", "extend", "insert", "update", "add"):
            return c.args[0].root.op in MAKES
        if nm.startswith("numpy.random") and c.op != "attr":
            return False
        return nm.startswith(PURE) and nm not in ACTS and not nm.startswith("scipy.io")
    if ev.kind in ("setitem", "mutcall", "aug"):
        return ev.base is not None and ev.base.root.op in MAKES
    return ev.kind in ("sub", "getattr", "bin", "cmp", "expr", "setname", "loopcond", "return")


def counted(n):
    return n.op == "call" and callee_name(n) in ("builtins.range", "numpy.arange", "tqdm.trange")


def uses(R, ids, skip=lambda ev: False):
    """Ids among `ids` that reach an effect."""
    D, got = Deps(), set()
    seen = set()

    def add(n):
        if isinstance(n, Node) and n.id not in seen:
            seen.add(n.id)
            got.update(D.of(n) & ids)

    for ev in R.e.events:
        if skip(ev):
            continue
        local = computes(ev)
        for g, _ in ev.guards:
            # a branch may decide on a value, a loop only repeats what is judged itself
            if g.op != "iter" or counted(g.args[0]) or not local and ev.kind in ("setattr", "raise", "yield", "setglobal", "delattr"):
                add(g)
        if local:
            if ev.kind == "loopcond":
                add(ev.node)
            continue
        if ev.kind in ("enter", "leave"):
            continue
        add(ev.node)
        if isinstance(ev.value, Node):
            add(ev.value)
        if ev.kind not in ("setattr",) and ev.base is not None and ev.base.op not in ("inst",):
            add(ev.base)
        if got == ids:
            break
    for r in R.results.values():
        add(r)
    return got


def functions(ctx, made):
    for f, R in function_runs(ctx):
        own = {}
        for ev in R.e.events:
            if ev.kind == "enter" and ev.name == f.full and ev.depth == 0:
                for q, v in ev.value.items():
                    if v is not None and v.op == "dict" and q == f.kwarg and isinstance(v.val, list) and len(v.val) == 1 and v.val[0][0] == "**":
                        v = v.val[0][1]
                    if v is not None and v.op == "param":
                        own[v.id] = q
        dropped(ctx, R, own)
        siblings(ctx, f.full, R, own)
        got = {own[i] for i in uses(R, set(own))}
        for q in own.values():
            con = f"{f.full}({q})"
            if q in got:
                ctx.ok("used", con)
            elif q in API or q == f.kwarg and f not in made:
                ctx.und("used", con, f"{f.module.rel}:{f.node.lineno}", "prescribed by the interface")
            else:
                ctx.bad("used", con, f"{f.module.rel}:{f.node.lineno}", f"the option {q} has no effect")


def reads(f):
    return {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def dropped(ctx, R, own):
    """A function of the package is handed an option under its own name and never looks at it."""
    known = ctx.p.__dict__.setdefault("_module_functions", {f.full: f for m in ctx.p.modules.values() for f in m.functions.values()})
    for ev in R.e.events:
        if ev.kind != "enter" or not ev.depth or not isinstance(ev.value, dict):
            continue
        h = known.get(ev.name)
        if h is None:
            continue
        live = None
        for q, v in ev.value.items():
            if v is None or v.op != "param" or own.get(v.id) != q or q in API or q.startswith("_"):
                continue
            live = reads(h) if live is None else live
            ctx.check(q in live, "handed-on", f"{h.full}({q})", ev.site, f"the option {q} is handed on and never looked at")
        passed(ctx, R, ev, h, own)


def passed(ctx, R, ev, h, own):
    """What a function of the package gets for an option its caller has as well."""
    ids = {q: i for i, q in own.items()}
    D = Deps()
    for q, v in ev.value.items():
        if v is None or q not in ids or q in API or q.startswith("_") or h.default(q) is None and v.op != "param":
            continue
        con = f"{h.full}({q})"
        if v.op == "param" and own.get(v.id) not in (None, q) and own[v.id] in h.all_params:
            w = ev.value.get(own[v.id])
            if h.default(q) is not None and w is not None and w.op == "param" and own.get(w.id) == q:
                ctx.bad("crossed", con, ev.site, f"the options {q} and {own[v.id]} are exchanged")
            continue
        if v.op != "const" or any(ids[q] in D.of(g) for g, _ in ev.guards):
            continue
        # the option may still take effect elsewhere on the way
        mine = {g.id: p for g, p in ev.guards}
        other = [e for e in R.e.events if e is not ev and not (e.kind == "enter" and (not e.depth or e.phase == "init")) and e.kind in ("call", "new", "enter", "setattr", "raise") and e.phase != "init" and not any(g.id in mine and mine[g.id] != p for g, p in e.guards) and not inside(e, ev, h)]
        if any(ids[q] in D.of(n) for e in other for n in touched(e)) or any(ids[q] in D.of(g) for e in other for g, _ in e.guards):
            continue
        ctx.bad("constant", con, ev.site, f"the option {q} is {v.val!r} here, whatever the caller asked for")


def inside(e, ev, h):
    return h.full in e.site.stack


def touched(e):
    out = [e.node] if isinstance(e.node, Node) else []
    if isinstance(e.value, Node):
        out.append(e.value)
    elif isinstance(e.value, dict):
        out.extend(v for v in e.value.values() if isinstance(v, Node))
    return out


# ------------------------------------------------------------------ like calls
def siblings(ctx, name, R, own):
    """Two calls of one function alike in everything but this: one is given an option, the
    other a fixed value in its place."""
    by = {}
    for ev in R.e.events:
        if ev.phase == "init":
            continue
        if ev.kind == "call":
            c = ev.node.args[0]
            k = callee_name(ev.node) or ("." + str(c.val) if c.op == "attr" else None)
            vals = dict(enumerate(ev.node.args[1:]))
            vals.update(ev.node.kw)
        elif ev.kind == "enter" and ev.depth and isinstance(ev.value, dict):
            k, vals = ev.name, ev.value
        else:
            continue
        st = ev.site.stack
        here = st[-1:] if ev.kind == "call" else tuple(st[-2:-1]) if st[-1:] == (k,) else st[-1:]
        by.setdefault((ev.kind, k, here, tuple(sorted(map(str, vals)))), {}).setdefault(str(ev.site), (ev, vals))
    for (_, k, _, _), evs in by.items():
        evs = list(evs.values())
        for i, (a, va) in enumerate(evs):
            for b, vb in evs[:i]:
                out = []
                for q in va:
                    if isinstance(va[q], Node) and isinstance(vb.get(q), Node):
                        differ(va[q], vb[q], 4, out)
                if len(out) != 1:
                    continue
                (x, y), (e, other) = out[0], (b, a)
                if x.op == "const":
                    x, y, e, other = y, x, a, b
                if x.op != "param" or y.op != "const" or y.val is None or x.id not in own:
                    continue
                if any(x.id in Deps().of(g) for ev in (a, b) for g, _ in ev.guards):
                    continue
                ctx.bad("sibling", f"{name}({own[x.id]})", e.site, f"{k} is given {y.val!r} here and the option {own[x.id]} at {other.site}")


def differ(a, b, d, out):
    """Places where two expressions of the same shape differ in an option or a constant."""
    if a is b or d == 0:
        return
    if {a.op, b.op} & {"param", "const"}:
        if a.op != b.op or a.val != b.val:
            out.append((a, b))
        return
    if a.op != b.op or len(a.args) != len(b.args):
        return
    if a.op in ("bin", "cmp", "attr", "unary") and a.val != b.val:
        out.append((a, b))
        return
    if a.op not in ("bin", "call", "sub", "attr", "unary", "tuple", "list"):
        return
    for x, y in zip(a.args, b.args):
        differ(x, y, d - 1, out)
    for k in a.kw:
        if k in b.kw:
            differ(a.kw[k], b.kw[k], d - 1, out)


# ------------------------------------------------------------------ constructors
def below(ctx, c):
    """Public methods of the class and of the classes derived from it."""
    out = {}
    for k in [c] + [k for k in ctx.p.classes() if k is not c and c in k.project_mro()]:
        for m in public_methods(k):
            out.setdefault((k.full, m), (k, m))
    return list(out.values())


def ctor(ctx, c, init):
    ids = {}
    got, seen, refused = set(), set(), set()
    n = 0
    names = set(init.params[1:] + init.kwonly)
    for k, m in below(ctx, c):
        if m in ACCESS:
            continue
        R = method_run(ctx, k, m)
        if R is None:
            return
        n += 1
        ids = {}
        for ev in R.e.events:
            if ev.kind == "enter" and ev.name == init.full and ev.phase == "init" and ev.base is not None and ev.base.op == "inst" and ev.base.val is R.self_node.val and isinstance(ev.value, dict):
                for q, v in ev.value.items():
                    if v is not None and v.op == "param" and (v.extra or {}).get("role") == "ctor" and q in names:
                        ids[v.id] = q
        S = uses(R, set(ids), skip=lambda ev: kept(R, ev) or accessor(ev) or idle(R, c, ev)) - unused_score(R, c, set(ids))
        got |= {ids[i] for i in S}
        seen |= set(ids.values())
        refused |= {ids[g.id] for ev in R.e.events if ev.phase == "init" and ev.kind == "raise" for g, p in ev.guards[-1:] if p and g.id in ids}
        crossed(ctx, c, m, R, ids)
        siblings(ctx, c.full, R, ids)
        dropped(ctx, R, ids)
    if not n:
        return
    for q in sorted(names):
        con = f"{c.full}({q})"
        if q in got:
            ctx.ok("consumed", con)
        elif q in refused:
            ctx.ok("consumed", con, None, "any other value is refused")
        else:
            reads = read_somewhere(c, q)
            open_ = any(f.has_deco("abstractmethod") for k in c.project_mro() for f in k.methods.values()) or dynamic(c)
            (ctx.und if q not in seen or reads and open_ else ctx.bad)("consumed", con, f"{c.module.rel}:{init.node.lineno}", f"the parameter {q} is kept but nothing depends on it")


def dynamic(c):
    """Attributes are looked up by computed names."""
    for k in c.project_mro():
        for nme, f in k.methods.items():
            for x in ast.walk(f.node):
                if nme not in ACCESS and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id == "vars" or x.func.id == "getattr" and len(x.args) > 1 and isinstance(x.args[0], ast.Name) and x.args[0].id in f.params[:1] and not isinstance(x.args[1], ast.Constant)):
                    return True
                if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    return True
    return False


def kept(R, ev):
    """The constructor merely keeps the parameter."""
    return ev.phase == "init" and (ev.kind == "setattr" and (ev.base is R.self_node or ev.base is not None and ev.base.op == "inst" and ev.base.val is R.self_node.val))


def idle(R, c, ev):
    """The constructor looks at the parameter, or keeps it under another name."""
    if ev.phase != "init":
        return False
    if ev.kind == "call" and (callee_name(ev.node) or "").startswith("builtins.") and callee_name(ev.node).endswith(("Error", "Exception")):
        return True
    return ev.kind not in ("call", "new", "setattr", "setitem", "aug")


def unused_score(R, c, ids):
    """Ids that reach the scoring function kept by the base scorer, which _score does not call."""
    if not c.has_base_named("_BaseDomainAwareScorer") or read_somewhere(c, "_score_func"):
        return set()
    D, out, other = Deps(), set(), set()
    for ev in R.e.events:
        if ev.phase == "init" and ev.kind == "call" and (callee_name(ev.node) or "").endswith(".__init__"):
            for k, a in enumerate(ev.node.args[1:]):
                (out if k == 0 else other).update(D.of(a) & ids)
            for k, a in ev.node.kw.items():
                (out if k == "score_func" else other).update(D.of(a) & ids)
    rest = uses(R, ids, skip=lambda ev: ev.phase == "init")
    return out - other - rest


def accessor(ev):
    return any(s.split(".")[-1].split(":")[-1] in ACCESS - {"__init__"} for s in ev.site.stack)


def method_run(ctx, c, m):
    cache = ctx.p.__dict__.setdefault("_method_runs", {})
    k = ("plain", c.full, m)
    if k not in cache:
        R = Run(ctx.p)
        try:
            R.make(c)
            R.call(m, "N", given=("y", "sample_domain"))
        except Exception as x:
            ctx.und("walk", f"{c.full}.{m}", None, f"{type(x).__name__}: {x}")
            R = None
        cache[k] = R
    if cache[k] is not None:
        ctx.analysed(cache[k].e)
    return cache[k]


def read_somewhere(c, q):
    for k in c.project_mro():
        for nme, f in k.methods.items():
            if nme in ACCESS:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == q and isinstance(x.ctx, ast.Load) and (q not in NDARRAY or isinstance(x.value, ast.Name) and x.value.id in f.params[:1]):
                    return True
    return False


def crossed(ctx, c, m, R, ids):
    D = Deps()
    names = set(ids.values())
    for ev in R.e.events:
        if ev.kind not in ("call", "new") or ev.phase == "init":
            continue
        kw = ev.node.kw if ev.kind == "call" else (ev.node.extra or {}).get("kw", {})
        for q, v in kw.items():
            if q in names and isinstance(v, Node):
                if v.op == "const" and v.val is not None and not any(q in {ids[i] for i in D.of(g) if i in ids} for g, _ in ev.guards):
                    ctx.bad("constant", f"{c.full}({q})", ev.site, f"the option {q} of {callee_name(ev.node) or ev.name} is the constant {v.val!r}")
                deps = {ids[i] for i in D.of(v) if i in ids}
                only = v.op == "param"
                if deps and q not in deps and only:
                    ctx.bad("crossed", f"{c.full}({q})", ev.site, f"the option {q} of {callee_name(ev.node) or ev.name} gets the parameter {sorted(deps)[0]}")
