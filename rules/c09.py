"""Metadata requests and routing.  For every class the requests declared for a method are
merged over its bases as scikit-learn does, and each parameter asked for by default must be
accepted by the method found on the class; requests made in constructors likewise.  A method
that takes domain labels or the permission to use source samples must be one the labels are
asked for.  Each routed method of a selector is walked: the estimator's method of the same
name must be called, with the metadata its own request selects.  Methods offered only when
the estimator has them must look for the method of their own name on a parameter of the
constructor, and method mappings of routers must map a method to itself."""

import ast

from sa.project import ClassInfo, FuncInfo
from sa.scenario import Run, selectors
from sa.vf import walk as nodes

TECHNIQUE = "static resolution of declared requests against signatures along the class hierarchy; call provenance in the routed methods of selectors"
ASSUMPTIONS = ["scikit-learn merges __metadata_request__* over the bases of a class and routes by method name"]

SIMPLE = ("fit", "partial_fit", "predict", "predict_proba", "predict_log_proba", "decision_function", "score", "split", "transform", "inverse_transform")
COMPOSITE = {"fit_transform": ("fit", "transform"), "fit_predict": ("fit", "predict")}
ROUTED = ("fit", "fit_transform", "transform", "predict", "predict_proba", "predict_log_proba", "decision_function", "score")
PREFIX = "__metadata_request__"
NEEDS = ("sample_domain", "allow_source")


# ------------------------------------------------------------------ declared requests
def literal(m, e, seen=()):
    """Value of a dictionary expression of constants, or None."""
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = literal(m, v, seen)
                if d is None:
                    return None
                out.update(d)
            elif isinstance(k, ast.Constant):
                out[k.value] = const(m, v)
            else:
                return None
        return out
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict":
        out = {}
        for a in e.args:
            d = literal(m, a, seen)
            if d is None:
                return None
            out.update(d)
        for k in e.keywords:
            if k.arg is None:
                d = literal(m, k.value, seen)
                if d is None:
                    return None
                out.update(d)
            else:
                out[k.arg] = const(m, k.value)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = literal(m, e.left, seen), literal(m, e.right, seen)
        return None if a is None or b is None else {**a, **b}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and not e.args:
        return literal(m, e.func.value, seen)
    if isinstance(e, ast.Name) and e.id not in seen:
        r = m.resolve(e.id)
        if isinstance(r, tuple) and r[0] == "global" and r[2] is not None:
            return literal(r[1], r[2], seen + (e.id,))
    return None


UNKNOWN = object()


def const(m, e):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        r = m.resolve(e.id)
        if isinstance(r, tuple) and r[0] == "global" and isinstance(r[2], ast.Constant):
            return r[2].value
    return UNKNOWN


def declared(c):
    """method -> {param: (value, class)}; None for a method whose requests are not known."""
    out = {}
    for b in reversed(c.mro):
        if not isinstance(b, ClassInfo):
            continue
        local = {}
        for k, e in b.attrs.items():
            if PREFIX in k:
                m = k[k.index(PREFIX) + len(PREFIX):]
                d = local.get(e.id) if isinstance(e, ast.Name) and e.id in local else literal(b.module, e)
                if d is None and isinstance(e, ast.Name) and e.id in b.attrs:
                    d = literal(b.module, b.attrs[e.id])
                local[k] = d
                if d is None:
                    out[m] = None
                elif out.get(m, {}) is not None:
                    cur = out.setdefault(m, {})
                    for p, v in d.items():
                        cur[p] = (v, b)
    return out


def accepts(f, p):
    return p in f.all_params or f.kwarg is not None


def explicit(f):
    return [p for p in f.all_params if p not in ("self", "X", "y", "Y", "Xt", "yt")]


def requests(ctx, c):
    req = declared(c)
    for m, d in req.items():
        con = f"{c.full}.{m}"
        site = f"{c.module.rel}:{c.node.lineno}"
        if m in COMPOSITE:
            continue  # scikit-learn derives the requests of these from their parts
        if m not in SIMPLE:
            ctx.bad("method", con, site, f"metadata is asked for a method {m}, which scikit-learn does not route to")
            continue
        ctx.ok("method", con)
        if d is None:
            ctx.und("accepted", con, site, "requests are not a dictionary of constants")
            continue
        f = c.find(m)
        fs = [f] if f is not None else []
        for comp, parts in COMPOSITE.items():
            if m in parts:
                g = c.find(comp)
                if g is not None:
                    fs.append(g)
        for p, (v, owner) in d.items():
            if v is UNKNOWN:
                ctx.und("accepted", f"{con}({p})", site, "alias is not a constant")
                continue
            if not (v is None or isinstance(v, (bool, str))):
                ctx.bad("alias", f"{con}({p})", site, f"{v!r} is not a request scikit-learn knows")
                continue
            if v is None or v is False:
                continue
            for g in fs:
                if not isinstance(g, FuncInfo) or g.has_deco("abstractmethod"):
                    continue
                if g.name in COMPOSITE and p == "allow_source":
                    continue  # fitting is never asked whether sources are allowed
                k = f"{c.full}.{g.name}({p})"
                if p not in g.all_params and forwards(g):
                    ctx.bad("accepted", k, f"{g.module.rel}:{g.node.lineno}", f"{p} is asked for by default for {m} of {c.name} (by {owner.name}), and {g.full} hands it on to an estimator that may not know it")
                elif accepts(g, p):
                    ctx.ok("accepted", k)
                else:
                    ctx.bad("accepted", k, f"{g.module.rel}:{g.node.lineno}", f"{p} is asked for by default for {m} of {c.name} (by {owner.name}), and {g.full} does not accept it: routing it raises a TypeError")
    return req


def missing(ctx, c, req):
    """Domain labels accepted by a routed method and never asked for."""
    for m in SIMPLE:
        f = c.find(m)
        if not isinstance(f, FuncInfo) or f.has_deco("abstractmethod", "staticmethod"):
            continue
        d = req.get(m, {})
        for p in explicit(f):
            if p not in NEEDS:
                continue
            k = f"{c.full}.{m}({p})"
            if d is None:
                ctx.und("declared", k, None, "requests are not a dictionary of constants")
            elif p in d and (d[p][0] or d[p][0] is False and m not in ("fit", "partial_fit", "transform", "split")):
                # opting out of the labels is a statement of its own, except where they decide the result
                ctx.ok("declared", k)
            else:
                ctx.bad("declared", k, f"{f.module.rel}:{f.node.lineno}", f"{f.full} takes {p}, and it is not asked for by default: a pipeline never hands it on, or refuses it")


def requester(c):
    """Classes whose metadata scikit-learn routes."""
    return any(isinstance(b, ClassInfo) and any(PREFIX in k for k in b.attrs) for b in c.mro)


def constructor(ctx, c):
    """self.set_score_request(...) in constructors."""
    asked, known = {}, True
    for b in c.project_mro():
        f = b.methods.get("__init__")
        if f is None:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith("set_") and x.func.attr.endswith("_request") and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                m = x.func.attr[4:-8]
                t = implementation(c, m)
                for k in x.keywords:
                    if k.arg is None or not isinstance(k.value, ast.Constant):
                        known = False
                        continue
                    asked.setdefault(m, {}).setdefault(k.arg, k.value.value)
                    if k.value.value in (None, False):
                        continue
                    con = f"{c.full}.{m}({k.arg})"
                    if not isinstance(t, FuncInfo) or t.has_deco("abstractmethod"):
                        continue
                    if accepts(t, k.arg):
                        ctx.ok("accepted", con)
                    else:
                        ctx.bad("accepted", con, f"{t.module.rel}:{t.node.lineno}", f"{k.arg} is asked for {m} in the constructor of {b.name}, and {t.full} does not accept it")
        if not any(isinstance(x, ast.Attribute) and x.attr == "__init__" for x in ast.walk(f.node)):
            break
    if "score" in asked and known and c.find("_score") is not None:
        t = c.find("_score")
        if not t.has_deco("abstractmethod"):
            for p in t.all_params:
                if p in NEEDS + ("target_labels",):
                    con = f"{c.full}.score({p}) asked"
                    if asked["score"].get(p):
                        ctx.ok("declared", con)
                    else:
                        ctx.bad("declared", con, f"{t.module.rel}:{t.node.lineno}", f"{t.full} takes {p}, and the scorer never asks for it: it is not handed on")


def implementation(c, m):
    return c.find("_score") if m == "score" and c.find("_score") is not None else c.find(m)


def forwards(f):
    """**kwargs handed on as they came to a method of an object held by self."""
    if f.kwarg is None:
        return False
    uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == f.kwarg]
    hits = [k.value for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id == "self"
            for k in x.keywords if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == f.kwarg]
    return bool(hits) and len(hits) == len(uses)


# ------------------------------------------------------------------ routers
def pairs(f):
    """(callee, caller, line) of the method mappings built in f; strings, ('same',) or None."""
    out = []
    loops = {}
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and isinstance(x.iter, (ast.Tuple, ast.List, ast.Set)):
            loops[x.target.id] = [e.value for e in x.iter.elts if isinstance(e, ast.Constant)]
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "add":
            kw = {k.arg: k.value for k in x.keywords}
            if "callee" in kw and "caller" in kw:
                a, b = kw["callee"], kw["caller"]
                if isinstance(a, ast.Constant) and isinstance(b, ast.Constant):
                    out.append((a.value, b.value, x.lineno))
                elif isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id == b.id:
                    if a.id in loops:
                        out += [(s, s, x.lineno) for s in loops[a.id]]
                    else:
                        out.append((None, None, x.lineno))
                else:
                    out.append((None, None, x.lineno))
    return out


def groups(f):
    """Mappings per `.add(estimator=..., method_mapping=<chain>)`, when written that way."""
    gs = []
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == "method_mapping":
                    gs.append((x.lineno, [(kw["callee"].value, kw["caller"].value) for y in ast.walk(k.value) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "add"
                                          for kw in [{q.arg: q.value for q in y.keywords}] if isinstance(kw.get("callee"), ast.Constant) and isinstance(kw.get("caller"), ast.Constant)],
                               isinstance(k.value, ast.Call)))
    return gs


def router(ctx, c):
    f = c.find("get_metadata_routing")
    if not isinstance(f, FuncInfo):
        return
    ps = pairs(f)
    for callee, caller, line in ps:
        con = f"{c.full}.get_metadata_routing({caller}:{line - f.node.lineno})"
        if callee is None:
            ctx.und("mapping", f"{c.full}.get_metadata_routing", f"{f.module.rel}:{line}", "method names are not constants")
        elif callee == caller or callee in COMPOSITE.get(caller, ()):
            ctx.ok("mapping", con)
        else:
            ctx.bad("mapping", con, f"{f.module.rel}:{line}", f"metadata given to {caller} are routed to {callee} of the estimator")
    routed = [m for m in SIMPLE if isinstance(c.find(m), FuncInfo) and not c.find(m).has_deco("abstractmethod")]
    gs = [g for g in groups(f) if g[1]]
    if gs and all(p[0] is not None for p in ps):
        for line, g, chain in gs:
            have = {b for a, b in g}
            for m in routed:
                k = f"{c.full}.{m}->router:{line - f.node.lineno}"
                if m in have:
                    ctx.ok("mapped", k)
                else:
                    ctx.bad("mapped", k, f"{f.module.rel}:{line}", f"{m} of {c.name} goes to the estimator, and its metadata are mapped to no method of it")
    elif ps and all(p[0] is not None for p in ps):
        have = {p[1] for p in ps}
        for m in routed:
            ctx.check(m in have, "mapped", f"{c.full}.{m}->router", f"{f.module.rel}:{f.node.lineno}", f"{m} of {c.name} goes to the estimator, and its metadata are mapped to no method of it")


# ------------------------------------------------------------------ availability
def tests(c, f, check):
    """(attribute names asked for, objects' attribute names) by the check given to available_if."""
    m, env = f.module, {}
    if isinstance(check, ast.Lambda):
        node, objs = check, [x.arg for x in check.args.args]
    elif isinstance(check, ast.Name):
        fi = (f.cls.methods.get(check.id) if f.cls is not None else None) or m.resolve(check.id)
        if not isinstance(fi, FuncInfo):
            return None
        node, objs = fi.node, fi.all_params[:1]
    else:
        fi = m.resolve_expr(check.func) if isinstance(check, ast.Call) else None
        if not isinstance(fi, FuncInfo):
            return None
        for q in fi.all_params:
            d = fi.default(q)
            if isinstance(d, ast.Constant):
                env[q] = d.value
        for q, a in zip(fi.params, check.args):
            env[q] = a.value if isinstance(a, ast.Constant) else None
        for k in check.keywords:
            env[k.arg] = k.value.value if isinstance(k.value, ast.Constant) else None
        node = fi.node
        objs = [x.args.args[0].arg for x in ast.walk(node) if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda)) and x.args.args]

    def val(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return env.get(e.id)
        return None

    names, owners = set(), set()
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) >= 2:
            o, s = x.args[0], val(x.args[1])
            if s is None:
                return None
            if isinstance(o, ast.Name) and o.id in objs:
                owners.add(s)
            else:
                names.add(s)
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in objs:
            owners.add(x.attr)
    return names, owners


def ctor_params(c):
    f = c.find("__init__")
    return set(f.all_params) - {"self"} if isinstance(f, FuncInfo) else set()


def availability(ctx, c):
    for m in SIMPLE + tuple(COMPOSITE):
        f = c.find(m)
        if not isinstance(f, FuncInfo):
            continue
        for d in f.node.decorator_list:
            if not (isinstance(d, ast.Call) and d.args and (isinstance(d.func, ast.Name) and d.func.id == "available_if" or isinstance(d.func, ast.Attribute) and d.func.attr == "available_if")):
                continue
            con = f"{c.full}.{m} available"
            site = f"{f.module.rel}:{f.node.lineno}"
            t = tests(c, f, d.args[0])
            if t is None:
                ctx.und("available", con, site, "check is not understood")
                continue
            names, owners = t
            want = {m} | set(COMPOSITE.get(m, ()))
            if names and not names & want:
                ctx.bad("available", con, site, f"{m} of {c.name} is offered when the estimator has {', '.join(sorted(names))}")
            elif names and owners and not owners & ctor_params(c) and not any(c.find_attr(o) for o in owners):
                ctx.bad("available", con, site, f"{m} of {c.name} is looked for on {', '.join(sorted(owners))}, and the constructor takes no such parameter: it is never offered")
            else:
                ctx.ok("available", con)


# ------------------------------------------------------------------ routed calls
def routed_calls(ctx, c):
    for m in ROUTED:
        f = c.find(m)
        if not isinstance(f, FuncInfo):
            continue
        con = f"{c.full}.{m}"
        R = Run(ctx.p)
        try:
            R.make(c)
            R.call(m, "N")
        except Exception as x:
            ctx.und("routed", con, None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(R.e)
        hits = 0
        for ev in R.e.events:
            if ev.kind != "call" or ev.phase != m:
                continue
            n = ev.node
            a = n.args[0]
            if a.op != "attr" or a.val not in ROUTED and a.val not in SIMPLE:
                continue
            if not estimator(a.args[0], c):
                continue
            hits += 1
            want = {m} | set(COMPOSITE.get(m, ()))
            if a.val not in want:
                ctx.bad("routed", con, ev.site, f"{m} of {c.name} calls {a.val} of the estimator")
                continue
            ctx.ok("routed", con)
            used = set()
            for k, v in n.kw.items():
                for x in nodes(v):
                    if x.op == "call" and x.args[0].op == "attr" and x.args[0].val in ("_route_params", "_consumes", "consumes", "route_params") and x.args[0].args[0].op == "attr" and x.args[0].args[0].val in SIMPLE + tuple(COMPOSITE):
                        used.add(x.args[0].args[0].val)
            given = {v.id for v in R.args.get((m, "N"), {}).values() if v is not None}
            meta = [k for k, v in n.kw.items() if k != "**" and v.op in ("param", "sub") and any(x.id in given for x in nodes(v))]
            if not used and meta:
                ctx.bad("request", con, ev.site, f"{a.val} of the estimator receives {meta[0]} whether it asked for it or not")
            elif not used:
                ctx.und("request", con, ev.site, "no request selects the metadata")
            elif used == {a.val}:
                ctx.ok("request", con)
            else:
                ctx.bad("request", con, ev.site, f"{a.val} of the estimator receives the metadata selected for {', '.join(sorted(used))}")
        if not hits:
            ctx.und("routed", con, f"{f.module.rel}:{f.node.lineno}", "no call of the estimator was found")


def estimator(n, c):
    """Whether a receiver is (a copy of) an estimator given to the selector or fitted by it."""
    ps = ctor_params(c)
    for x in nodes(n):
        if x.op == "attr0" and (x.val in ps or x.val.endswith("_")) or x.op in ("attr", "param") and isinstance(x.val, str) and x.val in ps:
            return True
    return False


def run(ctx):
    n = k = 0
    for c in ctx.classes():
        if requester(c):
            req = requests(ctx, c)
            missing(ctx, c, req)
            n += 1
        constructor(ctx, c)
        if "get_metadata_routing" in c.methods or any(isinstance(b, ClassInfo) and "get_metadata_routing" in b.methods for b in c.mro):
            router(ctx, c)
        availability(ctx, c)
    for c in ctx.scoped(selectors(ctx.p)):
        k += 1
        routed_calls(ctx, c)
    ctx.need(n, 30, "classes with metadata requests")
    ctx.need(k, 4, "selectors")
