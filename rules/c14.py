"""Constructor value flow.  For every estimator, adapter, selector, splitter and scorer the
constructor (with the project's base constructors inlined) is walked with one symbolic value
per parameter: afterwards the attribute of the parameter's own name must hold that very
value on every path (a None may be replaced by a default), nothing derived from a parameter
may be stored under another name and used by other methods (setting the parameter later
would not follow), and free keyword options must be part of get_params."""

import ast

from sa.vf import Engine, Node, callee_name, flat_alts, show, walk

TECHNIQUE = "static value-flow analysis of constructors"
ASSUMPTIONS = ["a parameter handed to an external base constructor is stored by it"]


def in_scope(c):
    ext = [b.split(".")[-1] for b in c.ext_bases()]
    if "BaseEstimator" in ext:
        return "estimator"
    if "_BaseScorer" in ext:
        return "scorer"
    if c.has_base_named("SplitSampleDomainRequesterMixin"):
        return "splitter"
    return None


def none_test(cond, p):
    """'is None' / 'is not None' / truth test of the parameter."""
    if cond is None:
        return False
    if cond is p:
        return True
    if cond.op == "cmp" and cond.val in ("Is", "IsNot"):
        return cond.args[0] is p and cond.args[1].op == "const" and cond.args[1].val is None
    if cond.op == "unary" and cond.val == "Not":
        return none_test(cond.args[0], p)
    return False


def stored_ok(v, p, default_none):
    """(ok, why): the stored node is the parameter, or a default in place of None."""
    if v is p:
        return True
    if v.op == "phi" and default_none:
        others = [a for a in v.args if a is not p]
        if len(others) < len(v.args) and none_test(v.val, p):
            return all(stored_default(a, p) for a in others)
    if v.op == "bool" and v.val == "Or" and default_none and v.args and v.args[0] is p and len(v.args) == 2:
        return stored_default(v.args[1], p)
    if v.op == "phi":
        return all(stored_ok(a, p, default_none) for a in v.args)
    return False


def stored_default(a, p):
    return not any(x is p for x in walk(a))


def depends(v, params):
    for x in walk(v):
        if x.op == "param" and x in params:
            return x.val
    return None


def spoken(ctx, c):
    """A class that answers get_params itself names every constructor parameter with its value."""
    g, init = c.find("get_params"), c.find("__init__")
    if g is None or init is None or g.module.name.split(".")[0] != "skada" or init.module.name.split(".")[0] != "skada":
        return
    e = Engine(ctx.p)
    try:
        params = {q: e.param(q, role="ctor", nonnull=True) for q in init.params[1:] + init.kwonly}
        inst, st = e.instance(c, ctor=params)
        r, st = e.run(g, {q: e.const(True) for q in g.all_params if q == "deep"}, self_node=inst, st=st, phase="get_params")
    except Exception as x:
        ctx.und("walk", f"{c.full}.get_params", None, f"{type(x).__name__}: {x}")
        return
    ctx.analysed(e)
    for a in flat_alts(r):
        if a.op not in ("dict", "update"):
            ctx.und("get_params", f"{c.full}.get_params", None, "answer of unknown form")
            continue
        items, unk = e.dict_items(a, st)
        for q, p in params.items():
            con = f"{c.full}.get_params({q})"
            v = items.get(q)
            if v is None and unk is not None:
                ctx.und("get_params", con, None, "answer of unknown form")
            elif v is None:
                ctx.bad("get_params", con, g.full, f"the parameter {q} is not among those that are told")
            elif any(x is p for x in flat_alts(v)):
                ctx.ok("get_params", con)
            elif v.op == "const" or v.op == "param":
                ctx.bad("get_params", con, g.full, f"the parameter {q} is told to be {show(v, 3)}")
            else:
                ctx.und("get_params", con, None, "value of unknown form")


def run(ctx):
    n = 0
    for c in ctx.classes():
        if "get_params" in c.methods or any("get_params" in k.methods for k in c.project_mro()):
            spoken(ctx, c)
        kind = in_scope(c)
        if kind is None:
            continue
        init = c.find("__init__")
        if init is None:
            continue
        e = Engine(ctx.p)
        try:
            params = {q: e.param(q, role="ctor") for q in init.params[1:] + init.kwonly}
            inst, st = e.instance(c, ctor=params)
        except Exception as x:
            ctx.und("walk", c.full, None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(e)
        n += 1
        heap = {a: v for (o, a), v in st.heap.items() if o is inst.val}
        ext_init = set()
        for ev in e.events:
            if ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "__init__":
                for a in list(ev.node.args[1:]) + list(ev.node.kw.values()):
                    ext_init.update(x.id for x in flat_alts(a))
        own = set(params)
        for q, p in params.items():
            con = f"{c.full}({q})"
            v = heap.get(q)
            d = init.default(q)
            dnone = d is not None and isinstance(d, ast.Constant) and d.value is None
            if v is None:
                if p.id in ext_init:
                    # external base class constructors keep or consume it
                    ctx.ok("own-name", con)
                elif c.find(q) is not None or c.find_attr(q) is not None:
                    ctx.und("own-name", con, None, "attribute defined by the class")
                elif kind == "scorer":
                    pass  # scorers have no get_params; whether the option takes effect is C08's and C13's matter
                else:
                    ctx.bad("own-name", con, init.full, f"constructor parameter {q} is not stored under its own name")
                continue
            if stored_ok(v, p, dnone):
                ctx.ok("own-name", con)
            else:
                ctx.bad("own-name", con, init.full, f"attribute {q} holds {show(v, 3)}, not the parameter as given")
        # derived state
        ps = list(params.values())
        for a, v in heap.items():
            if a in own or kind == "scorer":
                continue
            q = depends(v, ps)
            if q is None:
                continue
            if reads_elsewhere(ctx, c, a) and not sets_elsewhere(c, a, q):
                ctx.bad("derived", f"{c.full}.{a}", init.full, f"computed from parameter {q} by the constructor and used later: set_params({q}=...) does not reach it")
            else:
                ctx.ok("derived", f"{c.full}.{a}")
        if init.kwarg and kind == "estimator":
            gp = c.find("get_params")
            con = f"{c.full}(**{init.kwarg})"
            if gp is None:
                ctx.bad("free-options", con, init.full, "options given as free keywords are not part of get_params: a clone loses them")
            else:
                ctx.ok("free-options", con)
        # the parameters that reading and setting go through
        for meth in ("get_params", "set_params"):
            gp = c.methods.get(meth)
            if gp is not None:
                accessor(ctx, c, gp, init)
    ctx.need(n, 45, "constructors of estimators, adapters, scorers and splitters")


def accessor(ctx, c, f, init):
    """get_params returns each parameter under its own name; set_params stores it there."""
    e = Engine(ctx.p)
    params = {q: e.param(q, role="ctor") for q in init.params[1:] + init.kwonly}
    try:
        inst, st = e.instance(c, ctor=params)
    except Exception as x:
        ctx.und("accessor", f"{c.full}.{f.name}", None, str(x))
        return
    if f.name == "get_params":
        r, st = e.run(f, {}, self_node=inst, st=st)
        for alt in flat_alts(r):
            items, unk = e.dict_items(alt, st)
            for q, p in params.items():
                con = f"{c.full}.get_params({q})"
                if q in items:
                    v = items[q]
                    if v is p or any(x is p for x in flat_alts(v)):
                        ctx.ok("accessor", con)
                    else:
                        ctx.bad("accessor", con, f.full, f"get_params gives {show(v, 3)} for {q}")
                elif unk is None or c.ext_bases() and not calls_super(c, f, "get_params"):
                    ctx.bad("accessor", con, f.full, f"get_params leaves out {q}")
    else:
        args = {q: e.param(q, nonnull=True, role="arg") for q in f.all_params if q != "self"}
        kn = e.param(f.kwarg, role="arg") if f.kwarg else None
        r, st = e.run(f, args, self_node=inst, st=st, kwargs_node=kn)
        for q, a in args.items():
            if q not in params:
                continue
            v = st.heap.get((inst.val, q))
            con = f"{c.full}.set_params({q})"
            if v is not None and any(x is a for x in flat_alts(v)):
                ctx.ok("accessor", con)
            else:
                ctx.bad("accessor", con, f.full, f"set_params({q}=...) does not change the attribute {q}")
        nested(ctx, c, f, e, inst, kn)
        falsy(ctx, c, f, init)
    ctx.analysed(e)


def falsy(ctx, c, f, init):
    """Both settings of a flag are stored: the value that means "not given" is None."""
    for q in f.all_params:
        d, t = init.default(q) if q in init.all_params else None, f.default(q)
        if not (isinstance(d, ast.Constant) and isinstance(d.value, bool) and isinstance(t, ast.Constant) and t.value is None):
            continue
        for val in (True, False):
            e = Engine(ctx.p)
            try:
                inst, st = e.instance(c, ctor={q: e.const(not val)})
                args = {a: e.param(a, nonnull=True, role="arg") for a in f.all_params if a != "self"}
                args[q] = e.const(val)
                r, st = e.run(f, args, self_node=inst, st=st)
            except Exception as x:
                ctx.und("accessor", f"{c.full}.set_params({q}={val})", None, str(x))
                continue
            v = st.heap.get((inst.val, q))
            con = f"{c.full}.set_params({q}={val})"
            if v is not None and v.op == "const" and v.val is (not val):
                ctx.bad("accessor", con, f.full, f"set_params({q}={val}) leaves {q} at {not val}")
            elif v is not None and v.op == "const":
                ctx.ok("accessor", con)


def nested(ctx, c, f, e, inst, kn):
    """Settings of the wrapped object reach that object, not a copy that is thrown away."""
    if not f.kwarg:
        return
    got = []
    for ev in e.events:
        if ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "set_params" and "**" in ev.node.kw:
            got.append((ev, ev.node.args[0].args[0]))
    kept = {x.id for ev in e.events if ev.kind == "setattr" for x in flat_alts(ev.value)}
    con = f"{c.full}.set_params(**{f.kwarg})"
    used = [ev for ev in e.events for n in (ev.node, ev.value) if isinstance(n, Node) and any(x is kn for x in walk(n))]
    if not used:
        ctx.bad("accessor", con, f.full, "the settings given by other names go nowhere")
    for ev, to in got:
        lost = [x for x in flat_alts(to) if x.op == "call" and (callee_name(x) or "").split(".")[-1] in ("clone", "deepcopy", "copy") and x.id not in kept]
        if lost:
            ctx.bad("accessor", con, ev.site, "the settings are given to a copy that is not kept")
        else:
            ctx.ok("accessor", con)


def calls_super(c, f, name, seen=()):
    """Does a method, or a method of the object it goes through, read the accessor of a base?"""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute) and x.attr == name:
            return True
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and f.params and x.value.id == f.params[0]:
            g = c.find(x.attr)
            if g is not None and g is not f and g not in seen and hasattr(g, "node") and calls_super(c, g, name, seen + (f,)):
                return True
    return False


def reads_elsewhere(ctx, c, a):
    for k in c.project_mro():
        for nme, f in k.methods.items():
            if nme == "__init__":
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load):
                    return True
    return False


def sets_elsewhere(c, a, q):
    """Some other method (set_params, a property setter, fit) recomputes it."""
    for k in c.project_mro():
        for nme, f in k.methods.items():
            if nme == "__init__":
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store):
                    return True
    return False
