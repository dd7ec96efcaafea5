"""Ownership of estimators.  Constructor and method parameters are followed through
attributes, joins and containers; clone and deepcopy give a new object.  Reported: a fit-like
or parameter-changing method, or an attribute assignment, applied to an object that may be
the caller's own; the same object put uncloned into a scikit-learn Pipeline that is then
fitted; defaults in signatures or at module level that make objects built from defaults
share one mutable estimator or container."""

import ast

from rules.c05 import in_accessor, parameterised
from sa.entries import function_runs, method_runs
from sa.facets import Facet
from sa.project import ClassInfo
from sa.vf import callee_name, flat_alts

TECHNIQUE = "static ownership analysis of estimator objects"
ASSUMPTIONS = ["scikit-learn meta-estimators other than Pipeline clone what they are given", "sklearn.base.clone and copy.deepcopy give independent objects"]

MUTATING = {"fit", "partial_fit", "fit_transform", "fit_predict", "fit_resample", "set_params", "initialize"}
NOCLONE = {"Pipeline", "make_pipeline", "FeatureUnion", "make_union", "ColumnTransformer_"}


class Own(Facet):
    """Names of the caller's objects a value may be."""

    def __init__(self, seeds):
        super().__init__()
        self.seeds = seeds

    def t_default(self, n):
        return frozenset()

    def t_param(self, n):
        return self.seeds.get(n.id, frozenset())

    def t_phi(self, n):
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        return r

    t_bool = t_tuple = t_list = t_phi

    def t_update(self, n):
        return self.get(n.args[0])

    def t_elem(self, n):
        return self.get(n.args[0])

    t_item = t_dval = t_sub = t_elem

    def t_call(self, n):
        tail = (callee_name(n) or "").split(".")[-1]
        if tail in NOCLONE:
            r = frozenset()
            for a in list(n.args[1:]) + list(n.kw.values()):
                r |= self.get(a)
            return r
        return frozenset()


def run(ctx):
    n = 0
    for c, m, R in method_runs(ctx, [c for c in ctx.classes() if parameterised(c)]):
        scan(ctx, f"{c.full}.{m}", R)
        n += 1
    for f, R in function_runs(ctx):
        scan(ctx, f.full, R)
        n += 1
    defaults(ctx)
    ctx.need(n, 150, "public functions and methods")


def scan(ctx, con, R):
    seeds = {}
    for ev in R.e.events:
        if ev.kind == "enter" and isinstance(ev.value, dict) and (ev.depth == 0 or ev.phase == "init"):
            for q, v in ev.value.items():
                for a in flat_alts(v) if v is not None else []:
                    if a.op == "param" and (a.extra or {}).get("role") in ("ctor", "arg") and a.val not in ("self", "net", "module", "model", "X", "y", "dataset"):
                        seeds[a.id] = frozenset([a.val])
    O = Own(seeds)
    k, ok = 0, True
    for ev in R.e.events:
        if in_accessor(ev):
            continue
        if ev.kind == "call":
            cal = ev.node.args[0]
            if cal.op == "attr" and cal.val in MUTATING:
                base = cal.args[0]
                if base.op in ("super", "inst"):
                    continue
                if cal.val == "set_params" and ev.phase == "init":
                    # options of the constructor that belong to the wrapped estimator
                    continue
                k += 1
                o = O.get(base)
                if o:
                    ok = False
                    ctx.bad("ownership", con, ev.site, f".{cal.val}() is applied to the object given as {sorted(o)[0]} itself, not to a clone")
            elif cal.op == "call" and callee_name(cal) == "builtins.getattr" and len(cal.args) > 2:
                nm = cal.args[2]
                names = {a.val for a in flat_alts(nm) if a.op == "const"}
                if names & MUTATING:
                    k += 1
                    o = O.get(cal.args[1])
                    if o:
                        ok = False
                        ctx.bad("ownership", con, ev.site, f"{sorted(names & MUTATING)[0]} is applied to the object given as {sorted(o)[0]} itself, not to a clone")
        elif ev.kind == "setattr" and ev.base is not None and ev.base.op != "inst":
            o = O.get(ev.base)
            if o and any(s in x for x in o for s in ("estimator", "classifier", "regressor", "clf", "model")):
                ok = False
                ctx.bad("ownership", con, ev.site, f"attribute {ev.name} of the object given as {sorted(o)[0]} is changed")
    if ok:
        ctx.ok("ownership", f"{con} ({k} fits)")


# ------------------------------------------------------------------ shared defaults
def mutable(m, e):
    """Why the expression builds a mutable object, or None."""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return "a " + type(e).__name__.lower()
    if isinstance(e, ast.Call):
        nm = ast.unparse(e.func)
        if nm in ("list", "dict", "set", "bytearray", "defaultdict"):
            return nm
        r = m.resolve_expr(e.func)
        if isinstance(r, ClassInfo):
            tails = {b.split(".")[-1] for b in r.ext_bases()}
            if tails & {"Enum", "IntEnum"}:
                return None
            return f"one {r.name}"
        dotted = getattr(r, "val", None) if not isinstance(r, tuple) else r[-1]
        last = nm.split(".")[-1]
        if last[:1].isupper() and last not in ("TypeVar", "Path", "Union", "Optional", "Literal", "NamedTuple"):
            return f"one {last}"
    return None


def defaults(ctx):
    n = 0
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        fns = list(m.functions.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for f in fns:
            if not hasattr(f.node, "args") or isinstance(f.node, ast.Lambda):
                continue
            a = f.node.args
            pos = a.posonlyargs + a.args
            pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for arg, d in pairs:
                n += 1
                why = mutable(m, d)
                if why is not None and why.startswith("one ") and (f.name == "__init__" or not estimatorish(m, d)):
                    # kept by a constructor: what its methods do to it is the ownership rule's matter
                    why = None
                if why is not None and escapes(f, arg.arg):
                    ctx.bad("default", f"{f.full}({arg.arg})", f"{m.rel}:{d.lineno}", f"every object built from this default shares {why}")
                else:
                    ctx.ok("default", f"{f.full}({arg.arg})")
        # module-level estimators used as defaults
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Call):
                why = mutable(m, st.value)
                nm = st.targets[0].id
                if why is None or not why.startswith("one ") or not estimatorish(m, st.value):
                    continue
                for f in fns:
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and not inside_clone(f.node, x):
                            ctx.bad("default", f"{f.full}<-{nm}", f"{m.rel}:{x.lineno}", f"objects share {why} made once for the module")
    ctx.need(n, 150, "defaults of parameters")


def estimatorish(m, e):
    r = m.resolve_expr(e.func)
    if isinstance(r, ClassInfo):
        return any(b.split(".")[-1] in ("BaseEstimator", "Module", "NeuralNet") for b in r.ext_bases())
    nm = ast.unparse(e.func).split(".")[-1]
    return nm[:1].isupper() and any(s in nm for s in ("Regress", "Classif", "SVC", "SVR", "Ridge", "PCA", "Scaler", "Neighbors", "KMeans", "Density", "Lasso", "Estimator", "MLP", "Pipeline", "Linear", "Tree", "Forest"))


def escapes(f, name):
    """The default is stored, returned or handed on (not merely read)."""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
            if not inside_clone(f.node, x):
                return True
    return False


def inside_clone(root, name):
    for x in ast.walk(root):
        if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("clone", "deepcopy", "copy") and any(y is name for a in x.args for y in ast.walk(a)):
            return True
    return False
