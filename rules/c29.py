"""What a result was learned from.  Every adapter and estimator is walked on a sample set N
for fitting and M afterwards; data dependences are followed through values, attributes and
the objects that were fitted on the way (sizes and conditions aside) back to the features of
N, and to the source or target part of them.  Decided: (both) a result depends on the
features of both the source and the target samples of the fit, (named) an attribute named
for one kind of domain depends on the samples of that kind, (apart) two
attributes named for the two kinds are not one object, (applied) the source (target)
part of a transformed array does not come from statistics of the other kind alone."""

import ast

from rules.c02 import name_role
from sa.facets import role
from sa.rowscan import ALLN, class_runs, decided
from sa.scenario import SRC_NAMES, TGT_NAMES
from sa.vf import Node, callee_name

TECHNIQUE = "static dependence analysis (value flow with fitted-object state) split by domain role"
ASSUMPTIONS = [
    "a method of an external object given samples (fit, fit_transform, partial_fit) makes the object depend on them",
    "a dependence on all samples together counts as a dependence on both kinds",
]

FITS = {"fit", "fit_transform", "partial_fit", "fit_predict", "fit_resample"}
SHAPE = {"shape", "size", "dtype", "ndim", "device"}
SIZE = {"builtins.len", "numpy.shape", "sklearn.utils.validation._num_samples", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "torch.zeros_like", "torch.ones_like", "builtins.isinstance", "builtins.type", "builtins.hasattr"}
SIDES = {"SRC", "TGT"}
WORD = {"SRC": "source", "TGT": "target"}


class Origin:
    """Which features of the samples of the fit a value depends on."""

    def __init__(self, R, base="N"):
        self.R, self.base = R, base
        self.memo = {}
        self.objects = {}
        for ev in R.e.events:
            if ev.kind != "call" or ev.node is None or ev.phase not in ("init", "fit", "fit_transform", "_score"):
                continue
            c = ev.node.args[0]
            if c.op != "attr":
                continue
            o, given = c.args[0].root, list(ev.node.args[1:]) + list(ev.node.kw.values())
            if c.val in FITS:
                self.objects.setdefault(o.id, []).extend(given)
            elif c.val == "step" and o.op == "call" and (callee_name(o) or "").startswith("torch.optim."):
                # an optimiser moves the tensors it was made for by what the closure computes
                for a in o.args[1:]:
                    for t in elements(a):
                        self.objects.setdefault(t.root.id, []).extend(given or [o])

    def plain(self, n, d=0, base=None):
        base = base or self.base
        """The features themselves, checked or copied."""
        n = n.root
        if n.op == "param":
            return n.val == "X" and (n.extra or {}).get("base") == base
        if d < 5 and n.op == "call" and len(n.args) > 1:
            return self.plain(n.args[1], d + 1, base) if n.args[0].op == "ext" else False
        return False

    def of(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        out, seen, stack = set(), set(), [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, Node) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "param":
                if x.val == "X" and (x.extra or {}).get("base") in ("N", "M"):
                    out.add("ALL" if x.extra["base"] == self.base else "NOW")
                continue
            if x.op == "attr" and x.val in SHAPE or x.op == "call" and callee_name(x) in SIZE:
                continue
            if x.op == "cmp" and x.val in ("Is", "IsNot"):
                continue
            if x.op in ("attr0", "call") and x.op == "attr0":
                if (x.extra or {}).get("role") != "ctor":
                    out.add("?")
                continue
            if x.op == "sub" and self.plain(x.args[0]):
                rs = {role(y.rows) for y in decided(self.R.rows.get(x))}
                if len(rs) == 1 and None not in rs:
                    out |= rs
                else:
                    out.add("?")
                continue
            if x.op == "phi" and isinstance(x.val, Node):
                stack.append(x.val)
            stack.extend(x.args)
            stack.extend(x.kw.values())
            if x.op in ("dict", "list", "tuple") and isinstance(x.val, list):
                for k, v in x.val:
                    stack.append(v)
            if x.op == "func":
                stack.extend(y for y in x.val.captured.values() if y is not None)
                if None in x.val.captured.values():
                    out.add("?")
            stack.extend(self.objects.get(x.root.id, ()))
            if x.op == "inst":
                out.add("?")
        self.memo[n.id] = out
        return out


def elements(n, d=0):
    """A container and everything in it."""
    out = [n]
    if d < 6 and n.op in ("list", "tuple", "phi", "comp", "useq", "gen", "loop"):
        for a in n.args:
            out += elements(a, d + 1)
    return out


def sides(o):
    return set(SIDES) if o & {"ALL", "?"} else o & SIDES


def helpers(ctx):
    """A helper that is given data of both domains reads both."""
    for f in ctx.scoped(list(ctx.p.functions())):
        sides = {"SRC": [q for q in f.all_params if q in SRC_NAMES], "TGT": [q for q in f.all_params if q in TGT_NAMES]}
        if not sides["SRC"] or not sides["TGT"] or f.name == "forward" or f.kwarg and f.cls is None:
            continue
        if f.cls is not None and any(f.name in c.methods for c in f.cls.project_mro() if c is not f.cls):
            continue
        body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)) and not isinstance(b, (ast.Pass, ast.Raise))]
        if not body:
            continue
        read = {y.id for b in body for y in ast.walk(b) if isinstance(y, ast.Name)}
        if "locals" in read or any(f.name in d.methods and d is not f.cls and f.cls in d.project_mro() for d in ctx.p.classes()) and f.cls is not None:
            continue
        for r, qs in sides.items():
            ctx.check(any(q in read for q in qs), "helper", f"{f.full}: {WORD[r]}", f.full, f"is given data of the {WORD[r]} domain and never reads them")


def run(ctx):
    n = 0
    for w, c, R in class_runs(ctx, ("adapters", "estimators", "scorers")):
        O = Origin(R, "M" if w == "scorers" else "N")
        learned = {}
        for ev in R.e.events:
            if ev.kind == "setattr" and ev.phase in ("fit", "fit_transform", "_score") and ev.base is R.self_node and isinstance(ev.value, Node):
                learned[ev.name] = (ev, O.of(ev.value))
        named(ctx, c, learned)
        if w == "scorers":
            continue
        n += 1
        both(ctx, c, R, O)
        applied(ctx, c, R, O)
    helpers(ctx)
    ctx.need(n, 20, "adapters and estimators that learn from features")


def named(ctx, c, learned):
    for a, (ev, o) in sorted(learned.items()):
        r = name_role(a)
        if r is None or a.startswith("_"):
            continue
        con = f"{c.full}.{a}"
        if "?" in o or not o & {"SRC", "TGT", "ALL"}:
            ctx.und("named", con, None, "origin not known")
        elif r in o:
            ctx.ok("named", con)
        else:
            ctx.bad("named", con, ev.site, f"{a} is learned from {'all' if 'ALL' in o else WORD[(o & SIDES).pop()]} samples")


    for a, (ev, o) in sorted(learned.items()):
        b = a.replace("source", "target")
        if b != a and b in learned and name_role(a) == "SRC" and name_role(b) == "TGT":
            v, w = ev.value.root, learned[b][0].value.root
            ctx.check(v is not w or v.op in ("const", "param", "attr0"), "apart", f"{c.full}.{a}", learned[b][0].site, f"{a} and {b} are one object")


def both(ctx, c, R, O):
    for (m, b), r in sorted(R.results.items()):
        if r is None or m not in ("transform", "predict", "fit_transform") or c.find(m) is None:
            continue
        con = f"{c.full}.{m}"
        o, unchanged = set(), False
        for part in flat(R, r):
            if O.plain(part, base=b):
                unchanged = True
            else:
                o |= O.of(part)
        if not o or unchanged and b == "M":
            ctx.und("both", con, None, "result does not depend on features, or gives X back")
            continue
        s = sides(o)
        if s == SIDES:
            ctx.ok("both", con)
        elif m != "fit_transform" or s:
            fi = c.find(m)
            ctx.bad("both", con, f"{fi.module.rel}:{fi.node.lineno} ({fi.qual})", "the result depends on " + (f"the {WORD[min(s)]} samples of the fit alone" if s else "nothing that was learned in the fit"))


def flat(R, n):
    from rules.c01 import flat as f

    return f(R, n)


def applied(ctx, c, R, O):
    for ev in R.e.events:
        if ev.phase != "transform":
            continue
        parts = []
        if ev.kind == "enter" and (ev.name or "").split(":")[-1].endswith("source_target_merge") and isinstance(ev.value, dict):
            a = ev.value.get("arrays")
            if a is not None and a.op == "tuple" and len(a.args) == 2:
                parts = [(a.args[0], "SRC"), (a.args[1], "TGT")]
        elif ev.kind == "setitem" and ev.value is not None:
            ms = [x for x in R.rows.get(R.rows.first_index(ev.index)) if x.kind in ("mask", "idx") and x.pol in ("SRC", "TGT")]
            if ms and len({x.pol for x in ms}) == 1:
                parts = [(ev.value, ms[0].pol)]
        for v, side in parts:
            con = f"{c.full}.transform:{WORD[side]}"
            o = O.of(v)
            if not o & {"ALL", "?"} and o & SIDES and side not in o:
                ctx.bad("applied", con, ev.site, f"the {WORD[side]} part of the result comes from what was learned on {WORD[(o & SIDES).pop()]} samples alone")
            else:
                ctx.ok("applied", con)
