"""Options with named alternatives.  An option is a parameter (of a function, a method or a
constructor) compared with string constants, or looked up in a table of strings, anywhere
in the code the entry reaches.  Each entry is walked once per alternative and once with a
name that is none of them.  The unknown name must end in an error of its own: the walk
stops, or raises where no alternative raises; unless the name is handed to code that is not
analysed.  With the option fixed, no walk may read a variable some path has not assigned, and no two
alternatives are handled by the same statements (distinct)."""

import ast

from sa.project import ClassInfo, FuncInfo
from sa.scenario import Run
from sa.vf import callee_name, flat_alts, show
from sa.vf import walk as nodes

TECHNIQUE = "static exploration of the option chains by partial evaluation: one walk per named alternative and one for an unknown name"
ASSUMPTIONS = ["an unknown option handed to an external function is validated there"]

OTHER = "<no such name>"
ENTRY = ("fit", "fit_transform", "transform", "predict", "predict_proba", "decision_function", "score", "_score", "split", "forward", "__call__", "__iter__", "compute_weights")


def strings(n, e, st):
    """String constants of a comparison partner."""
    out = set()
    for a in flat_alts(n):
        if a.op == "const" and isinstance(a.val, str):
            out.add(a.val)
        elif a.op in ("tuple", "list", "set"):
            out |= {x.val for x in a.args if x.op == "const" and isinstance(x.val, str)}
        else:
            b = e.base_of(a)
            if b.op == "dict":
                items, _ = e.dict_items(a, st)
                out |= {k for k in items if isinstance(k, str)}
    return out


def names(n, params):
    """Entry parameters an expression is (an alternative of)."""
    return {a.val for a in flat_alts(n) if a.op == "param" and a.val in params}


def discover(R, params):
    """option -> {"alts": names, "where": sites, "phases": phases}."""
    e, out = R.e, {}

    def put(p, alts, ev):
        d = out.setdefault(p, {"alts": set(), "site": ev.site, "phases": set(), "lines": set()})
        d["alts"] |= alts
        d["phases"].add(ev.phase)
        d["lines"].add(str(ev.site))

    for ev in e.events:
        if ev.kind == "cmp" and ev.node.val in ("Eq", "NotEq", "In", "NotIn"):
            l, r = ev.node.args
            for a, b in ((l, r), (r, l)):
                if ev.node.val in ("In", "NotIn") and a is r:
                    continue
                ps = names(a, params)
                ss = strings(b, e, R.st) if ps else ()
                for p in ps:
                    if ss:
                        put(p, set(ss), ev)
        elif ev.kind == "sub":
            ps = names(ev.index, params)
            if ps and e.base_of(ev.base).op == "dict":
                ss = strings(ev.base, e, R.st)
                for p in ps:
                    if ss:
                        put(p, set(ss), ev)
        elif ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "get" and len(ev.node.args) > 1:
            ps = names(ev.node.args[1], params)
            b = ev.node.args[0].args[0]
            if ps and e.base_of(b).op == "dict":
                ss = strings(b, e, R.st)
                for p in ps:
                    if ss:
                        put(p, set(ss), ev)
    return out


class Walk:
    """One walk of an entry with one option fixed."""

    def __init__(self, ctx, entry, opt=None, value=None):
        kind, obj, meth = entry
        self.dead = self.result = None
        R = self.R = Run(ctx.p)
        fix = {opt: R.e.const(value)} if opt is not None else {}
        if kind == "func":
            a = R.data(obj, "N")
            a.update(fix)
            R.args[(obj.name, "N")] = a
            self.result, st = R.e.run(obj, a, phase=obj.name)
            self.dead = st.dead
            R.st = st
        elif kind == "class":
            R.make(obj, ctor=fix)
            self.dead = R.e.init_dead
            for m in ENTRY:
                f = obj.find(m)
                if isinstance(f, FuncInfo) and not f.has_deco("abstractmethod"):
                    R.call(m, "N", keep=m in ("fit", "fit_transform"))
        else:
            R.make(obj)
            f = obj.find(meth)
            a = R.data(f, "N")
            a.update(fix)
            kn = R.e.mk("dict", (), val=[]) if f.kwarg else None
            self.result, st = R.e.run(f, a, self_node=R.self_node, st=R.st, phase=meth, kwargs_node=kn)
            self.dead = st.dead
        ctx.analysed(R.e)

    def raises(self):
        """Errors that can be reached; an assertion known to hold is none."""
        return {str(ev.site): ev for ev in self.R.e.events if ev.kind == "raise" or ev.kind == "assert" and not (ev.node.op == "const" and ev.node.val)}

    @property
    def interesting(self):
        return any(ev.kind in ("call", "return") for ev in self.R.e.events)

    def unbound(self):
        return [ev for ev in self.R.e.events if ev.kind == "maybe_unbound"]

    def lookups(self):
        return [ev for ev in self.R.e.events if ev.kind == "sub" and ev.index is not None and any(is_other(a) for a in flat_alts(ev.index))]

    def consumers(self):
        """Calls of code that is not analysed with the unknown name among the arguments."""
        out = []
        for ev in self.R.e.events:
            if ev.kind == "call" and holds(ev.node):
                nm = (callee_name(ev.node) or "").split(".")[-1]
                if nm not in HARMLESS and not nm.endswith(("Error", "Warning", "Exception")):
                    out.append((ev, nm))
            elif ev.kind == "bin" and any(is_other(a) for x in ev.node.args for a in flat_alts(x)):
                out.append((ev, "arithmetic"))
        return out


HARMLESS = {"isinstance", "callable", "hasattr", "warn", "str", "repr", "format", "print", "type", "len", "get", "lower", "join", "isscalar", "info", "debug"}


def is_other(n):
    return n.op == "const" and isinstance(n.val, str) and n.val == OTHER


def holds(n):
    """The unknown name is passed as an argument (or inside a container given as one)."""
    args = list(n.args[1:]) + list(n.kw.values())
    for a in args:
        for x in flat_alts(a):
            if is_other(x):
                return True
            if x.op in ("tuple", "list", "dict", "set", "update") and any(is_other(y) for y in nodes(x)):
                return True
    return False


# ------------------------------------------------------------------ verdicts
def key(g):
    return show(g[0], 6), g[1]


def plain(n, opt):
    """A test on a parameter or attribute other than the option, whatever the data."""
    if n.op == "not":
        return plain(n.args[0], opt)
    if n.op == "cmp" and any(a.op == "const" for a in n.args):
        n = next((a for a in n.args if a.op != "const"), n)
    return n.op in ("param", "attr0") and n.val != opt


def conditional(ev, cmps, opt, looping=()):
    """A test the error depends on, and some comparison of the option does not."""
    for g, pol in ev.guards:
        if plain(g, opt) and g.op != "iter" and g.id not in looping and all((show(g, 6), pol) not in {key(x) for x in c} for c in cmps):
            return g, pol
    return None


def entry_name(entry):
    kind, obj, meth = entry
    return obj.full + (f".{meth}" if meth else "")


def entries(ctx):
    for f in ctx.p.functions():
        if f.cls is None and f.parent is None and not f.name.startswith("_") and ctx.inscope(f):
            yield ("func", f, None), set(f.all_params)
    for c in ctx.classes():
        if c.name.startswith("_"):
            continue
        i = c.find("__init__")
        yield ("class", c, None), (set(i.all_params) if i is not None else set()) - {"self"}
        for m, f in c.methods.items():
            if not m.startswith("_") and "#" not in m and not f.has_deco("property", "staticmethod", "abstractmethod"):
                yield ("method", c, m), set(f.all_params) - {"self"}


def site_of(entry):
    kind, obj, meth = entry
    n = obj.methods[meth].node if meth else obj.node
    return f"{obj.module.rel}:{n.lineno}"


def option(ctx, entry, opt, d, cmps):
    con = f"{entry_name(entry)}({opt})"
    alts = sorted(d["alts"])
    site = d["site"]
    try:
        runs = [Walk(ctx, entry, opt, a) for a in alts]
        x = Walk(ctx, entry, opt, OTHER)
    except Exception as err:
        ctx.und("unknown", con, site, f"{type(err).__name__}: {err}")
        return runs_unbound([])
    known = set()
    for r in runs:
        known |= set(r.raises())
    extra = [ev for s, ev in x.raises().items() if s not in known]
    names_ = ", ".join(alts)
    if x.dead and not all(r.dead for r in runs):
        ctx.ok("unknown", con, site, f"one of {names_}")
    elif extra:
        cond = [conditional(ev, cmps, opt, x.R.e.loop_tests) for ev in extra]
        if all(c is not None for c in cond):
            ctx.bad("unknown", con, extra[0].site, f"an unknown {opt} (not one of {names_}) is only rejected when {show(cond[0][0], 3)} is {cond[0][1]}, and taken for one of them otherwise")
        else:
            ctx.ok("unknown", con, site, f"one of {names_}")
    elif x.lookups():
        ctx.ok("unknown", con, site, f"missing key: {names_}")
    elif x.consumers():
        ev, nm = x.consumers()[0]
        ctx.ok("unknown", con, site, f"handed to {nm}")
    elif x.unbound():
        ev = x.unbound()[0]
        ctx.bad("unknown", con, ev.site, f"with an unknown {opt} (not one of {names_}) the variable {ev.name} is never assigned")
    elif not x.interesting:
        ctx.und("unknown", con, site, "the option is not used by the methods walked")
    elif any(s in known and all(vague(r.raises()[s]) for r in runs if s in r.raises()) for s in x.raises()):
        ctx.und("unknown", con, site, "the error may be reached with a named alternative too, as far as the walk can tell")
    else:
        ctx.bad("unknown", con, site, f"an unknown {opt} (not one of {names_}) raises no error: it is taken for one of them")
    for a, r in zip(alts, runs):
        k = f"{con}={a}"
        for ev in r.R.e.events:
            if ev.kind == "undefined":
                ctx.bad("unassigned", f"{k}:{ev.name}", ev.site, f"{ev.name} is read although nothing assigns it when {opt} is {a!r}")
        if r.dead:
            ctx.bad("alternative", k, site, f"{opt} is compared with {a!r}, and this value always ends in an error")
        else:
            ctx.ok("alternative", k)
    return runs_unbound(runs)


def vague(ev):
    """Reached under a comparison of a string that is one of several constants."""
    return any(g.op == "cmp" and any(len(flat_alts(a)) > 1 and all(y.op == "const" for y in flat_alts(a)) for a in g.args) for g, _ in ev.guards)


def runs_unbound(runs):
    """Variables unassigned on some path although the option is one of its alternatives."""
    out = None
    for r in runs:
        s = {(str(ev.site), ev.name) for ev in r.unbound()}
        out = s if out is None else out | s
    return out


def leaves(n):
    return {(x.op, x.val) for x in nodes(n) if x.op in ("param", "attr0") and isinstance(x.val, str)}


def unbound(ctx, entry, w, fixed):
    con = entry_name(entry)
    seen = False
    for ev in w.unbound():
        if any(s is not None and (str(ev.site), ev.name) not in s for s in fixed):
            continue
        cond = ev.node.val
        related = False
        if cond is not None and hasattr(cond, "op"):
            lc = leaves(cond)
            related = any(lc & leaves(g) for g, _ in ev.guards) or not lc
        else:
            related = True
        if related:
            ctx.und("unassigned", f"{con}:{ev.name}", ev.site, "assigned under a related condition")
        else:
            ctx.bad("unassigned", f"{con}:{ev.name}", ev.site, f"{ev.name} is read although no value is assigned to it unless {show(cond, 4)}")
        seen = True
    if not seen:
        ctx.ok("unassigned", con)


def tested(t):
    """(expression, string) of a comparison with a named alternative."""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
        for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
            if isinstance(b, ast.Constant) and isinstance(b.value, str) and not isinstance(a, ast.Constant):
                return ast.dump(a), b.value
    return None


def distinct(ctx):
    """Two alternatives of an option are not handled by the very same statements."""
    for f in ctx.p.functions():
        if not ctx.inscope(f):
            continue
        seen, hit = {}, False
        for x in ast.walk(f.node):
            t = tested(x.test) if isinstance(x, ast.If) else None
            body = [s for s in x.body if not isinstance(s, ast.Pass)] if t else []
            if not body or all(isinstance(s, ast.Raise) for s in body):
                continue
            k = (t[0], "".join(ast.dump(s) for s in body))
            hit = True
            if k in seen and seen[k][0] != t[1]:
                ctx.bad("distinct", f"{f.full}({ast.unparse(x.test)})", f"{f.module.rel}:{x.lineno} ({f.qual})", f"{t[1]!r} is handled as {seen[k][0]!r}")
            seen.setdefault(k, (t[1], x.lineno))
        if hit:
            ctx.ok("distinct", f.full)


def run(ctx):
    n = m = 0
    distinct(ctx)
    for entry, params in entries(ctx):
        n += 1
        try:
            w = Walk(ctx, entry)
        except Exception as x:
            ctx.und("walk", entry_name(entry), site_of(entry), f"{type(x).__name__}: {x}")
            continue
        fixed = []
        for opt, d in sorted(discover(w.R, params).items()):
            m += 1
            cmps = [ev.guards for ev in w.R.e.events if ev.kind in ("cmp", "sub", "call") and str(ev.site) in d["lines"]]
            fixed.append(option(ctx, entry, opt, d, cmps))
        unbound(ctx, entry, w, fixed)
    ctx.need(n, 250, "entries")
    ctx.need(m, 25, "options with named alternatives")
