"""Optional packages stay optional.  The package is rewritten to what it is where packages
that are not declared as dependencies are missing: their imports raise ImportError, a try
statement that catches it is replaced by its handler, modules whose import fails fail their
importers in turn (to a fixed point).  (import) Every module outside the parts that need the
package still imports.  (clear) The parts that need it fail with an ImportError, which is what
guarded imports of them catch.  (names) No code that runs at import time reads a name that is
bound only where the package is there, and (use) neither does any public function or method
reached without an error before; nor does it use the placeholder in the place of the package.
(order) With all packages there, no import of a name meets a module that is still being
imported and has not bound the name yet."""

import ast
import builtins
import os
import re
import sys

from sa.ctx import Ctx
from sa.entries import function_runs, method_runs
from sa.project import Project

TECHNIQUE = "static import-graph fixed point and partial evaluation of the package with its optional imports removed; simulated import order"
ASSUMPTIONS = ["declared dependencies are those of pyproject.toml, with what scikit-learn itself depends on", "a package that is missing raises ImportError when it is imported"]

NAMES = {"scikit-learn": "sklearn", "pot": "ot", "pillow": "PIL", "scikit-image": "skimage", "opencv-python": "cv2", "pyyaml": "yaml"}
BROUGHT = {"sklearn": {"joblib", "threadpoolctl"}, "pandas": {"dateutil", "pytz"}}
CATCH = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
# parts that are for users of torch only
NEEDS = ("skada.deep",)


def declared(repo):
    path = os.path.join(repo, "pyproject.toml")
    base = {"numpy", "scipy", "sklearn", "ot", "pandas"}
    try:
        import tomllib

        with open(path, "rb") as f:
            deps = tomllib.load(f)["project"]["dependencies"]
        base = set()
        for d in deps:
            n = re.split(r"[\s<>=!~;\[]", d.strip(), maxsplit=1)[0].lower()
            base.add(NAMES.get(n, n.replace("-", "_")))
    except (OSError, KeyError, ValueError):
        pass
    for b in list(base):
        base |= BROUGHT.get(b, set())
    return base


class Absent:
    """The rewriting for a set of missing packages."""

    def __init__(self, project, missing):
        self.p, self.missing = project, missing
        self.failing = {}
        self.order()

    def order(self):
        """Modules that cannot be imported: name -> (line, reason, raised)."""
        while True:
            new = {}
            for name, m in self.p.modules.items():
                pk, why = name, None
                while "." in pk:
                    pk = pk.rpartition(".")[0]
                    if pk in self.failing:
                        why = self.failing[pk]
                        break
                if why is None:
                    _, why = self.block(m.tree.body, m)
                else:
                    why = (0, f"its package {pk} fails", why[2])
                if why is not None:
                    new[name] = why
            if set(new) == set(self.failing):
                self.failing = new
                return
            self.failing = new

    def fails(self, st, m):
        """Reason an import statement fails, or None."""
        tgts = []
        if isinstance(st, ast.Import):
            tgts = [a.name for a in st.names]
        elif isinstance(st, ast.ImportFrom):
            base = st.module or ""
            if st.level:
                base = m._pkg(st.level) + ("." + base if base else "")
            tgts = [base] + [base + "." + a.name for a in st.names if base + "." + a.name in self.p.modules]
        for t in tgts:
            top = t.split(".")[0]
            if top in self.missing:
                return (st.lineno, f"imports {t}", "ImportError")
            if top == self.p.package and top != m.name:
                parts = t.split(".")
                for i in range(1, len(parts) + 1):
                    mod = ".".join(parts[:i])
                    if mod in self.failing and not (m.name + ".").startswith(mod + "."):
                        return (st.lineno, f"imports {mod}, which {self.failing[mod][1]}", self.failing[mod][2])
        return None

    def block(self, stmts, m, infn=False):
        """(statements where the packages are missing, reason the block fails)."""
        out = []
        for st in stmts:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                why = self.fails(st, m)
                if why is not None:
                    out.append(ast.copy_location(ast.Raise(ast.copy_location(ast.Name("ImportError", ast.Load()), st), None), st))
                    return out, why
                out.append(st)
            elif isinstance(st, ast.Try):
                body, why = self.block(st.body, m, infn)
                if why is None:
                    out.append(self.inner(st, m, infn))
                    continue
                out += body[:-1]
                h = next((h for h in st.handlers if self.catches(h, why[2])), None)
                if h is None:
                    fin, _ = self.block(st.finalbody, m, infn)
                    out += fin + [body[-1]]
                    return out, why
                hb, hw = self.block(h.body, m, infn)
                if h.name:
                    out.append(ast.copy_location(ast.Assign([ast.Name(h.name, ast.Store())], ast.Call(ast.Name("ImportError", ast.Load()), [], [])), h))
                out += hb
                fin, fw = self.block(st.finalbody, m, infn)
                if hw is not None or ends(hb):
                    out += fin
                    r = hw or (hb[-1].lineno, why[1], raised(hb[-1], why[2]))
                    return out, r
                out += fin
                if fw is not None:
                    return out, fw
            elif isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING":
                    b, why = self.block(st.orelse, m, infn)
                    out += b
                    if why is not None:
                        return out, why
                    continue
                out.append(self.inner(st, m, infn))
            elif isinstance(st, ast.With) and not infn:
                sup = [i.context_expr for i in st.items if isinstance(i.context_expr, ast.Call) and (m.dotted(i.context_expr) or "").endswith("suppress")]
                b, why = self.block(st.body, m, infn)
                if why is not None and sup:
                    out += b[:-1]
                    continue
                out.append(ast.copy_location(ast.With(st.items, b), st))
                if why is not None:
                    return out, why
            else:
                out.append(self.inner(st, m, infn))
        return out, None

    def inner(self, st, m, infn):
        """A statement with the blocks inside it rewritten."""
        st = shallow(st)
        fn = infn or isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(st, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(st, fld, self.block(b, m, fn)[0] or [ast.copy_location(ast.Pass(), st)])
        if getattr(st, "handlers", None):
            hs = []
            for h in st.handlers:
                h = shallow(h)
                h.body = self.block(h.body, m, fn)[0] or [ast.copy_location(ast.Pass(), h)]
                hs.append(h)
            st.handlers = hs
        return st

    @staticmethod
    def catches(h, exc):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = {t.id if isinstance(t, ast.Name) else getattr(t, "attr", "") for t in ts}
        if exc == "ImportError":
            # what is missing raises ModuleNotFoundError, a kind of ImportError
            return bool(names & CATCH)
        return exc in names or bool(names & {"Exception", "BaseException"})

    def rewrite(self, name, tree):
        m = self.p.modules.get(name)
        if m is None:
            return tree
        body, _ = self.block(m.tree.body, m)
        t = ast.Module(body, [])
        return ast.fix_missing_locations(t)


def shallow(n):
    c = type(n)(**{f: getattr(n, f) for f in n._fields if hasattr(n, f)})
    return ast.copy_location(c, n)


def ends(b):
    return bool(b) and isinstance(b[-1], ast.Raise)


def raised(st, was):
    """Name of the exception a raise statement raises."""
    e = st.exc
    if e is None or isinstance(e, ast.Name) and e.id not in dir(builtins):
        return was
    if isinstance(e, ast.Call):
        e = e.func
    return e.id if isinstance(e, ast.Name) else getattr(e, "attr", was)


def import_time(m):
    """Expressions evaluated when the module is imported, with the names bound before."""
    future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)

    def fn(f):
        a = f.args
        out = list(f.decorator_list) + list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        if not future:
            out += [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y] if x.annotation is not None]
            out += [f.returns] if f.returns is not None else []
        return out

    def rec(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for e in fn(s):
                    yield e
            elif isinstance(s, ast.ClassDef):
                for e in list(s.bases) + [k.value for k in s.keywords] + list(s.decorator_list):
                    yield e
                yield from rec(s.body)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                # statements that run under a condition are left to the walk of their uses
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, ast.expr):
                        yield x
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    yield s.value
                if not future and s.annotation is not None:
                    yield s.annotation
            elif isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)):
                yield s.value

    yield from rec(m.tree.body)


def free_names(e):
    inner = {a.arg for x in ast.walk(e) if isinstance(x, ast.Lambda) for a in x.args.args + x.args.kwonlyargs}
    inner |= {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for x in ast.walk(e):
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
            yield x


def class_names(m):
    return {a for c in m.classes.values() for a in list(c.attrs) + list(c.methods)}


def optional(project, have):
    """Top-level packages imported anywhere that are neither standard nor declared."""
    out = {}
    for m in project.modules.values():
        for st in ast.walk(m.tree):
            ts = []
            if isinstance(st, ast.Import):
                ts = [a.name for a in st.names]
            elif isinstance(st, ast.ImportFrom) and not st.level:
                ts = [st.module or ""]
            for t in ts:
                top = t.split(".")[0]
                if top and top != project.package and top not in have and top not in sys.stdlib_module_names:
                    out.setdefault(top, []).append((m, st.lineno))
    return out


def needs(name):
    return any(name == n or name.startswith(n + ".") for n in NEEDS)


def run(ctx):
    have = declared(ctx.p.repo)
    opt = optional(ctx.p, have)
    ctx.notes["optional packages"] = len(opt)
    for k, missing in enumerate([set(opt)] + [{o} for o in sorted(opt)]):
        label = "any optional package" if k == 0 else next(iter(missing))
        ab = Absent(ctx.p, missing)
        touched = set()
        for name, m in ctx.p.modules.items():
            if not ctx.inscope(m):
                continue
            con = f"{name} without {label}"
            why = ab.failing.get(name)
            if why is None:
                ctx.ok("import", con)
            elif needs(name):
                ctx.check(why[2] in ("ImportError", "ModuleNotFoundError"), "clear", con, f"{m.rel}:{why[0]}", f"fails with {why[2]}, which guarded imports of it do not expect")
            else:
                ctx.bad("import", con, f"{m.rel}:{why[0]}", f"{name} cannot be imported without {label}: it {why[1]}")
        for m in ctx.p.modules.values():
            for st in ast.walk(m.tree):
                if isinstance(st, (ast.Import, ast.ImportFrom)) and ab.fails(st, m):
                    touched.add(m.name)
        q = Project(ctx.p.repo, ctx.p.package, overlay=ctx.p.overlay, rewrite=ab.rewrite)
        lost = {}
        for name, m in q.modules.items():
            was = ctx.p.modules[name]
            lost[name] = {n for n in list(was.imports) + list(was.globals) + list(was.functions) + list(was.classes) if m.resolve(n) is None and was.resolve(n) is not None}
            if not ctx.inscope(m) or name in ab.failing:
                continue
            own = class_names(m)
            bad = None
            for e in import_time(m):
                for x in free_names(e):
                    if x.id in lost[name] and x.id not in own:
                        bad = bad or x
            con = f"{name} at import without {label}"
            if bad is not None:
                ctx.bad("names", con, f"{m.rel}:{bad.lineno}", f"{bad.id} is read when {name} is imported, and is not bound without {label}")
            else:
                ctx.ok("names", con)
        uses(ctx, q, ab, lost, touched if k else None, label)
    order(ctx)
    if not ctx.fixture:
        ctx.need(len(opt), 1, "optional packages")
        ctx.need(len(ctx.p.modules), 25, "modules")


def placeholders(was, m):
    """Names that stand for a package in one project and for a constant in the other."""
    return {n for n in m.globals if n in was.imports and isinstance(m.globals[n], ast.Constant)}


def uses(ctx, q, ab, lost, touched, label):
    sub = Ctx(q, ctx.pid, ctx.tier, ctx.fixture)
    mods = {n for n in q.modules if n not in ab.failing and (touched is None or n in touched)}
    hold = {n: placeholders(ctx.p.modules[n], m) for n, m in q.modules.items()}

    def judge(con, R, file):
        for ev in R.e.events:
            if ev.kind == "undefined":
                mod = modof(q, ev.site)
                if mod is not None and mod.name not in ab.failing and ev.name in lost[mod.name]:
                    ctx.bad("use", con, ev.site, f"reads {ev.name}, which is not bound without {label}")
                    return
            elif ev.kind == "noattr":
                mod = modof(q, ev.site)
                if mod is not None and ev.name in hold.get(mod.name, ()):
                    ctx.bad("use", con, ev.site, f"uses the placeholder of {ev.name} without {label}")
                    return
        ctx.ok("use", con)

    for f, R in function_runs(sub, key=("absent", label)):
        if f.module.name in mods:
            judge(f"{f.full} without {label}", R, f.module.rel)
    cs = [c for c in sub.classes() if c.module.name in mods]
    for c, n, R in method_runs(sub, cs, key=("absent", label)):
        if getattr(R.st, "dead", None):
            continue
        judge(f"{c.full}.{n} without {label}", R, c.module.rel)
    ctx.functions |= sub.functions


def modof(q, site):
    s = str(site)
    for m in q.modules.values():
        if s.startswith(m.rel + ":"):
            return m
    return None


def order(ctx):
    """Simulated imports: a name asked of a module that has not bound it yet."""
    p = ctx.p
    starts = [n for n in p.modules if ctx.inscope(p.modules[n])]
    seen = set()
    for first in starts:
        state = {}  # module -> names bound so far; None when done

        def load(name):
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                mod = ".".join(parts[:i])
                if mod in p.modules and mod not in state:
                    state[mod] = set()
                    run_body(p.modules[mod].tree.body, p.modules[mod], ())
                    state[mod] = None

        def run_body(body, m, tried):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.name.split(".")[0] == p.package:
                            load(a.name)
                        state[m.name] is not None and state[m.name].add(a.asname or a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        base = m._pkg(st.level) + ("." + base if base else "")
                    if base.split(".")[0] == p.package:
                        load(base)
                    for a in st.names:
                        if base in p.modules and a.name != "*":
                            sub = base + "." + a.name
                            names = state.get(base)
                            if names is not None and a.name not in names:
                                if sub in p.modules:
                                    load(sub)
                                elif (m.name, st.lineno) not in seen:
                                    seen.add((m.name, st.lineno))
                                    ctx.bad("order", f"{m.name} imports {sub}", f"{m.rel}:{st.lineno}", f"{base} is still being imported and has not bound {a.name} yet when {first} is imported")
                            elif sub in p.modules:
                                load(sub)
                        if state[m.name] is not None:
                            state[m.name].add(a.asname or a.name)
                elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    state[m.name].add(st.name)
                elif isinstance(st, ast.Try):
                    run_body(st.body, m, tried)
                    run_body(st.orelse, m, tried)
                    run_body(st.finalbody, m, tried)
                elif isinstance(st, (ast.If, ast.With)):
                    run_body(st.body, m, tried)
                    run_body(getattr(st, "orelse", []), m, tried)
                else:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            state[m.name].add(x.id)

        load(first)
        ctx.ok("order", f"{first} imported first")
