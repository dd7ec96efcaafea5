"""Resolution of every public list.  Each entry of every __all__ (literals, sums, +=,
append/extend of literals), and each name of the API reference (docs/source/all.rst), is
resolved through the imports of the package down to a definition; unresolved names,
duplicates, deleted names and names bound to an object defined under another public name
are reported."""

import ast
import os

from sa.project import ClassInfo, FuncInfo, Module

TECHNIQUE = "static name resolution over imports and definitions"
ASSUMPTIONS = ["names imported from other packages exist there"]


def entries(tree):
    """(line, [names], complete) of __all__."""
    out, found = [], False

    def lit(e):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            r = []
            for x in e.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    r.append((x.value, x.lineno))
                elif isinstance(x, ast.Starred):
                    r.extend(lit(x.value))
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return lit(e.left) + lit(e.right)
        if isinstance(e, ast.Call) and e.args:
            return lit(e.args[0])
        return []

    for st in ast.walk(tree):
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets):
            found = True
            out = lit(st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == "__all__" and st.value is not None:
            found = True
            out = lit(st.value)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == "__all__":
            out = out + lit(st.value)
        elif isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and isinstance(st.func.value, ast.Name) and st.func.value.id == "__all__":
            if st.func.attr == "append" and st.args and isinstance(st.args[0], ast.Constant):
                out = out + [(st.args[0].value, st.lineno)]
            elif st.func.attr == "extend" and st.args:
                out = out + lit(st.args[0])
    return out if found else None


def bound(m, name):
    """What the module-level name is bound to: definition, or None."""
    r = m.resolve(name)
    if r is not None:
        return r
    sub = m.project.modules.get(m.name + "." + name)
    if sub is not None and m.is_pkg:
        return sub
    # for/with/other bindings at module level
    for st in m.tree.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                return ("global", m, None, name)
    return None


def deleted(m, name):
    gone = False
    for st in m.tree.body:
        if isinstance(st, ast.Delete) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            gone = True
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == name:
            gone = False
        elif isinstance(st, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in st.names):
            gone = False
        elif isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            gone = False
    return gone


def lazy(m):
    return "__getattr__" in m.functions


def defined_name(r):
    if isinstance(r, (ClassInfo, FuncInfo)):
        return r.name
    return None


def check_name(ctx, m, name, where, rule):
    con = f"{m.name}.{name}"
    r = bound(m, name)
    if r is None:
        if lazy(m):
            ctx.und(rule, con, where, "provided by __getattr__")
        else:
            ctx.bad(rule, con, where, f"{name} is listed as public in {m.name} and cannot be imported from it")
        return
    if deleted(m, name):
        ctx.bad(rule, con, where, f"{name} is deleted from {m.name} after its definition")
        return
    d = defined_name(r)
    if d is not None and d != name:
        # another object of the package is defined under the advertised name
        owner = [k for k in ctx.p.modules.values() if name in k.functions or name in k.classes]
        if owner:
            ctx.bad(rule, con, where, f"{name} is bound to {d}, not to the {name} defined in {owner[0].name}")
            return
    elif isinstance(r, tuple) and r[0] == "global" and r[2] is not None:
        t = r[1].resolve_expr(r[2])
        dn = defined_name(t)
        owner = [k for k in ctx.p.modules.values() if name in k.functions or name in k.classes]
        if dn is not None and dn != name and owner:
            ctx.bad(rule, con, where, f"{name} is bound to {dn}, not to the {name} defined in {owner[0].name}")
            return
    ctx.ok(rule, con)


def run(ctx):
    n = 0
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        es = entries(m.tree)
        if es is None:
            continue
        seen = {}
        for name, line in es:
            n += 1
            where = f"{m.rel}:{line}"
            if name in seen:
                ctx.bad("duplicate", f"{m.name}.{name}", where, f"{name} is listed twice (also line {seen[name]})")
            else:
                ctx.ok("duplicate", f"{m.name}.{name}")
            seen[name] = line
            check_name(ctx, m, name, where, "listed")
    # every import of a project name must find it
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        for nme, dotted in m.imports.items():
            if not dotted.startswith(ctx.p.package + "."):
                continue
            r = ctx.p.resolve_dotted(dotted)
            con = f"{m.name} imports {dotted}"
            if r is None:
                mod = ctx.p.modules.get(dotted.rpartition(".")[0])
                if mod is not None and bound(mod, dotted.rpartition(".")[2]) is not None:
                    ctx.ok("import", con)
                else:
                    ctx.bad("import", con, m.rel, f"{dotted} does not exist")
            else:
                ctx.ok("import", con)
    if ctx.fixture:
        return
    ctx.need(n, 90, "names listed in __all__")
    doc = os.path.join(ctx.p.repo, "docs", "source", "all.rst")
    if os.path.exists(doc):
        cur, k = None, 0
        lines = open(doc, encoding="utf-8").read().splitlines()
        inauto = None
        for i, l in enumerate(lines, 1):
            s = l.strip()
            if s.startswith(".. currentmodule::"):
                cur = s.split("::")[1].strip()
                inauto = None
            elif s.startswith(".. autosummary::"):
                inauto = len(l) - len(l.lstrip())
            elif inauto is not None and s:
                ind = len(l) - len(l.lstrip())
                if ind <= inauto:
                    inauto = None
                elif not s.startswith(":") and s.replace("_", "").replace(".", "").isalnum() and cur in ctx.p.modules:
                    check_name(ctx, ctx.p.modules[cur], s, f"docs/source/all.rst:{i}", "documented")
                    k += 1
        ctx.notes["documented names"] = k
