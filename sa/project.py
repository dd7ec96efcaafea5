"""Loading and name resolution: modules, classes (with linearised bases), functions."""

import ast
import hashlib
import os

REPO = os.environ.get("SKADA_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (missing anchor, unparsable source...)."""


class FuncInfo:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        pre = ""
        if parent is not None:
            pre = parent.qual + ".<locals>."
        elif cls is not None:
            pre = cls.name + "."
        self.qual = pre + self.name
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(d)
        self._gen = None

    @property
    def file(self):
        return self.module.rel

    @property
    def full(self):
        return f"{self.module.name}:{self.qual}"

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def all_params(self):
        return self.params + self.kwonly

    @property
    def vararg(self):
        return self.node.args.vararg.arg if self.node.args.vararg else None

    @property
    def kwarg(self):
        return self.node.args.kwarg.arg if self.node.args.kwarg else None

    def default(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        off = len(pos) - len(a.defaults)
        for i, p in enumerate(pos):
            if p.arg == name:
                return a.defaults[i - off] if i >= off else None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == name:
                return d
        return None

    def decorator_names(self):
        return [self.module.dotted(d) or _tail(d) for d in self.decorators]

    def has_deco(self, *names):
        for d in self.decorators:
            t = _tail(d)
            if t in names:
                return True
        return False

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node)
            )
        return self._gen

    def __repr__(self):
        return f"<func {self.full}>"


def _tail(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return None


def walk_own(fn):
    """Nodes of a function body without those of nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, outer=None):
        self.module, self.node = module, node
        self.name = node.name if outer is None else outer + "." + node.name
        self.methods, self.attrs = {}, {}
        for st in node.body:
            self._add(st)
        self._mro = None

    def _add(self, st):
        if isinstance(st, ast.FunctionDef):
            # a later definition (e.g. a property setter) does not hide the getter
            if st.name in self.methods and any(
                isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
                for d in st.decorator_list
            ):
                self.methods[st.name + "#set"] = FuncInfo(self.module, st, cls=self)
            else:
                self.methods[st.name] = FuncInfo(self.module, st, cls=self)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            self.attrs[st.target.id] = st.value
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._add(s)

    @property
    def full(self):
        return f"{self.module.name}:{self.name}"

    @property
    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            out.append(r if r is not None else ("ext", ast.unparse(b)))
        return out

    @property
    def mro(self):
        """Project and external classes: ClassInfo or dotted string."""
        if self._mro is None:
            self._mro = [self]  # recursion guard
            seqs = []
            direct = []
            for b in self.bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(b.mro))
                    direct.append(b)
                else:
                    seqs.append([b[1]])
                    direct.append(b[1])
            seqs.append(direct)
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if c in s:
                        s.remove(c)
            self._mro = out
        return self._mro

    def project_mro(self):
        return [c for c in self.mro if isinstance(c, ClassInfo)]

    def ext_bases(self):
        return [c for c in self.mro if isinstance(c, str)]

    def find(self, name, after=None):
        m = self.project_mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1 :]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name, after=None):
        m = self.project_mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1 :]
        for c in m:
            if name in c.attrs or name in c.methods:
                return c, (c.attrs.get(name) if name not in c.methods else c.methods[name])
        return None

    def is_subclass(self, other):
        return other in self.mro

    def has_base_named(self, name):
        for c in self.mro:
            if (c.name if isinstance(c, ClassInfo) else c.split(".")[-1]) == name:
                return True
        return False

    def deco_tail(self):
        return [_tail(d) for d in self.node.decorator_list]

    def __repr__(self):
        return f"<class {self.full}>"


class Canonical(ast.NodeTransformer):
    """Constants on the right of comparisons; `not a in b` as `a not in b`."""

    FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    NEG = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP:
            r = n.comparators[0]
            if const(n.left) and not const(r) or named(n.left) and not named(r) and not const(r):
                n.left, n.comparators, n.ops = r, [n.left], [self.FLIP[type(n.ops[0])]()]
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1 and type(n.operand.ops[0]) in self.NEG:
            n.operand.ops = [self.NEG[type(n.operand.ops[0])]()]
            return n.operand
        return n


def const(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant)


def named(e):
    """A constant by its name: MARKER, Kind.MEMBER."""
    nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
    return len(nm) > 1 and nm.upper() == nm and any(c.isalpha() for c in nm) and (isinstance(e, ast.Name) or isinstance(e.value, ast.Name))


class Module:
    def __init__(self, project, name, path, rel, src):
        self.project, self.name, self.path, self.rel = project, name, path, rel
        self.src = src
        self.tree = Canonical().visit(ast.parse(src, filename=path))
        if project.rewrite is not None:
            self.tree = project.rewrite(name, self.tree)
        self.imports, self.functions, self.classes, self.globals = {}, {}, {}, {}
        self.star = []
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(self.tree.body)

    def _pkg(self, level):
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    base = self._pkg(st.level) + ("." + base if base else "")
                for a in st.names:
                    if a.name == "*":
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                # all alternatives define names; the first definition wins over a
                # fallback (try: import x / except: x = None)
                if isinstance(st, ast.Try):
                    self._scan(st.body)
                    keep = (dict(self.imports), dict(self.functions), dict(self.classes), dict(self.globals))
                    for h in st.handlers:
                        self._scan(h.body)
                    for cur, old in zip((self.imports, self.functions, self.classes, self.globals), keep):
                        cur.update(old)
                    self._scan(st.orelse)
                    self._scan(st.finalbody)
                elif isinstance(st, ast.If):
                    self._scan(st.body)
                    self._scan(st.orelse)
                else:
                    self._scan(st.body)

    def resolve(self, name, seen=()):
        """A global name -> FuncInfo | ClassInfo | Module | ('ext', dotted) |
        ('global', module, expr) | None."""
        if name in self.functions:
            return self.functions[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.imports:
            return self.project.resolve_dotted(self.imports[name], seen)
        if name in self.globals:
            return ("global", self, self.globals[name], name)
        for s in self.star:
            m = self.project.modules.get(s)
            if m and (s, name) not in seen:
                r = m.resolve(name, seen + ((s, name),))
                if r is not None:
                    return r
        return None

    def resolve_expr(self, e):
        if isinstance(e, ast.Name):
            return self.resolve(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module):
                return b.resolve(e.attr) or self.project.resolve_dotted(b.name + "." + e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            return None
        return None

    def dotted(self, e):
        if isinstance(e, ast.Call):
            e = e.func
        r = self.resolve_expr(e)
        if isinstance(r, tuple) and r[0] == "ext":
            return r[1]
        if isinstance(r, (FuncInfo, ClassInfo)):
            return r.full
        return None

    def all_functions(self):
        """Every function of the module, nested ones included."""
        out = []

        def rec(body, cls, parent):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if parent is None and cls is None and self.functions.get(st.name) is not None and self.functions[st.name].node is st:
                        fi = self.functions[st.name]
                    elif parent is None and cls is not None and cls.methods.get(st.name) is not None and cls.methods[st.name].node is st:
                        fi = cls.methods[st.name]
                    else:
                        fi = FuncInfo(self, st, cls=cls if parent is None else None, parent=parent)
                    out.append(fi)
                    rec(st.body, None, fi)
                elif isinstance(st, ast.ClassDef):
                    ci = self.classes.get(st.name)
                    if ci is None or ci.node is not st:
                        ci = ClassInfo(self, st)
                    rec(st.body, ci, parent)
                else:
                    for f in ("body", "orelse", "finalbody"):
                        b = getattr(st, f, None)
                        if isinstance(b, list):
                            rec(b, cls, parent)
                    for h in getattr(st, "handlers", []):
                        rec(h.body, cls, parent)

        rec(self.tree.body, None, None)
        return out

    def __repr__(self):
        return f"<module {self.name}>"


class Project:
    def __init__(self, repo=None, package="skada", overlay=None, rewrite=None):
        """`overlay`: {relative path: source} replacing/adding files (self examples);
        `rewrite`: tree of a module by its name -> tree to analyse in its place."""
        self.overlay, self.rewrite = dict(overlay or {}), rewrite
        self.repo = repo or REPO
        self.package = package
        self.modules = {}
        overlay = dict(overlay or {})
        root = os.path.join(self.repo, package)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package directory {root}")
        h = hashlib.sha256()
        files = {}
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(fs):
                if f.endswith(".py") and f != "conftest.py":
                    p = os.path.join(d, f)
                    files[os.path.relpath(p, self.repo)] = p
        for rel in overlay:
            files.setdefault(rel, None)
        for rel, p in sorted(files.items()):
            if rel in overlay:
                src = overlay[rel]
            else:
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
            h.update(rel.encode())
            h.update(src.encode())
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            try:
                self.modules[name] = Module(self, name, p or rel, rel, src)
            except SyntaxError as e:
                raise AnalysisBroken(f"{rel} does not parse: {e}") from e
        self.digest = h.hexdigest()[:16]

    def resolve_dotted(self, dotted, seen=()):
        if dotted in self.modules:
            return self.modules[dotted]
        if not (dotted == self.package or dotted.startswith(self.package + ".")):
            return ("ext", dotted)
        mod, _, name = dotted.rpartition(".")
        m = self.modules.get(mod)
        if m is not None:
            if (mod, name) in seen:
                return None
            return m.resolve(name, seen + ((mod, name),))
        return None

    def classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def functions(self):
        for m in self.modules.values():
            yield from m.all_functions()

    def cls(self, name, module=None):
        hits = [c for c in self.classes() if c.name == name and (module is None or c.module.name == module)]
        if len(hits) != 1:
            raise AnalysisBroken(f"class {name}: {len(hits)} definitions found")
        return hits[0]

    def func(self, qual, module=None):
        """'mod:name' or a bare public name (resolved wherever it is defined)."""
        hits = []
        for m in self.modules.values():
            if module is not None and m.name != module:
                continue
            if "." in qual:
                c, n = qual.split(".", 1)
                if c in m.classes and n in m.classes[c].methods:
                    hits.append(m.classes[c].methods[n])
            elif qual in m.functions:
                hits.append(m.functions[qual])
        if len(hits) != 1:
            raise AnalysisBroken(f"function {qual}: {len(hits)} definitions found")
        return hits[0]

    def find_func(self, qual, module=None):
        try:
            return self.func(qual, module)
        except AnalysisBroken:
            return None
