"""Normal form of a function's syntax tree, so that rules working on statements judge the
same thing whether a piece of it stands in a helper, in a temporary or in a module
constant: module constants are put in, statement-level calls of project helpers are
replaced by their bodies, `t = E; return t` becomes `return E`."""

import ast

MAXDEPTH = 4


def clone(n):
    if isinstance(n, list):
        return [clone(x) for x in n]
    if not isinstance(n, ast.AST):
        return n
    new = type(n)(**{k: clone(v) for k, v in ast.iter_fields(n)})
    return ast.copy_location(new, n) if hasattr(n, "lineno") else new


def module_consts(module):
    """Names bound once at module level, to a constant."""
    seen, twice = {}, set()
    for s in module.tree.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if n.id in seen:
                    twice.add(n.id)
                v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign)) else None
                if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and isinstance(v.operand, ast.Constant):
                    seen[n.id] = v
                else:
                    seen[n.id] = v if isinstance(v, ast.Constant) else None
    return {k: v for k, v in seen.items() if v is not None and k not in twice}


def bound(f):
    """Names a function binds (parameters, stores, imports, definitions)."""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


class Names(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            v = self.m[n.id]
            if isinstance(v, str):
                return ast.copy_location(ast.Name(v, n.ctx), n)
            if isinstance(n.ctx, ast.Load):
                return clone(v)
        return n


class Norm:
    def __init__(self, f, p):
        self.f, self.p = f, p
        self.k = 0
        self.fresh = set()
        self.inlined = set()

    def run(self):
        node = clone(self.f.node)
        self.taken = bound(self.f.node)
        node = self.consts(node)
        node.body = [self.oneline(s) for s in node.body]
        node.body = self.block(node.body, 0, (self.f.node,))
        self.copies(node)
        self.counters(node)
        self.folded(node)
        ast.fix_missing_locations(node)
        return node

    def oneline(self, tree, depth=0):
        """Calls of private helpers of one return expression, put in."""
        norm = self

        class T(ast.NodeTransformer):
            def visit_Call(self, c):
                self.generic_visit(c)
                h = norm.helper(c)
                if h is None or h is norm.f.node or depth >= MAXDEPTH:
                    return c
                b = [s for s in h.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
                    return c
                m = norm.bind(c, h)
                if m is None:
                    return c
                used = [x.id for x in ast.walk(b[0].value) if isinstance(x, ast.Name)]
                inner = {a.arg for x in ast.walk(b[0].value) if isinstance(x, ast.Lambda) for a in x.args.args} | {x.id for x in ast.walk(b[0].value) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if inner & set(m) or inner & {x.id for v in m.values() for x in ast.walk(v) if isinstance(x, ast.Name)}:
                    return c
                if any(used.count(k) > 1 and any(isinstance(x, ast.Call) for x in ast.walk(v)) for k, v in m.items()):
                    return c
                e = norm.consts(clone(h)).body[-1].value
                return norm.oneline(Names(m).visit(e), depth + 1)

        return T().visit(tree)

    def copies(self, node):
        """Names bound once, to a parameter, option or constant nothing rebinds."""
        for _ in range(3):
            stores, vals = {}, {}
            attrs = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stores[n.id] = stores.get(n.id, 0) + 1
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    attrs.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                    for a in n.args.args + n.args.kwonlyargs:
                        stores[a.arg] = stores.get(a.arg, 0) + 1
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    vals[n.targets[0].id] = n.value
            m = {}
            for k, v in vals.items():
                if stores.get(k) != 1:
                    continue
                if isinstance(v, ast.Constant) or isinstance(v, ast.Name) and v.id not in stores or isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and v.attr not in attrs:
                    m[k] = v
            if not m:
                return
            node.body = [Names(m).visit(x) for x in node.body]

            class Drop(ast.NodeTransformer):
                def visit_Assign(self, n):
                    if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in m:
                        return ast.copy_location(ast.Pass(), n)
                    return n
            # the binding itself was substituted in neither place: drop it
            for x in node.body:
                Drop().visit(x)
            node.body = [Drop().visit(x) for x in node.body]

    def counters(self, node):
        """i = 0; while i < n: ...; i += 1   as a for loop."""
        for n in ast.walk(node):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for j, w in enumerate(b):
                    f = self.counter(w, b[:j], n)
                    if f is not None:
                        b[j] = f

    def counter(self, w, before, parent):
        if not (isinstance(w, ast.While) and w.body and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1):
            return None
        l, o, r = w.test.left, w.test.ops[0], w.test.comparators[0]
        if isinstance(o, ast.Gt):
            l, o, r = r, ast.Lt(), l
        if not (isinstance(o, ast.Lt) and isinstance(l, ast.Name)):
            return None
        i = l.id
        incs = [x for x in ast.walk(w) if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, (ast.Store, ast.Del))]
        last = w.body[-1]
        up = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1
        if isinstance(last, ast.Assign) and ast.unparse(last) in (f"{i} = {i} + 1", f"{i} = 1 + {i}"):
            up = True
        if not up or len(incs) != 1 or any(isinstance(x, ast.Continue) for x in ast.walk(w)):
            return None
        start = None
        for s in reversed(before):
            if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                    start = s.value
                break
        if start is None:
            return None
        if {x.id for x in ast.walk(r) if isinstance(x, ast.Name)} & {x.id for y in w.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
            return None
        body, t = w.body[:-1], i
        if body and isinstance(body[0], ast.Assign) and len(body[0].targets) == 1 and isinstance(body[0].targets[0], ast.Name) and isinstance(body[0].value, ast.Name) and body[0].value.id == i:
            x = body[0].targets[0].id
            if sum(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in ast.walk(w)) == 1:
                t, body = x, body[1:]
                body = [Names({i: x}).visit(y) for y in body]
        args = [r] if start.value == 0 else [start, r]
        return ast.copy_location(ast.For(ast.Name(t, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), body or [ast.Pass()], w.orelse, None), w)

    def consts(self, node):
        cs = module_consts(self.f.module)
        cs = {k: v for k, v in cs.items() if k not in bound(node)}
        if cs:
            node.body = [Names(cs).visit(s) for s in node.body]
        return node

    def helper(self, call):
        fn = call.func
        if isinstance(fn, ast.Name):
            g = self.f.module.functions.get(fn.id)
            if g is None:
                t = self.p.resolve(self.f.module, fn.id) if hasattr(self.p, "resolve") else None
                g = t if getattr(t, "node", None) is not None and isinstance(t.node, ast.FunctionDef) else None
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and self.f.cls is not None:
            g = self.f.cls.find(fn.attr)
        else:
            return None
        n = getattr(g, "node", None)
        # what is public is judged on its own
        if not isinstance(n, ast.FunctionDef) or not n.name.startswith("_") or n.name.startswith("__") or g.module is not self.f.module:
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return None
        if any(not isinstance(d, ast.Name) or d.id not in ("staticmethod", "classmethod") for d in n.decorator_list):
            return None
        return n

    def bind(self, call, node):
        a = node.args
        if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        ps = [x.arg for x in a.posonlyargs + a.args]
        m = {}
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        if isinstance(call.func, ast.Attribute) and ps and not static:
            m[ps[0]] = call.func.value
            ps = ps[1:]
        if len(call.args) > len(ps):
            return None
        m.update(zip(ps, call.args))
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        for k in call.keywords:
            if k.arg not in names or k.arg in m:
                return None
            m[k.arg] = k.value
        for x, d in list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            m.setdefault(x.arg, d)
        if any(n not in m for n in names):
            return None
        return m

    def body(self, call, node, depth, stack):
        """(statements, last return or None): the helper's body with its own names."""
        m = self.bind(call, node)
        if m is None:
            return None
        h = self.consts(clone(node))
        self.folded(h)
        b = h.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            b = b[1:]
        stored = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        pre, sub = [], {}
        for p, v in m.items():
            if isinstance(v, (ast.Name, ast.Constant)) and p not in stored or isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and p not in stored:
                sub[p] = v
            else:
                self.k += 1
                nm = f"{p}__{self.k}"
                sub[p] = nm
                pre.append(ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], clone(v)), call))
        for v in stored - set(m):
            # a local of the helper keeps its name where that is free
            if v in self.taken:
                self.k += 1
                sub[v] = f"{v}__{self.k}"
            else:
                self.taken.add(v)
        b = [Names(sub).visit(s) for s in b]
        ast.fix_missing_locations(ast.Module(pre + b, []))
        self.inlined.add(node)
        return pre + self.block(b, depth + 1, stack + (node,))

    def block(self, stmts, depth, stack):
        out = []
        for s in stmts:
            out += self.stmt(s, depth, stack)
        return out

    def stmt(self, s, depth, stack):
        for fld in ("body", "orelse", "finalbody"):
            v = getattr(s, fld, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, fld, self.block(v, depth, stack))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body, depth, stack)
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if not isinstance(c, ast.Call) or depth >= MAXDEPTH:
            return [s]
        h = self.helper(c)
        if h is None or h in stack:
            return [s]
        rets = [x for x in own(h) if isinstance(x, ast.Return)]
        if isinstance(s, ast.Return):
            b = self.body(c, h, depth, stack)
            if b is None:
                return [s]
            if not ends(b):
                b.append(ast.copy_location(ast.Return(ast.Constant(None)), s))
            return b
        last = h.body[-1]
        if rets and (len(rets) > 1 or rets[0] is not last):
            return [s]
        b = self.body(c, h, depth, stack)
        if b is None:
            return [s]
        ret = b.pop() if rets and b and isinstance(b[-1], ast.Return) else None
        v = ret.value if ret is not None and ret.value is not None else ast.Constant(None)
        if isinstance(s, ast.Expr):
            return b + ([ast.copy_location(ast.Expr(v), s)] if isinstance(v, ast.Call) else [])
        t = s.targets[0] if len(s.targets) == 1 else None
        if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + v.elts):
            if not ({x.id for e in t.elts for x in ast.walk(e) if isinstance(x, ast.Name)} & {x.id for e in v.elts for x in ast.walk(e) if isinstance(x, ast.Name)}) or all(isinstance(x, ast.Name) and isinstance(y, ast.Name) and x.id == y.id or not isinstance(y, ast.Name) for x, y in zip(t.elts, v.elts)):
                return b + [ast.copy_location(ast.Assign([x], y), s) for x, y in zip(t.elts, v.elts) if not (isinstance(x, ast.Name) and isinstance(y, ast.Name) and x.id == y.id)]
        if isinstance(t, ast.Name) and isinstance(v, ast.Name) and t.id == v.id:
            return b
        return b + [ast.copy_location(ast.Assign(s.targets, v), s)]

    def folded(self, node):
        """t = E; return t"""
        for n in ast.walk(node):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not (isinstance(b, list) and len(b) > 1 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Name) and isinstance(b[-2], ast.Assign) and len(b[-2].targets) == 1):
                    continue
                t = b[-2].targets[0]
                if isinstance(t, ast.Name) and t.id == b[-1].value.id and isinstance(b[-2].value, (ast.Tuple, ast.Dict, ast.List, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name)):
                    b[-2:] = [ast.copy_location(ast.Return(b[-2].value), b[-1])]


def own(f):
    st = list(f.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


def ends(b):
    """Does every path of a block return or raise?"""
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    return False
