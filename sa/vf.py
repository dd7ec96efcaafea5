"""Value-flow construction.

A flow-sensitive, interprocedural (inlining) abstract walk over the syntax tree of
the project that builds an SSA-like graph of *value nodes*: what each expression is
made of, with joins (`phi`) after branches and cyclic `loop` nodes for loop-carried
values.  Nothing is executed, no path is enumerated: branches are joined, loop bodies
are walked once over loop nodes.  Rules ask questions about the graph (sa/facets.py)
and about the recorded events (calls, stores, raises, returns with their guards).
"""

import ast
import sys

from .project import AnalysisBroken, ClassInfo, FuncInfo, Module

sys.setrecursionlimit(20000)

MAX_DEPTH = 10
MAX_NODES = 400_000
UNROLL = 10


class Site:
    __slots__ = ("file", "func", "line", "stack")

    def __init__(self, file, func, line, stack):
        self.file, self.func, self.line, self.stack = file, func, line, stack

    def __str__(self):
        return f"{self.file}:{self.line} ({self.func})"


class Node:
    __slots__ = ("id", "op", "args", "kw", "val", "site", "root", "guards", "extra", "_key")

    def __init__(self, id, op, args=(), kw=None, val=None, site=None, root=None):
        self.id, self.op, self.args, self.kw = id, op, tuple(args), kw or {}
        self.val, self.site = val, site
        self.root = root if root is not None else self
        self.guards = ()
        self.extra = None
        self._key = None

    def __repr__(self):
        return show(self, 3)


def show(n, depth=4):
    if n is None:
        return "-"
    if depth <= 0:
        return "..."
    d = depth - 1
    if n.op == "const":
        return repr(n.val)
    if n.op in ("param", "attr0", "ext"):
        return f"{'self.' if n.op == 'attr0' else ''}{n.val}"
    if n.op == "attr":
        return f"{show(n.args[0], d)}.{n.val}"
    if n.op == "func":
        return f"<{n.val.fi.qual}>"
    if n.op == "cls":
        return f"<{n.val.name}>"
    if n.op == "inst":
        return f"<{n.val.cls.name if n.val.cls else '?'} instance>"
    if n.op == "call":
        a = [show(x, d) for x in n.args[1:]] + [f"{k}={show(v, d)}" for k, v in n.kw.items()]
        return f"{show(n.args[0], d)}({', '.join(a)})"
    if n.op == "sub":
        return f"{show(n.args[0], d)}[{show(n.args[1], d)}]"
    if n.op in ("bin", "cmp", "bool"):
        return "(" + f" {n.val} ".join(show(x, d) for x in n.args) + ")"
    if n.op == "unary":
        return f"{n.val}{show(n.args[0], d)}"
    return f"{n.op}({', '.join(show(x, d) for x in n.args)})"


class Obj:
    """An abstract object (allocation site in a context)."""

    __slots__ = ("cls", "label")

    def __init__(self, cls, label):
        self.cls, self.label = cls, label


class FuncRef:
    __slots__ = ("fi", "self_node", "frame", "cls_after", "bound_cls", "captured")

    def __init__(self, fi, self_node=None, frame=None):
        self.fi, self.self_node, self.frame = fi, self_node, frame
        self.captured = {}


class Event:
    __slots__ = ("kind", "node", "base", "index", "value", "name", "site", "guards", "depth", "phase", "state_self", "tries")

    def __init__(self, kind, site, guards, depth, **kw):
        self.kind, self.site, self.guards, self.depth = kind, site, guards, depth
        self.node = self.base = self.index = self.value = self.name = self.phase = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"<{self.kind} {self.name or ''} base={self.base!r} node={self.node!r} value={self.value!r} at {self.site}>"


FLIP = {"Eq": "Eq", "NotEq": "NotEq", "Is": "Is", "IsNot": "IsNot", "Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}


def nonetest(cond, x, y):
    if cond is None or cond.op != "cmp" or cond.val not in ("Is", "IsNot") or cond.args[1].op != "const" or cond.args[1].val is not None:
        return False
    # x where the condition holds, y where it does not
    n, v = (x, y) if cond.val == "Is" else (y, x)
    return n.op == "const" and n.val is None and v.root is cond.args[0].root


def nograd(c):
    """A context in which torch records no gradients."""
    if c.op != "call":
        return False
    t = (callee_name(c) or "").split(".")[-1]
    if t in ("no_grad", "inference_mode"):
        return not (len(c.args) > 1 and c.args[1].op == "const" and c.args[1].val is False)
    return t == "set_grad_enabled" and len(c.args) > 1 and c.args[1].op == "const" and c.args[1].val is False


def literals(c, pol):
    """A condition as guards, its conjunction taken apart."""
    if c.op == "unary" and c.val == "Not":
        return literals(c.args[0], not pol)
    if c.op == "bool" and (c.val == "And") == pol:
        return tuple(g for x in c.args for g in literals(x, pol))
    return ((c, pol),)


class State:
    __slots__ = ("env", "heap", "ver", "guards", "nonnull", "dead")

    def __init__(self):
        self.env, self.heap, self.ver = {}, {}, {}
        self.guards, self.nonnull, self.dead = (), frozenset(), None

    def copy(self):
        s = State()
        s.env, s.heap, s.ver = dict(self.env), dict(self.heap), dict(self.ver)
        s.guards, s.nonnull, s.dead = self.guards, self.nonnull, self.dead
        return s


class Frame:
    __slots__ = ("fi", "module", "fid", "returns", "yields", "ysure", "parent", "depth", "self_node", "cls", "globals_", "breaks", "continues", "nonlocals", "trystack")

    def __init__(self, fi, module, fid, parent, depth):
        self.fi, self.module, self.fid, self.parent, self.depth = fi, module, fid, parent, depth
        self.returns, self.yields, self.ysure = [], [], []
        self.self_node, self.cls = None, None
        self.breaks, self.continues = [], []
        self.nonlocals = set()
        self.globals_ = set()
        self.trystack = []


class Engine:
    def __init__(self, project, no_inline=(), max_depth=MAX_DEPTH, summaries=None):
        # dictionaries of metadata keep their entries on the way through routing
        self.relay = False
        # external classes that objects of the package are taken not to be instances of
        self.foreign = ()
        self.spelled = False  # names of classes, text and counts in dicts are computed
        self.own_attrs = ()  # attributes that only the project gives to its instances
        self.callables = ()  # parameters taken to be callable
        self.p = project
        self.nid = 0
        self.fid = 0
        self.events = []
        self.dvals = {}
        self.loop_tests = set()
        self.record = True
        self.nograd = 0
        self.stack = []
        self.max_depth = max_depth
        self.no_inline = set(no_inline)
        self.summaries = summaries or {}
        self._keys = {}
        self.frames = {}
        self.inlined = set()
        self.opaque = {}
        self.phase = None
        self.tries = ()
        self.const_cache = {}
        self.init_dead = False
        self.class_attrs = {}
        self.global_cache = {}

    # ---------------------------------------------------------------- nodes
    def mk(self, op, args=(), kw=None, val=None, site=None, root=None):
        self.nid += 1
        if self.nid > MAX_NODES:
            raise AnalysisBroken("value-flow graph too large")
        n = Node(self.nid, op, args, kw, val, site, root)
        if self.nograd:
            n.extra = {"nograd": True}
        return n

    def const(self, v, site=None):
        try:
            k = (type(v).__name__, v)
            if k not in self.const_cache:
                self.const_cache[k] = self.mk("const", val=v)
            return self.const_cache[k]
        except TypeError:
            return self.mk("const", val=v)

    def param(self, name, nonnull=False, array=False, role=None, extra=None):
        n = self.mk("param", val=name)
        n.extra = {"nonnull": nonnull, "array": array, "role": role}
        if extra:
            n.extra.update(extra)
        return n

    def site(self, node, fr):
        return Site(fr.module.rel, fr.fi.qual if fr.fi else "<module>", getattr(node, "lineno", 0), tuple(f for f in self.stack))

    def emit(self, kind, astnode, fr, st, **kw):
        if self.record:
            e = Event(kind, self.site(astnode, fr), st.guards, fr.depth, **kw)
            e.phase = self.phase
            e.tries = self.tries
            self.events.append(e)

    # ---------------------------------------------------------------- state
    def cur(self, n, st):
        """Latest version of the object denoted by n."""
        return st.ver.get(n.root.id, n)

    def join_nodes(self, a, b, cond=None, site=None, root=None):
        if a is b:
            return a
        if a is None or b is None:
            x = a or b
            return self.mk("phi", (x, self.mk("unbound")), val=cond, site=site)
        if a.op == "const" and b.op == "const" and type(a.val) is type(b.val) and a.val == b.val:
            return a
        if a.op == b.op and a.op in ("tuple", "list") and len(a.args) == len(b.args) and root is None:
            return self.mk(a.op, [self.join_nodes(x, y, cond, site) for x, y in zip(a.args, b.args)], site=site)
        if self.relay and a.op == b.op == "dict" and root is None and a.val and b.val and all(isinstance(k, str) and k != "**" for k, _ in [*a.val, *b.val]) and {k for k, _ in a.val} == {k for k, _ in b.val}:
            other = dict(b.val)
            v = [(k, self.join_nodes(x, other[k], cond, site)) for k, x in a.val]
            return self.mk("dict", tuple(x for _, x in v), val=v, site=site)
        alts = []
        for x in (a, b):
            if x.op == "phi" and cond is None and x.val is None:
                alts.extend(y for y in x.args if y not in alts)
            elif x not in alts:
                alts.append(x)
        if len(alts) == 1:
            return alts[0]
        n = self.mk("phi", alts, val=cond, site=site, root=root)
        return n

    def join_states(self, a, b, cond=None, site=None):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        s = State()
        memo = {}

        def jn(x, y):
            k = (id(x), id(y))
            if k not in memo:
                memo[k] = self.join_nodes(x, y, cond, site)
            return memo[k]

        for d in ("env", "heap"):
            da, db, ds = getattr(a, d), getattr(b, d), getattr(s, d)
            for k in da.keys() | db.keys():
                x, y = da.get(k), db.get(k)
                if x is y:
                    ds[k] = x
                elif x is not None and y is not None and nonetest(cond, x, y):
                    # None where the value is None: the value itself
                    ds[k] = y if x.op == "const" else x
                elif d == "heap" and (x is None or y is None):
                    # attribute set on one side only: the other keeps its initial value
                    z = a.ver.get(x.root.id, x) if x is not None else b.ver.get(y.root.id, y)
                    init = self.initial_attr(k, z)
                    ds[k] = jn(z, init) if x is not None else jn(init, z)
                elif x is not None and y is not None and x.root is y.root:
                    ds[k] = x
                else:
                    ds[k] = jn(a.ver.get(x.root.id, x) if x is not None else None, b.ver.get(y.root.id, y) if y is not None else None)
        for k in a.ver.keys() | b.ver.keys():
            x, y = a.ver.get(k), b.ver.get(k)
            if x is y:
                s.ver[k] = x
            else:
                z = x or y
                if x is None:
                    x = z.root
                if y is None:
                    y = z.root
                s.ver[k] = self.mk("phi", (x, y), val=cond, site=site, root=z.root)
        n = 0
        for g, h in zip(a.guards, b.guards):
            if g == h:
                n += 1
            else:
                break
        s.guards = a.guards[:n]
        s.nonnull = a.nonnull & b.nonnull
        return s

    def initial_attr(self, key, z):
        oid, attr = key
        n = self.mk("attr0", val=attr)
        n.extra = {"obj": oid}
        return n

    # ---------------------------------------------------------------- entry points
    def instance(self, ci, ctor=None, st=None, label="self", run_init=True):
        """A symbolic instance: its constructor walked with symbolic parameters."""
        st = st or State()
        obj = Obj(ci, label)
        n = self.mk("inst", val=obj)
        init = ci.find("__init__")
        if init is not None and run_init:
            fr = Frame(None, ci.module, -1, None, 0)
            args, kw = [], {}
            for pname in init.params[1:] + init.kwonly:
                if ctor and pname in ctor:
                    kw[pname] = ctor[pname]
                else:
                    kw[pname] = self.param(pname, role="ctor")
            old, self.phase = self.phase, "init"
            kwargs_node = None
            if init.kwarg:
                kwargs_node = self.param(init.kwarg, role="ctor")
            va = []
            if init.vararg:
                va = [("*", self.param(init.vararg, role="ctor"))]
            _, out = self.call_func(FuncRef(init, n), va, kw, kwargs_node, st, fr, init.node)
            self.init_dead = bool(out.dead)
            if out.dead:
                out.dead = None
            st = out
            self.phase = old
        return n, st

    def run(self, fi, args=None, self_node=None, st=None, kwargs_node=None, phase=None):
        """Walk function `fi` as an entry. args: {param: Node}."""
        st = st or State()
        fr = Frame(None, fi.module, -1, None, 0)
        a = dict(args or {})
        names = list(fi.params)
        if self_node is not None and names and not fi.has_deco("staticmethod"):
            names = names[1:]
        pos, kw = [], {}
        for pn in names + fi.kwonly:
            kw[pn] = a.pop(pn) if pn in a else self.param(pn, role="arg")
        va = []
        if fi.vararg:
            if fi.vararg in a:
                v = a.pop(fi.vararg)
                va = [("*", v)]
            else:
                va = [("*", self.param(fi.vararg, role="arg"))]
        if fi.kwarg and kwargs_node is None:
            kwargs_node = a.pop(fi.kwarg) if fi.kwarg in a else self.param(fi.kwarg, role="arg")
        # remaining entries go into **kwargs
        kw.update(a)
        old, self.phase = self.phase, phase
        try:
            r, st2 = self.call_func(FuncRef(fi, self_node), va, kw, kwargs_node, st, fr, fi.node)
        finally:
            self.phase = old
        return r, st2

    # ---------------------------------------------------------------- calls
    def call_func(self, ref, pos, kw, kwstar, st, fr, site_ast):
        """Inline a project function. pos: list of Node or ('*', Node)."""
        fi = ref.fi
        self.inlined.add(fi.full)
        self.fid += 1
        fid = self.fid
        nf = Frame(fi, fi.module, fid, fr, fr.depth + 1)
        if ref.frame is not None:
            nf.parent = ref.frame
        nf.self_node = ref.self_node
        nf.cls = fi.cls
        self.frames[fid] = nf
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = list(pos)
        if ref.self_node is not None and not fi.has_deco("staticmethod"):
            vals = [ref.self_node] + vals
        # positional
        flat, rest_star = [], None
        for v in vals:
            if isinstance(v, tuple):
                sv = self.cur(v[1], st)
                if sv.op in ("tuple", "list") and rest_star is None:
                    flat.extend(sv.args)
                else:
                    rest_star = v[1] if rest_star is None else rest_star
            elif rest_star is None:
                flat.append(v)
        used_kw = dict(kw)
        i = 0
        for nme in names:
            if nme in used_kw and (i >= len(flat)):
                env[nme] = used_kw.pop(nme)
            elif i < len(flat):
                env[nme] = flat[i]
                i += 1
            elif rest_star is not None and not (nme in used_kw):
                env[nme] = self.mk("elem", (rest_star,), val="star")
            else:
                env[nme] = None
        extra_pos = flat[i:]
        for nme in [x.arg for x in a.kwonlyargs]:
            env[nme] = used_kw.pop(nme) if nme in used_kw else None
        # kwargs
        ks_items, ks_unknown = {}, None
        if kwstar is not None:
            ks_items, ks_unknown = self.dict_items(kwstar, st)
        for nme in list(env):
            if env[nme] is None:
                if nme in ks_items:
                    env[nme] = ks_items.pop(nme)
                else:
                    d = fi.default(nme)
                    dn = None
                    if d is not None:
                        dn = self.eval_default(d, fi, st, nf)
                    if ks_unknown is not None and not (nme == "self"):
                        kn = self.mk("kwget", (ks_unknown,), val=nme)
                        env[nme] = self.mk("phi", (kn, dn), val=None) if dn is not None else kn
                    else:
                        env[nme] = dn if dn is not None else self.mk("missing", val=nme)
        if a.vararg:
            if rest_star is not None and not extra_pos:
                env[a.vararg.arg] = rest_star
            elif rest_star is not None:
                env[a.vararg.arg] = self.mk("unknown", extra_pos + [rest_star])
            else:
                env[a.vararg.arg] = self.mk("tuple", extra_pos)
        if a.kwarg:
            items = dict(ks_items)
            items.update(used_kw)
            if ks_unknown is not None and not items:
                env[a.kwarg.arg] = self.mk("dict", (), val=[("**", ks_unknown)])
            else:
                d = self.mk("dict", tuple(items.values()), val=[(k, v) for k, v in items.items()] + ([("**", ks_unknown)] if ks_unknown is not None else []))
                env[a.kwarg.arg] = d
        for k, v in env.items():
            st.env[(fid, k)] = v
        self.emit("enter", site_ast, fr, st, name=fi.full, node=None, value={k: v for k, v in env.items()}, base=ref.self_node)
        saved_guards = st.guards
        saved_nonnull = st.nonnull
        self.stack.append(fi.full)
        try:
            if isinstance(fi.node, ast.Lambda):
                r = self.ev(fi.node.body, nf, st)
                out = st
            else:
                out = self.block(fi.node.body, nf, st)
                r = None
        finally:
            self.stack.pop()
        if isinstance(fi.node, ast.Lambda):
            self.clean(out, fid)
            return r, out
        rets = nf.returns
        res_state, res = None, None
        if out is not None and not out.dead:
            res_state, res = out, self.const(None)
        for rv, rs in rets:
            if res_state is None:
                res_state, res = rs, rv
            else:
                res = self.join_nodes(res, rv)
                res_state = self.join_states(res_state, rs)
        if fi.is_generator:
            res = self.mk("gen", tuple(nf.yields), val=fi.full, site=self.site(site_ast, fr))
            if not rets and all(g == saved_guards for g in nf.ysure):
                res.extra = {"exact": True}  # yields exactly these, in this order
        if res_state is None:
            # never returns
            st.dead = "raise"
            return self.mk("never"), st
        res_state.guards = saved_guards
        res_state.nonnull = saved_nonnull | (res_state.nonnull if len(rets) <= 1 else frozenset())
        keep_env = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fi.node) if n is not fi.node)
        if not keep_env:
            self.clean(res_state, fid)
        self.emit("leave", site_ast, fr, res_state, name=fi.full, node=res)
        return res, res_state

    def clean(self, st, fid):
        for k in [k for k in st.env if k[0] == fid]:
            del st.env[k]

    def eval_default(self, d, fi, st, nf):
        old = nf.fi
        return self.ev(d, Frame(None, fi.module, -2, None, nf.depth), st)

    def dict_items(self, n, st):
        """Known (const key) entries of a dict node; second: unknown remainder."""
        n = self.cur(n, st)
        items, unk = {}, None
        chain = []
        m = n
        while m.op == "update":
            chain.append(m)
            m = m.args[0]
        if m.op == "dict":
            for k, v in m.val:
                if k == "**":
                    i2, u2 = self.dict_items(v, st)
                    items.update(i2)
                    if u2 is not None:
                        unk = u2
                elif isinstance(k, str):
                    items[k] = v
                else:
                    unk = n
        else:
            unk = m if not chain else m
        for u in reversed(chain):
            k = u.args[1]
            if u.val == "del" and k.op == "const":
                items.pop(k.val, None)
            elif k is not None and k.op == "const" and isinstance(k.val, str):
                items[k.val] = u.args[2]
            elif u.val == "merge":
                i2, u2 = self.dict_items(u.args[2], st)
                items.update(i2)
                if u2 is not None:
                    unk = u2
            else:
                unk = n
        return items, unk

    # ---------------------------------------------------------------- statements
    def block(self, body, fr, st):
        for s in body:
            if st is None or st.dead:
                return st
            st = self.stmt(s, fr, st)
        return st

    def stmt(self, s, fr, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, fr, st)

    def s_Expr(self, s, fr, st):
        n = self.ev(s.value, fr, st)
        self.emit("expr", s, fr, st, node=n)
        return st

    def s_Pass(self, s, fr, st):
        return st

    def s_Return(self, s, fr, st):
        n = self.ev(s.value, fr, st) if s.value is not None else self.const(None)
        if st.dead:
            return st
        self.emit("return", s, fr, st, node=n, name=fr.fi.full if fr.fi else None)
        rs = st.copy()
        fr.returns.append((self.cur(n, st), rs))
        st.dead = "return"
        return st

    def s_Raise(self, s, fr, st):
        exc = self.ev(s.exc, fr, st) if s.exc is not None else None
        nm = None
        if exc is not None:
            c = exc.args[0] if exc.op == "call" else exc
            if c.op == "ext":
                nm = c.val.split(".")[-1]
            elif c.op == "cls":
                nm = c.val.name
            elif c.op == "inst":
                nm = c.val.cls.name
        self.emit("raise", s, fr, st, node=exc, name=nm)
        for t in fr.trystack:
            t.append(st.copy())
        st.dead = "raise"
        return st

    def s_Assert(self, s, fr, st):
        c = self.ev(s.test, fr, st)
        self.emit("assert", s, fr, st, node=c)
        self.assume(s.test, c, True, fr, st)
        return st

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr, st)
                i = self.ev(t.slice, fr, st)
                self.emit("delitem", s, fr, st, base=b, index=i)
                self.update(b, i, self.const(None), "del", fr, st, s)
            elif isinstance(t, ast.Name):
                st.env.pop((self.var_fid(t.id, fr), t.id), None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr, st)
                self.emit("delattr", s, fr, st, base=b, name=t.attr)
                if b.op == "inst":
                    st.heap.pop((b.val, t.attr), None)
        return st

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st, s)
        return st

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            v = self.ev(s.value, fr, st)
            self.assign(s.target, v, fr, st, s)
        return st

    def s_AugAssign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.read_name(s.target.id, fr, st, s.target)
            self.emit("aug", s, fr, st, base=old, value=v, name=op)
            n = self.mk("aug", (old, v), val=op, site=self.site(s, fr))
            if old.op == v.op == "const" and type(old.val) is int and type(v.val) is int and op in ("Add", "Sub"):
                n = self.const(old.val + (v.val if op == "Add" else -v.val))
            st.env[(self.var_fid(s.target.id, fr), s.target.id)] = n
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, fr, st)
            old = self.get_attr(b, s.target.attr, fr, st, s.target)
            self.emit("aug", s, fr, st, base=old, value=v, name=op)
            n = self.mk("aug", (old, v), val=op, site=self.site(s, fr))
            self.set_attr(b, s.target.attr, n, fr, st, s)
        else:
            b = self.ev(s.target.value, fr, st)
            i = self.ev(s.target.slice, fr, st)
            old = self.mk("sub", (b, i), site=self.site(s, fr))
            n = None
            if self.spelled:
                was = self.subscript(self.cur(b, st), i, fr, st, s.target)
                if was.op == v.op == "const" and op in ("Add", "Sub"):
                    try:
                        n = self.const(was.val + v.val if op == "Add" else was.val - v.val)
                    except TypeError:
                        n = None
            if n is None:
                n = self.mk("aug", (old, v), val=op, site=self.site(s, fr))
            self.emit("setitem", s, fr, st, base=b, index=i, value=n)
            self.update(b, i, n, "setitem", fr, st, s)
        return st

    def update(self, base, idx, val, kind, fr, st, s):
        b = self.cur(base, st)
        n = self.mk("update", (b, idx, val), val=kind, site=self.site(s, fr), root=b.root)
        st.ver[b.root.id] = n
        return n

    def assign(self, t, v, fr, st, s):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.emit("setglobal", s, fr, st, name=t.id, value=v)
            st.env[(self.var_fid(t.id, fr, store=True), t.id)] = v
            self.emit("setname", s, fr, st, name=t.id, value=v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr, st)
            self.set_attr(b, t.attr, v, fr, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            i = self.ev(t.slice, fr, st)
            self.emit("setitem", s, fr, st, base=b, index=i, value=v)
            self.update(b, i, v, "setitem", fr, st, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = self.unpack(v, n, st, fr, s, star[0] if star else None)
            for e, x in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr, st, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st, s)

    def unpack(self, v, n, st, fr, s, star=None, top=True):
        if top:
            v = self.cur(v, st)
        if v.op in ("tuple", "list") and star is None and len(v.args) == n:
            return list(v.args)
        if v.op in ("tuple", "list") and star is not None and len(v.args) >= n - 1:
            k = len(v.args) - (n - 1)
            return list(v.args[:star]) + [self.mk("list", v.args[star : star + k])] + list(v.args[star + k :])
        if v.op == "phi" and star is None:
            cols = [self.unpack(x, n, st, fr, s, None, False) for x in v.args]
            out = []
            for i in range(n):
                r = cols[0][i]
                for c in cols[1:]:
                    r = self.join_nodes(r, c[i], v.val)
                out.append(r)
            return out
        return [self.mk("item", (v,), val=i, site=self.site(s, fr)) for i in range(n)]

    def set_attr(self, b, attr, v, fr, st, s):
        self.emit("setattr", s, fr, st, base=b, name=attr, value=v)
        if b.op == "inst":
            setter = b.val.cls.find(attr + "#set") if b.val.cls else None
            if setter is not None:
                self.call_func(FuncRef(setter, b), [v], {}, None, st, fr, s)
                return
            st.heap[(b.val, attr)] = v
        elif b.op == "phi":
            for x in b.args:
                if x.op == "inst":
                    old = st.heap.get((x.val, attr))
                    st.heap[(x.val, attr)] = self.join_nodes(old, v) if old is not None else v
        else:
            st.heap[(("ref", self.key(b)), attr)] = v

    # control flow -----------------------------------------------------------
    def s_If(self, s, fr, st):
        c = self.ev(s.test, fr, st)
        if st.dead:
            return st
        test, body, orelse = s.test, s.body, s.orelse
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) and c.op == "unary" and c.val == "Not":
            test, c, body, orelse = test.operand, c.args[0], orelse, body
        t = self.truth(c, st)
        if t is True:
            self.assume(test, c, True, fr, st)
            return self.block(body, fr, st)
        if t is False:
            self.assume(test, c, False, fr, st)
            return self.block(orelse, fr, st)
        a, b = st.copy(), st.copy()
        a.guards = st.guards + literals(c, True)
        b.guards = st.guards + literals(c, False)
        self.assume(test, c, True, fr, a)
        self.assume(test, c, False, fr, b)
        a = self.block(body, fr, a)
        b = self.block(orelse, fr, b)
        return self.merge2(a, b, c, s, fr, st)

    def merge2(self, a, b, c, s, fr, st):
        if a.dead and b.dead:
            return a
        if a.dead:
            return b
        if b.dead:
            return a
        return self.join_states(a, b, c, self.site(s, fr))

    def assume(self, test, c, pol, fr, st):
        """Refine state by a condition: None-ness of names."""
        if c.op == "unary" and c.val == "Not":
            self.assume(getattr(test, "operand", None), c.args[0], not pol, fr, st)
            return
        if c.op == "bool":
            if (c.val == "And") == pol:
                vs = test.values if isinstance(test, ast.BoolOp) and len(test.values) == len(c.args) else [None] * len(c.args)
                for t, x in zip(vs, c.args):
                    self.assume(t, x, pol, fr, st)
            return
        if c.op == "cmp" and c.val in ("Eq", "NotEq", "In", "NotIn"):
            # a join of constants loses the alternatives the comparison excludes
            l, r = c.args
            want = (c.val in ("Eq", "In")) == pol
            lits = None
            if c.val in ("Eq", "NotEq"):
                lits = [r.val] if r.op == "const" else None
            elif r.op in ("tuple", "list", "set") and all(x.op == "const" for x in r.args):
                lits = [x.val for x in r.args]
            alts = flat_alts(l)
            if lits is not None and len(alts) > 1 and all(x.op == "const" for x in alts):
                kept = [x for x in alts if (any(type(x.val) is type(v) and x.val == v for v in lits)) == want]
                if kept and len(kept) < len(alts):
                    self.narrow(l, kept[0] if len(kept) == 1 else self.mk("phi", kept, val=None, site=l.site), test, fr, st)
            return
        if c.op == "cmp" and c.val in ("Is", "IsNot"):
            l, r = c.args
            if r.op == "const" and r.val is None:
                if (c.val == "Is") == pol:
                    self.narrow(l, self.const(None), test, fr, st, True)
                else:
                    st.nonnull = st.nonnull | {l.root.id}
                    # drop the None alternative of a join
                    if l.op == "phi" and any(x.op == "const" and x.val is None for x in l.args):
                        alts = [x for x in l.args if not (x.op == "const" and x.val is None)]
                        if alts:
                            r2 = alts[0] if len(alts) == 1 else self.mk("phi", alts, val=None, site=l.site)
                            if self.narrow(l, r2, test, fr, st):
                                st.nonnull = st.nonnull | {r2.root.id}
        elif isinstance(test, ast.Name) and pol:
            st.nonnull = st.nonnull | {c.root.id}

    def narrow(self, l, new, test, fr, st, heap=False):
        """The variables of this function holding l hold new instead."""
        left = getattr(test, "left", None)
        done = False
        if isinstance(left, ast.Name):
            k = (self.var_fid(left.id, fr), left.id)
            if st.env.get(k) is not None:
                st.env[k] = new
                done = True
        elif isinstance(left, ast.Attribute):
            if heap:
                b = self.ev_quiet(left.value, fr, st)
                if b.op == "inst":
                    st.heap[(b.val, left.attr)] = new
        elif l.op != "const":
            # tested by a helper: whatever holds the value
            f = fr
            fids = set()
            while f is not None:
                fids.add(f.fid)
                f = f.parent
            for k, v in list(st.env.items()):
                if k[0] in fids and v is not None and (v is l or v.root is l.root and v.op == l.op):
                    st.env[k] = new
                    done = True
        return done

    def ev_quiet(self, e, fr, st):
        old, self.record = self.record, False
        try:
            return self.ev(e, fr, st)
        finally:
            self.record = old

    def s_While(self, s, fr, st):
        plain = not isinstance(s.test, ast.Constant) and not any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for b in s.body for n in ast.walk(b))
        if plain and self.truth(self.ev_quiet(s.test, fr, st.copy()), st) is not None:
            # every round decided by constants: the rounds one after the other
            mark, s2 = len(self.events), st.copy()
            for _ in range(UNROLL):
                t = self.truth(self.ev(s.test, fr, s2), s2)
                if t is False:
                    return self.block(s.orelse, fr, s2)
                if t is None:
                    break
                s2 = self.block(s.body, fr, s2)
                if s2.dead:
                    break
            del self.events[mark:]
        return self.loop(s, fr, st, None)

    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        if st.dead:
            return st
        elems = self.known_elems(it, st)
        if elems is not None and len(elems) <= UNROLL:
            has_bc = any(isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b))
            if not has_bc:
                for e in elems:
                    self.assign(s.target, e, fr, st, s)
                    st = self.block(s.body, fr, st)
                    if st.dead:
                        return st
                return self.block(s.orelse, fr, st)
            fr.breaks.append([])
            for e in elems:
                self.assign(s.target, e, fr, st, s)
                fr.continues.append([])
                st = self.block(s.body, fr, st)
                for cst in fr.continues.pop():
                    st = self.join_states(st, cst)
                if st.dead:
                    break
            done = None if st.dead else self.block(s.orelse, fr, st)
            for bst in fr.breaks.pop():
                done = self.join_states(done, bst)
            return done if done is not None else st
        return self.loop(s, fr, st, it)

    def known_elems(self, it, st):
        it = self.cur(it, st)
        n = self.seq_len(it)
        if n is not None:
            out = [self.seq_get(it, i) for i in range(n)]
            return out if all(x is not None for x in out) else None
        if it.op == "gen" and it.extra and it.extra.get("exact") and len(it.args) <= UNROLL:
            return list(it.args)
        if it.op == "sub" and it.args[1].op == "slice":
            el = self.known_elems(it.args[0], st)
            bounds = [a.val if a.op == "const" else "?" for a in it.args[1].args]
            if el is not None and all(type(x) in (int, type(None)) for x in bounds) and bounds[2] != 0:
                return el[slice(*bounds)]
            return None
        if it.op == "dict" or it.op == "update" and it.root.op == "dict":
            items, unk = self.dict_items(it, st)
            if unk is None and len(items) <= UNROLL:
                return [self.const(k) for k in items]
        if it.op == "call" and it.args[0].op == "ext":
            nm = it.args[0].val
            if nm == "builtins.enumerate" and len(it.args) >= 2:
                el = self.known_elems(it.args[1], st)
                if el is not None:
                    return [self.mk("tuple", (self.const(i), e)) for i, e in enumerate(el)]
            if nm == "builtins.zip" and len(it.args) > 1:
                cols = [self.known_elems(a, st) for a in it.args[1:]]
                if all(c is not None for c in cols):
                    return [self.mk("tuple", t) for t in zip(*cols)]
            if nm == "builtins.range" and all(a.op == "const" for a in it.args[1:]):
                try:
                    r = range(*[a.val for a in it.args[1:]])
                    if len(r) <= UNROLL:
                        return [self.const(i) for i in r]
                except (TypeError, ValueError):
                    return None
            if nm in ("builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter") and len(it.args) == 2 and not it.kw:
                el = self.known_elems(it.args[1], st)
                return el[::-1] if el is not None and nm.endswith("reversed") else el
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].val in ("items", "values", "keys"):
            d = self.cur(it.args[0].args[0], st)
            if d.op in ("dict", "update"):
                items, unk = self.dict_items(d, st)
                if unk is None:
                    if it.args[0].val == "items":
                        return [self.mk("tuple", (self.const(k), v)) for k, v in items.items()]
                    if it.args[0].val == "values":
                        return list(items.values())
                    return [self.const(k) for k in items]
        return None

    def elem(self, it, fr, st, s, top=True):
        """Abstract element of an iterable."""
        if top:
            it = self.cur(it, st)
        if it.op == "gen":
            if it.args:
                r = it.args[0]
                for x in it.args[1:]:
                    r = self.join_nodes(r, x)
                return r
        if it.op == "comp" and it.val in ("list", "set", "gen"):
            return it.args[0]
        if it.op in ("tuple", "list") and it.args:
            r = it.args[0]
            for x in it.args[1:]:
                r = self.join_nodes(r, x)
            return r
        if it.op == "update" and it.val in ("append", "setitem") and not self.isdict(it):
            return self.mk("elem", (it,), site=self.site(s, fr))
        if it.op == "phi" and not self.isdict(it):
            r = None
            for x in it.args:
                e = self.elem(x, fr, st, s, False)
                r = e if r is None else self.join_nodes(r, e)
            return r
        if it.op == "call" and it.args[0].op == "ext":
            nm = it.args[0].val
            if nm == "builtins.enumerate" and len(it.args) >= 2:
                return self.mk("tuple", (self.mk("index", (it.args[1],), site=self.site(s, fr)), self.elem(it.args[1], fr, st, s)))
            if nm == "builtins.zip":
                return self.mk("tuple", tuple(self.elem(a, fr, st, s) for a in it.args[1:]))
            if nm in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "tqdm.tqdm") and len(it.args) >= 2:
                return self.elem(it.args[1], fr, st, s)
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].val == "items":
            d = it.args[0].args[0]
            return self.mk("tuple", (self.mk("dkey", (d,), site=self.site(s, fr)), self.mk("dval", (d,), site=self.site(s, fr))))
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].val == "values":
            return self.mk("dval", (it.args[0].args[0],), site=self.site(s, fr))
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].val == "keys":
            return self.mk("dkey", (it.args[0].args[0],), site=self.site(s, fr))
        if self.isdict(it):
            return self.mk("dkey", (it,), site=self.site(s, fr))
        return self.mk("elem", (it,), site=self.site(s, fr))

    def loop(self, s, fr, st, it):
        # discovery walk: which variables/attributes/versions change in the body?
        rec, self.record = self.record, False
        nid_ev = len(self.events)
        probe = st.copy()
        nret, ny = len(fr.returns), len(fr.yields)
        after = self.loop_body(s, fr, probe, it)
        changed = []
        ends = [x for x in after if x is not None and not x.dead]
        for e in ends:
            for d in ("env", "heap", "ver"):
                da, db = getattr(st, d), getattr(e, d)
                for k in da.keys() | db.keys():
                    if da.get(k) is not db.get(k) and (d, k) not in changed:
                        if d == "env" and k not in da:
                            # defined in the loop: no incoming value, no need to merge
                            continue
                        changed.append((d, k))
        del fr.returns[nret:], fr.yields[ny:], fr.ysure[ny:]
        self.record = rec
        del self.events[nid_ev:]
        # real walk with loop nodes
        heads = {}
        st0 = st.copy()
        for d, k in changed:
            cont = getattr(st, d)
            init = cont.get(k)
            root = None
            if d == "heap" and init is None:
                init = self.initial_attr(k, None)
            if d == "ver":
                root = (init or self.find_root(k, ends)).root
                init = init or root
            h = self.mk("loop", (init,), site=self.site(s, fr), root=root)
            heads[(d, k)] = h
            cont[k] = h
        pre = st.copy()
        after = self.loop_body(s, fr, st, it)
        cont_state, brk_state, exit_guard = after
        for (d, k), h in heads.items():
            back = []
            if cont_state is not None and not cont_state.dead:
                v = getattr(cont_state, d).get(k)
                if v is not None and v is not h:
                    back.append(v)
            h.args = (h.args[0],) + tuple(b for b in back if b is not h.args[0])
            h._key = None
        # state after the loop: loop heads (zero or more iterations) joined with breaks
        out = pre
        out.guards = st0.guards
        if cont_state is not None and not cont_state.dead:
            for k, v in cont_state.env.items():
                if k not in out.env:
                    out.env[k] = v if self.sure_runs(it, st) else self.join_nodes(v, None)
            for k, v in cont_state.heap.items():
                if k not in out.heap:
                    out.heap[k] = v
            for k, v in cont_state.ver.items():
                if k not in out.ver:
                    out.ver[k] = v
        infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        if infinite:
            out.dead = "loop"
        if s.orelse and not out.dead:
            out = self.block(s.orelse, fr, out)
        if brk_state is not None:
            if out.dead:
                out = brk_state
            else:
                g = out.guards
                out = self.join_states(out, brk_state)
            out.guards = st0.guards
        return out

    def sure_runs(self, it, st):
        return True

    def find_root(self, k, states):
        for e in states:
            if k in e.ver:
                return e.ver[k]
        raise AnalysisBroken("loop root")

    def loop_body(self, s, fr, st, it):
        fr.breaks.append([])
        fr.continues.append([])
        g0 = st.guards
        if isinstance(s, ast.While):
            c = self.ev(s.test, fr, st)
            self.emit("loopcond", s, fr, st, node=c)
            if not (c.op == "const"):
                st.guards = st.guards + ((c, True),)
                self.loop_tests.add(c.id)
                self.assume(s.test, c, True, fr, st)
        else:
            e = self.elem(it, fr, st, s)
            self.assign(s.target, e, fr, st, s)
            st.guards = st.guards + ((self.mk("iter", (it,)), True),)
        out = self.block(s.body, fr, st)
        for cst in fr.continues.pop():
            out = self.join_states(out, cst)
        brk = None
        for bst in fr.breaks.pop():
            brk = bst if brk is None else self.join_states(brk, bst)
        if out is not None:
            out.guards = g0
        return out, brk, None

    def s_Break(self, s, fr, st):
        if fr.breaks:
            fr.breaks[-1].append(st.copy())
        self.emit("jump", s, fr, st)
        st.dead = "break"
        return st

    def s_Continue(self, s, fr, st):
        if fr.continues:
            fr.continues[-1].append(st.copy())
        self.emit("jump", s, fr, st)
        st.dead = "continue"
        return st

    def s_Try(self, s, fr, st):
        start = st.copy()
        raised = []
        fr.trystack.append(raised)
        g0 = st.guards
        info = {"falls": False}
        t0 = self.tries
        self.tries = t0 + ((info, "body"),)
        body = self.block(s.body, fr, st)
        fr.trystack.pop()
        self.tries = t0 + ((info, "else"),)
        if not body.dead and s.orelse:
            body = self.block(s.orelse, fr, body)
        self.tries = t0 + ((info, "handler"),)
        outs = [body]
        # a handler starts from any point of the body
        hs = start
        if not body.dead or body.dead in ("return", "break", "continue"):
            b2 = body.copy()
            b2.dead = None
            hs = self.join_states(start.copy(), b2)
        for r in raised:
            hs = self.join_states(hs, r)
        hs.guards = g0
        for h in s.handlers:
            h0 = hs.copy()
            nm = ast.unparse(h.type) if h.type is not None else "BaseException"
            en = self.mk("exc", val=nm)
            h0.guards = g0 + ((en, True),)
            if h.name:
                h0.env[(fr.fid, h.name)] = en
            h1 = self.block(h.body, fr, h0)
            if not h1.dead:
                info["falls"] = True
            outs.append(h1)
        self.tries = t0 + ((info, "finally"),)
        live = [o for o in outs if not o.dead]
        if live:
            out = live[0]
            for o in live[1:]:
                out = self.join_states(out, o)
            out.guards = g0
        else:
            out = outs[0]
        if s.finalbody:
            if out.dead:
                d = out.dead
                out.dead = None
                out = self.block(s.finalbody, fr, out)
                out.dead = out.dead or d
            else:
                out = self.block(s.finalbody, fr, out)
        self.tries = t0
        return out

    s_TryStar = s_Try

    def s_With(self, s, fr, st):
        t0 = self.tries
        g0 = self.nograd
        for it in s.items:
            k = len(self.events)
            c = self.ev(it.context_expr, fr, st)
            falls = (callee_name(c) or "") == "contextlib.suppress" if c.op == "call" else False
            if c.op == "gen":
                # a context manager swallows what a handler around its yield swallows
                falls = any(i["falls"] for ev in self.events[k:] if ev.kind == "yield" and ev.name == c.val for i, part in ev.tries[len(t0):] if part == "body")
            self.emit("with", s, fr, st, node=c)
            if nograd(c):
                self.nograd += 1
            self.tries = self.tries + (({"falls": falls}, "body"),)
            if it.optional_vars is not None:
                c = self.cur(c, st)
                v = self.elem(c, fr, st, s) if c.op == "gen" and c.args else self.mk("entered", (c,), site=self.site(s, fr))
                self.assign(it.optional_vars, v, fr, st, s)
        try:
            return self.block(s.body, fr, st)
        finally:
            self.tries = t0
            self.nograd = g0

    def s_Global(self, s, fr, st):
        fr.globals_.update(s.names)
        return st

    def s_Nonlocal(self, s, fr, st):
        fr.nonlocals.update(s.names)
        return st

    def s_FunctionDef(self, s, fr, st):
        fi = FuncInfo(fr.module, s, parent=fr.fi)
        n = self.mk("func", val=FuncRef(fi, None, fr), site=self.site(s, fr))
        n.val.captured = self.captured(s, fr, st)
        st.env[(fr.fid, s.name)] = n
        return st

    def s_ClassDef(self, s, fr, st):
        n = self.mk("cls", val=ClassInfo(fr.module, s))
        st.env[(fr.fid, s.name)] = n
        return st

    def s_Import(self, s, fr, st):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            st.env[(fr.fid, nm)] = self.lift(self.p.resolve_dotted(tgt), st)
        return st

    def s_ImportFrom(self, s, fr, st):
        base = s.module or ""
        if s.level:
            base = fr.module._pkg(s.level) + ("." + base if base else "")
        for a in s.names:
            if a.name != "*":
                st.env[(fr.fid, a.asname or a.name)] = self.lift(self.p.resolve_dotted(base + "." + a.name), st, ext=base + "." + a.name)
        return st

    def s_Match(self, s, fr, st):
        subj = self.ev(s.subject, fr, st)
        outs = []
        g0 = st.guards
        for c in s.cases:
            x = st.copy()
            mn = self.mk("match", (subj,), val=ast.dump(c.pattern))
            x.guards = g0 + ((mn, True),)
            for n in ast.walk(c.pattern):
                if isinstance(n, ast.MatchAs) and n.name:
                    x.env[(fr.fid, n.name)] = subj
            outs.append(self.block(c.body, fr, x))
        wild = any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases)
        if not wild:
            outs.append(st)
        live = [o for o in outs if not o.dead]
        if not live:
            return outs[0]
        out = live[0]
        for o in live[1:]:
            out = self.join_states(out, o)
        out.guards = g0
        return out

    # ---------------------------------------------------------------- names
    def var_fid(self, name, fr, store=False):
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if p.fi is not None:
                    return p.fid
                p = p.parent
        return fr.fid

    def read_name(self, name, fr, st, e):
        f = fr
        while f is not None:
            k = (f.fid, name)
            if k in st.env:
                n = self.cur(st.env[k], st)
                if n.op == "phi" and any(x.op == "unbound" for x in n.args):
                    self.emit("maybe_unbound", e, fr, st, name=name, node=n)
                return n
            f = f.parent if (f.fi is not None and f.fi.parent is not None) or (f.fi is not None and isinstance(f.fi.node, ast.Lambda)) else None
        r = fr.module.resolve(name)
        if r is not None:
            return self.lift(r, st)
        # closures whose frame is gone, builtins
        import builtins

        if hasattr(builtins, name):
            v = getattr(builtins, name)
            if name in ("True", "False", "None"):
                return self.const(v)
            return self.extnode("builtins." + name)
        self.emit("undefined", e, fr, st, name=name)
        return self.mk("unknown", val=name, site=self.site(e, fr))

    def extnode(self, dotted):
        k = ("ext", dotted)
        if k not in self.const_cache:
            self.const_cache[k] = self.mk("ext", val=canon(dotted))
        return self.const_cache[k]

    def lift(self, r, st, ext=None):
        if r is None:
            return self.extnode(ext) if ext else self.mk("unknown")
        if isinstance(r, FuncInfo):
            k = ("fn", id(r))
            if k not in self.const_cache:
                self.const_cache[k] = self.mk("func", val=FuncRef(r))
            return self.const_cache[k]
        if isinstance(r, ClassInfo):
            k = ("cls", id(r))
            if k not in self.const_cache:
                self.const_cache[k] = self.mk("cls", val=r)
            return self.const_cache[k]
        if isinstance(r, Module):
            k = ("mod", r.name)
            if k not in self.const_cache:
                self.const_cache[k] = self.mk("mod", val=r)
            return self.const_cache[k]
        if r[0] == "ext":
            return self.extnode(r[1])
        if r[0] == "global":
            _, mod, expr, name = r
            k = (mod.name, name)
            if k not in self.global_cache:
                self.global_cache[k] = self.mk("unknown", val=name)
                old, self.record = self.record, False
                try:
                    gfr = Frame(None, mod, -3, None, 0)
                    v = self.ev(expr, gfr, State())
                finally:
                    self.record = old
                if v.op != "const":
                    v.extra = dict(v.extra or {}, glob=f"{mod.name}.{name}")
                self.global_cache[k] = v
            return self.cur(self.global_cache[k], st)
        return self.mk("unknown")

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            n = self.mk("unknown", site=self.site(e, fr))
        else:
            n = m(e, fr, st)
        return n

    def e_Constant(self, e, fr, st):
        return self.const(e.value)

    def e_Name(self, e, fr, st):
        return self.read_name(e.id, fr, st, e)

    def e_Attribute(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        if b.op == "const" and isinstance(e.value, ast.Name) and not hasattr(b.val, e.attr):
            self.emit("noattr", e, fr, st, base=b, name=e.value.id)
        return self.get_attr(b, e.attr, fr, st, e)

    def get_attr(self, b, attr, fr, st, e, top=True):
        if top:
            b = self.cur(b, st)
        if self.spelled and attr in ("__name__", "__qualname__") and b.op == "cls":
            return self.const(b.val.name)
        if b.op == "super":
            return self.super_attr(b, attr, fr, st, e)
        if b.op == "inst":
            k = (b.val, attr)
            if k in st.heap:
                n = self.cur(st.heap[k], st)
                self.emit("getattr", e, fr, st, base=b, name=attr, node=n)
                return n
            if attr == "__class__":
                return self.lift(b.val.cls, st)
            f = b.val.cls.find_attr(attr) if b.val.cls else None
            if f is not None:
                c, v = f
                if isinstance(v, FuncInfo):
                    if v.has_deco("property", "cached_property"):
                        r, st2 = self.inline(FuncRef(v, b), [], {}, None, st, fr, e)
                        return r
                    if v.has_deco("staticmethod"):
                        return self.mk("func", val=FuncRef(v, None), site=self.site(e, fr))
                    if v.has_deco("classmethod"):
                        return self.mk("func", val=FuncRef(v, self.lift(b.val.cls, st)), site=self.site(e, fr))
                    return self.mk("func", val=FuncRef(v, b), site=self.site(e, fr))
                if v is not None:
                    return self.class_attr(c, attr, v, fr, st)
            n = self.mk("attr0", (), val=attr, site=self.site(e, fr))
            n.extra = {"obj": b.val}
            st.heap[k] = n
            self.emit("getattr", e, fr, st, base=b, name=attr, node=n)
            return n
        if b.op == "cls":
            f = b.val.find_attr(attr)
            if f is not None:
                c, v = f
                if isinstance(v, FuncInfo):
                    if v.has_deco("classmethod"):
                        return self.mk("func", val=FuncRef(v, b), site=self.site(e, fr))
                    return self.mk("func", val=FuncRef(v, None), site=self.site(e, fr))
                if v is not None:
                    return self.ev_quiet(v, Frame(None, c.module, -4, None, fr.depth), st)
            return self.mk("attr", (b,), val=attr, site=self.site(e, fr))
        if b.op == "mod":
            r = b.val.resolve(attr) or self.p.resolve_dotted(b.val.name + "." + attr)
            return self.lift(r, st)
        if b.op == "ext":
            return self.extnode(b.val + "." + attr)
        if b.op == "phi" and any(x.op == "inst" for x in b.args):
            r = None
            for x in b.args:
                v = self.get_attr(x, attr, fr, st, e, False)
                r = v if r is None else self.join_nodes(r, v, b.val)
            return r
        k = (("ref", self.key(b)), attr)
        if k in st.heap:
            return self.cur(st.heap[k], st)
        n = self.mk("attr", (b,), val=attr, site=self.site(e, fr))
        self.emit("getattr", e, fr, st, base=b, name=attr, node=n)
        return n

    def class_attr(self, c, attr, v, fr, st):
        """Value of a class attribute: one object per class when it is a container."""
        k = (c.full, attr)
        n = self.class_attrs.get(k)
        if n is None:
            n = self.ev_quiet(v, Frame(None, c.module, -4, None, fr.depth), st)
            if n.op not in ("dict", "list", "set", "call"):
                return n
            self.class_attrs[k] = n
        return self.cur(n, st)

    def super_attr(self, b, attr, fr, st, e):
        cls, selfn = b.val, b.args[0]
        if selfn.op == "inst":
            f = selfn.val.cls.find_attr(attr, after=cls)
        elif selfn.op == "cls":
            f = selfn.val.find_attr(attr, after=cls)
        else:
            f = cls.find_attr(attr, after=cls) if cls else None
        if f is not None and isinstance(f[1], FuncInfo):
            return self.mk("func", val=FuncRef(f[1], selfn), site=self.site(e, fr))
        return self.mk("attr", (b,), val=attr, site=self.site(e, fr))

    def e_Call(self, e, fr, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            args = [self.ev(a, fr, st) for a in e.args]
            if args and args[0].op == "cls":
                return self.mk("super", (args[1],) if len(args) > 1 else (self.self_of(fr, st),), val=args[0].val)
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            return self.mk("super", (self.self_of(fr, st),), val=f.cls if f else None)
        callee = self.ev(e.func, fr, st)
        pos, kw, kwstar = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                el = self.known_elems(v, st)
                if el is not None:
                    pos.extend(el)
                else:
                    pos.append(("*", v))
            else:
                pos.append(self.ev(a, fr, st))
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                items, unk = self.dict_items(v, st)
                for kk, vv in items.items():
                    kw.setdefault(kk, vv)
                if unk is not None:
                    kwstar = unk
            else:
                kw[k.arg] = v
        return self.call(callee, pos, kw, kwstar, fr, st, e)

    def self_of(self, fr, st):
        f = fr
        while f is not None:
            if f.self_node is not None:
                return f.self_node
            if f.fi is not None and f.fi.cls is not None and f.fi.params:
                k = (f.fid, f.fi.params[0])
                if k in st.env:
                    return self.cur(st.env[k], st)
            f = f.parent
        return self.mk("unknown", val="self")

    def opaque_call(self, callee, pos, kw, kwstar, fr, st, e):
        args = [p if isinstance(p, Node) else self.mk("star", (p[1],)) for p in pos]
        kws = dict(kw)
        if kwstar is not None:
            kws["**"] = kwstar
        n = self.mk("call", [callee] + args, kws, site=self.site(e, fr))
        n.guards = st.guards
        self.emit("call", e, fr, st, node=n)
        return n

    def call(self, callee, pos, kw, kwstar, fr, st, e):
        callee = self.cur(callee, st)
        if callee.op == "phi" and any(x.op in ("func", "cls") or (x.op == "attr") for x in callee.args):
            res, states = None, None
            outs = []
            for x in callee.args:
                if x.op == "unbound":
                    continue
                s2 = st.copy()
                r = self.call(x, pos, kw, kwstar, fr, s2, e)
                if not s2.dead:
                    outs.append((r, s2))
            if not outs:
                st.dead = "raise"
                return self.mk("never")
            res, js = outs[0]
            for r, s2 in outs[1:]:
                res = self.join_nodes(res, r, callee.val)
                js = self.join_states(js, s2)
            self.adopt(st, js)
            return res
        if callee.op == "func":
            sm = self.summaries.get(callee.val.fi.full)
            if sm is not None:
                r = sm(self, callee, pos, kw, kwstar, fr, st, e)
                if r is not None:
                    return r
            r, _ = self.inline(callee.val, pos, kw, kwstar, st, fr, e)
            return r
        if callee.op == "cls":
            return self.construct(callee, pos, kw, kwstar, fr, st, e)
        if callee.op == "ext":
            r = self.builtin(callee.val, pos, kw, kwstar, fr, st, e)
            if r is not None:
                return r
            return self.opaque_call(callee, pos, kw, kwstar, fr, st, e)
        if callee.op == "attr":
            base = callee.args[0]
            r = self.method_on(base, callee.val, pos, kw, kwstar, fr, st, e, callee)
            if r is not None:
                return r
        if callee.op == "inst":
            m = callee.val.cls.find("__call__")
            if m is None and any(b.startswith("torch") or "Module" in b for b in callee.val.cls.ext_bases()):
                m = callee.val.cls.find("forward")
            if m is not None:
                r, _ = self.inline(FuncRef(m, callee), pos, kw, kwstar, st, fr, e)
                return r
        return self.opaque_call(callee, pos, kw, kwstar, fr, st, e)

    def adopt(self, st, js):
        st.env, st.heap, st.ver = js.env, js.heap, js.ver
        st.nonnull, st.dead = js.nonnull, js.dead

    def inline(self, ref, pos, kw, kwstar, st, fr, e):
        fi = ref.fi
        if (
            fr.depth >= self.max_depth
            or self.stack.count(fi.full) >= 1
            or fi.full in self.no_inline
            or any(_tailname(d) in ("abstractmethod",) for d in fi.decorators) and _is_stub(fi)
        ):
            c = self.mk("func", val=ref)
            return self.opaque_call(c, pos, kw, kwstar, fr, st, e), st
        s0_guards = st.guards
        g0 = self.nograd
        if fi.has_deco("no_grad", "inference_mode"):
            self.nograd += 1
        r, out = self.call_func(ref, pos, kw, kwstar, st, fr, e)
        self.nograd = g0
        if out is not st:
            self.adopt(st, out)
        st.guards = s0_guards
        if r.op not in ("const", "tuple", "phi", "inst", "param", "func", "cls"):
            pass
        return r, st

    def construct(self, callee, pos, kw, kwstar, fr, st, e):
        ci = callee.val
        if any(b.split(".")[-1] in ("Enum", "Exception", "ValueError") for b in ci.ext_bases()):
            return self.opaque_call(callee, pos, kw, kwstar, fr, st, e)
        obj = Obj(ci, f"{ci.name}@{getattr(e, 'lineno', 0)}")
        n = self.mk("inst", val=obj, site=self.site(e, fr))
        n.extra = {"pos": pos, "kw": kw, "kwstar": kwstar}
        n.guards = st.guards
        self.emit("new", e, fr, st, node=n, name=ci.name)
        init = ci.find("__init__")
        if init is not None:
            old = self.phase
            self.inline(FuncRef(init, n), pos, kw, kwstar, st, fr, e)
            self.phase = old
        elif "dataclass" in ci.deco_tail():
            fields = []
            for c in reversed(ci.project_mro()):
                for stn in c.node.body:
                    if isinstance(stn, ast.AnnAssign) and isinstance(stn.target, ast.Name):
                        fields.append(stn.target.id)
            for i, f in enumerate(fields):
                if i < len(pos) and isinstance(pos[i], Node):
                    st.heap[(obj, f)] = pos[i]
                elif f in kw:
                    st.heap[(obj, f)] = kw[f]
        return n

    # methods on tracked containers / in-place methods
    INPLACE = {
        "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault",
        "add", "discard", "fill", "put", "itemset", "partition", "resize", "setflags", "popitem", "setfield", "byteswap",
    }

    def text(self, b, name, pos, st):
        """Methods of text that is known, counts in a known list."""
        if b.op == "const" and isinstance(b.val, str):
            if name == "join" and len(pos) == 1:
                el = self.known_elems(pos[0], st)
                if el is not None and all(x.op == "const" and isinstance(x.val, str) for x in el):
                    return self.const(b.val.join(x.val for x in el))
            elif name in ("lower", "upper", "strip", "title", "replace", "format", "startswith", "endswith", "removeprefix", "removesuffix") and all(p.op == "const" for p in pos):
                try:
                    return self.const(getattr(b.val, name)(*[p.val for p in pos]))
                except Exception:
                    return None
        if name in ("count", "index") and len(pos) == 1 and pos[0].op == "const":
            el = self.known_elems(b, st)
            if el is not None and all(x.op == "const" for x in el):
                vals = [x.val for x in el]
                return self.const(vals.count(pos[0].val)) if name == "count" else self.const(vals.index(pos[0].val)) if pos[0].val in vals else None
        return None

    def method_on(self, base, name, pos, kw, kwstar, fr, st, e, callee):
        b = self.cur(base, st)
        if self.spelled and all(isinstance(p, Node) for p in pos) and not kw and kwstar is None:
            r = self.text(b, name, pos, st)
            if r is not None:
                return r
        if b.op in ("dict", "update", "loop", "phi") and name in ("get", "pop") and pos and isinstance(pos[0], Node) and pos[0].op == "const":
            items, unk = self.dict_items(b, st)
            if pos[0].val in items:
                v = self.cur(items[pos[0].val], st)
                if name == "pop":
                    self.emit("mutcall", e, fr, st, base=b, name=name, node=None)
                    self.update(b, pos[0], self.const(None), "del", fr, st, e)
                return v
            if unk is None:
                d = pos[1] if len(pos) > 1 else kw.get("default", self.const(None))
                return d if isinstance(d, Node) else None
        if name == "setdefault" and self.base_of(b).op == "dict" and len(pos) == 2 and all(isinstance(p, Node) for p in pos) and pos[0].op == "const":
            items, unk = self.dict_items(b, st)
            if pos[0].val in items:
                return self.cur(items[pos[0].val], st)
            if unk is None:
                self.emit("mutcall", e, fr, st, base=b, name=name, node=None, value=pos[1])
                self.update(b, pos[0], pos[1], "setitem", fr, st, e)
                return pos[1]
        if name == "update" and b.op in ("dict", "update") and len(pos) == 1 and isinstance(pos[0], Node):
            self.emit("mutcall", e, fr, st, base=b, name=name, value=pos[0])
            self.update(b, self.const(None), pos[0], "merge", fr, st, e)
            return self.const(None)
        if name == "_route_params" and self.relay and isinstance(kw.get("params"), Node):
            items, unk = self.dict_items(kw["params"], st)
            if items and unk is None:
                return self.mk("dict", tuple(items.values()), val=list(items.items()), site=self.site(e, fr))
        if name == "items" and b.op in ("dict", "update") and not pos:
            return None
        if name == "copy" and not pos and b.op in ("dict", "list", "update"):
            if b.op == "update" and self.base_of(b).op != "dict":
                return None
            items, unk = self.dict_items(b, st) if self.base_of(b).op == "dict" else (None, 1)
            if unk is None:
                return self.mk("dict", tuple(items.values()), val=list(items.items()), site=self.site(e, fr))
            if b.op == "list":
                return self.mk("list", b.args, site=self.site(e, fr))
        if name == "shuffle" and len(pos) == 1 and isinstance(pos[0], Node) and not kw and kwstar is None:
            n = self.opaque_call(callee, pos, kw, kwstar, fr, st, e)
            self.update(pos[0], None, n, "shuffle", fr, st, e)
            return n
        if name in self.INPLACE or (name.endswith("_") and not name.startswith("_") and not name.endswith("__") and base.op != "super"):
            n = self.opaque_call(callee, pos, kw, kwstar, fr, st, e)
            self.emit("mutcall", e, fr, st, base=b, name=name, node=n, value=pos[0] if pos and isinstance(pos[0], Node) else None)
            whole = None
            if b.op == "list" and pos and isinstance(pos[0], Node) and not kw:
                if name == "extend" and len(pos) == 1:
                    el = self.known_elems(pos[0], st)
                    if el is not None and len(el) <= UNROLL:
                        whole = list(b.args) + el
                elif name == "insert" and len(pos) == 2 and isinstance(pos[1], Node) and pos[0].op == "const" and type(pos[0].val) is int:
                    whole = list(b.args)
                    whole.insert(pos[0].val, pos[1])
            if b.op == "list" and b.args and name == "pop" and all(isinstance(p, Node) and p.op == "const" and type(p.val) is int for p in pos) and len(pos) <= 1:
                k = pos[0].val if pos else -1
                if -len(b.args) <= k < len(b.args):
                    whole = list(b.args)
                    n = whole.pop(k)
            if whole is not None:
                st.ver[b.root.id] = self.mk("list", whole, site=self.site(e, fr), root=b.root)
            elif name in ("append", "add") and pos and isinstance(pos[0], Node):
                if b.op == "list" and name == "append":
                    nb = self.mk("list", b.args + (pos[0],), site=self.site(e, fr), root=b.root)
                    st.ver[b.root.id] = nb
                else:
                    self.update(b, None, pos[0], "append", fr, st, e)
            elif b.op in ("list", "dict", "update", "loop", "phi", "call", "param", "attr", "attr0", "sub", "comp", "aug", "bin") and (name not in ("pop", "get", "setdefault") or self.base_of(b).op in ("list", "dict")):
                self.update(b, None, pos[0] if pos and isinstance(pos[0], Node) else self.const(None), name, fr, st, e)
            return n
        return None

    def isdict(self, n):
        """A dictionary whatever the path."""
        seen, work = set(), [n]
        while work:
            m = work.pop()
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.op == "update" and m.val == "setitem":
                work.append(m.args[0])
            elif m.op in ("phi", "loop"):
                work.extend(m.args)
            elif m.op not in ("dict", "dictcomp"):
                return False
        return bool(seen)

    def base_of(self, n):
        while n.op == "update":
            n = n.args[0]
        return n

    def builtin(self, nm, pos, kw, kwstar, fr, st, e):
        P = [p for p in pos if isinstance(p, Node)]
        if len(P) != len(pos):
            return None
        if nm == "builtins.getattr" and len(P) >= 2 and P[1].op == "const" and isinstance(P[1].val, str):
            if P[0].op in ("inst", "super", "mod", "cls") and len(P) == 2:
                return self.get_attr(P[0], P[1].val, fr, st, e)
            if P[0].op == "inst":
                k = (P[0].val, P[1].val)
                if k in st.heap or P[0].val.cls.find_attr(P[1].val):
                    return self.get_attr(P[0], P[1].val, fr, st, e)
                if P[1].val in self.own_attrs and len(P) == 3:
                    return P[2]
                return None
            if len(P) == 2:
                return self.mk("attr", (self.cur(P[0], st),), val=P[1].val, site=self.site(e, fr))
            return None
        if nm == "builtins.setattr" and len(P) == 3 and P[1].op == "const":
            self.set_attr(P[0], P[1].val, P[2], fr, st, e)
            return self.const(None)
        if nm == "builtins.isinstance" and len(P) == 2:
            r = self.isinstance_(self.cur(P[0], st), P[1], st)
            if r is not None:
                return self.const(r)
            return None
        if nm == "builtins.hasattr" and len(P) == 2 and P[0].op == "inst" and P[1].op == "const" and P[1].val in self.own_attrs:
            return self.const((P[0].val, P[1].val) in st.heap or bool(P[0].val.cls.find_attr(P[1].val)))
        if self.spelled and nm in ("collections.defaultdict", "collections.Counter") and not kw and kwstar is None:
            el = self.known_elems(P[0], st) if P and nm.endswith("Counter") else []
            if el is not None and all(x.op == "const" and isinstance(x.val, str) for x in el) and (nm.endswith("Counter") or len(P) == 1 and P[0].op == "ext" and P[0].val == "builtins.int"):
                vals = [x.val for x in el]
                n = self.mk("dict", val=tuple((k, self.const(vals.count(k))) for k in dict.fromkeys(vals)), site=self.site(e, fr))
                n.extra = {"missing": self.const(0)}
                return n
        if nm == "builtins.callable" and len(P) == 1 and (P[0].op in ("func", "cls") or P[0] in self.callables):
            return self.const(True)
        if nm == "builtins.callable" and len(P) == 1 and P[0].op == "const":
            return self.const(False)
        if nm == "builtins.len" and len(P) == 1:
            b = self.cur(P[0], st)
            n = self.seq_len(b)
            if n is None and b.root.op == "dict":
                items, unk = self.dict_items(b, st)
                n = len(items) if unk is None else None
            return self.const(n) if n is not None else None
        if nm in ("builtins.max", "builtins.min") and P and set(kw) <= {"default"}:
            el = self.known_elems(P[0], st) if len(P) == 1 else P
            if el is not None and all(x.op == "const" and type(x.val) in (int, float) for x in el):
                f = max if nm.endswith("max") else min
                if el:
                    return self.const(f(x.val for x in el))
                if kw:
                    return kw["default"]
        if nm in ("builtins.list", "builtins.tuple") and len(P) <= 1 and not kw:
            if not P:
                return self.mk("list" if nm.endswith("list") else "tuple", (), site=self.site(e, fr))
            el = self.known_elems(P[0], st)
            if el is not None:
                return self.mk("list" if nm.endswith("list") else "tuple", el, site=self.site(e, fr))
            if self.cur(P[0], st).op in ("gen",):
                return self.mk("comp", (self.elem(P[0], fr, st, e),), val="list", site=self.site(e, fr))
            return None
        if nm == "itertools.chain.from_iterable" and len(P) == 1:
            el = self.known_elems(P[0], st)
            if el is not None:
                out = []
                for x in el:
                    y = self.known_elems(x, st)
                    if y is None:
                        return None
                    out.extend(y)
                return self.mk("list", out, site=self.site(e, fr))
            return None
        if nm == "builtins.dict":
            if not P:
                items = list(kw.items())
                if kwstar is not None:
                    items.append(("**", kwstar))
                return self.mk("dict", tuple(v for _, v in items), val=items, site=self.site(e, fr))
            items, unk = self.dict_items(P[0], st)
            if unk is None:
                it = list(items.items()) + list(kw.items())
                return self.mk("dict", tuple(v for _, v in it), val=it, site=self.site(e, fr))
            return None
        if nm == "builtins.next" and P:
            g = self.cur(P[0], st)
            if g.op == "gen":
                return self.elem(g, fr, st, e)
            if g.op == "call" and g.args[0].op == "ext" and g.args[0].val == "builtins.iter":
                return self.elem(g.args[1], fr, st, e)
            return self.mk("elem", (g,), site=self.site(e, fr))
        if nm == "functools.partial" and P and P[0].op in ("func", "cls"):
            n = self.mk("partial", P, kw, site=self.site(e, fr))
            return n
        if nm == "builtins.type" and len(P) == 1 and P[0].op == "inst":
            return self.lift(P[0].val.cls, st)
        if nm == "builtins.map" and len(P) == 2 and P[0].op == "func":
            el = self.known_elems(P[1], st)
            if el is not None:
                return self.mk("list", [self.call(P[0], [x], {}, None, fr, st, e) for x in el], site=self.site(e, fr))
            x = self.elem(P[1], fr, st, e)
            return self.mk("comp", (self.call(P[0], [x], {}, None, fr, st, e), P[1]), val="list", site=self.site(e, fr))
        return None

    def isinstance_(self, x, c, st):
        if c.op == "tuple":
            rs = [self.isinstance_(x, k, st) for k in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == "phi":
            return None
        cn = c.val if c.op == "ext" else (c.val.name if c.op == "cls" else None)
        if x.op == "inst":
            if c.op == "cls":
                return c.val in x.val.cls.mro
            if c.op == "ext":
                tails = [b if isinstance(b, str) else "" for b in x.val.cls.mro]
                if any(t.split(".")[-1] == c.val.split(".")[-1] for t in tails):
                    return True
                if not x.val.cls.ext_bases() or c.val.startswith("builtins.") or c.val == "numpy.ndarray" or c.val in self.foreign:
                    return False
            return None
        if x.op == "const":
            if c.op == "ext" and c.val.startswith("builtins."):
                t = getattr(__import__("builtins"), c.val.split(".")[1], None)
                if isinstance(t, type):
                    return isinstance(x.val, t)
            if c.op == "cls":
                return False
            if c.op == "ext" and c.val in ("numpy.ndarray", "numbers.Real", "numbers.Integral", "numbers.Number"):
                import numbers

                if c.val == "numpy.ndarray":
                    return False
                return isinstance(x.val, getattr(numbers, c.val.split(".")[1]))
            return None
        if x.op in ("tuple", "list", "dict") and c.op in ("ext", "cls"):
            if c.op == "ext" and c.val == "builtins." + x.op:
                return True
            if c.op == "cls" or c.val in ("numpy.ndarray", "builtins.str", "builtins.tuple", "builtins.list", "builtins.dict", "builtins.int", "builtins.float"):
                return False
            return None
        if x.op == "param" and (x.extra or {}).get("array"):
            if c.op == "cls":
                return False
            if cn in ("builtins.str", "builtins.tuple", "builtins.list", "builtins.dict", "builtins.int", "builtins.float"):
                return False
            if cn == "numpy.ndarray":
                return True
        if x.op == "param" and (x.extra or {}).get("type"):
            t = x.extra["type"]
            if cn is not None:
                if cn.split(".")[-1] == t:
                    return True
                if (x.extra or {}).get("exact"):
                    return False
        return None

    # other expressions -------------------------------------------------------
    def e_Subscript(self, e, fr, st):
        b = self.cur(self.ev(e.value, fr, st), st)
        i = self.ev(e.slice, fr, st)
        return self.subscript(b, i, fr, st, e)

    def subscript(self, b, i, fr, st, e):
        if self.spelled and i.op == "const" and isinstance(i.val, str) and b.root.extra and "missing" in b.root.extra:
            items, unk = self.dict_items(b, st)
            if unk is None and i.val not in items:
                return b.root.extra["missing"]
        if self.foreign and b.op == "inst" and b.val.cls.find("__getitem__") is not None:
            r, _ = self.inline(FuncRef(b.val.cls.find("__getitem__"), b), [i], {}, None, st, fr, e)
            return r
        if i.op == "const":
            if b.op in ("tuple", "list") and isinstance(i.val, int) and not isinstance(i.val, bool) and -len(b.args) <= i.val < len(b.args):
                return self.cur(b.args[i.val], st)
            if b.op == "dict" or (b.op == "update" and isinstance(i.val, str)):
                items, unk = self.dict_items(b, st)
                if i.val in items:
                    return self.cur(items[i.val], st)
            if b.op == "dict":
                for k, v in b.val:
                    if isinstance(k, Node) and k.op == "const" and k.val == i.val:
                        return self.cur(v, st)
            if isinstance(i.val, int) and not isinstance(i.val, bool):
                v = self.seq_get(b, i.val)
                if v is not None:
                    return v
        if i.op == "slice" and b.op in ("tuple", "list"):
            lo, hi, stp = i.args
            if all(x.op == "const" for x in i.args):
                try:
                    return self.mk(b.op, b.args[slice(lo.val, hi.val, stp.val)], site=self.site(e, fr))
                except TypeError:
                    pass
        if i.op == "dkey" and i.args[0].root is b.root and (i.args[0] is b or i.args[0].op in ("phi", "loop", "update") or b.op in ("phi", "loop", "update")):
            # d[k] for a key k of d
            v = self.dvals.get((i.id, b.id))
            if v is None:
                v = self.dvals[(i.id, b.id)] = self.mk("dval", (b,), site=self.site(e, fr))
            return v
        n = self.mk("sub", (b, i), site=self.site(e, fr))
        n.guards = st.guards
        self.emit("sub", e, fr, st, base=b, index=i, node=n)
        return n

    def seq_len(self, b, depth=0):
        if depth > 40:
            return None
        if b.op in ("tuple", "list"):
            return len(b.args)
        if b.op == "update" and b.val == "setitem":
            return self.seq_len(b.args[0], depth + 1)
        if b.op == "phi":
            rs = {self.seq_len(x, depth + 1) for x in b.args}
            if len(rs) == 1:
                return rs.pop()
        return None

    def const_ints(self, k):
        """The integers an index may be (None aside), or None when not known."""
        if k is None:
            return None
        if k.op == "const":
            if k.val is None:
                return set()
            return {k.val} if isinstance(k.val, int) and not isinstance(k.val, bool) else None
        if k.op == "phi":
            out = set()
            for a in k.args:
                r = self.const_ints(a)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def seq_get(self, b, i, depth=0):
        """Element i of a list known up to stores at constant positions."""
        n = self.seq_len(b)
        if n is None or not -n <= i < n:
            return None
        i %= n
        if b.op == "update" and depth < 24:
            k = b.args[1]
            ks = self.const_ints(k)
            if ks is not None and i not in {q % n for q in ks}:
                return self.seq_get(b.args[0], i, depth + 1)
            if ks is not None and len(ks) == 1 and k.op == "const":
                return b.args[2]
            # maybe overwritten
            v = self.seq_get(b.args[0], i, depth + 1)
            return self.join_nodes(v, b.args[2]) if v is not None else None
        if b.op in ("tuple", "list"):
            return b.args[i]
        if b.op == "phi" and depth < 12:
            r = None
            for x in b.args:
                v = self.seq_get(x, i, depth + 1)
                if v is None:
                    return None
                r = v if r is None else self.join_nodes(r, v)
            return r
        return None

    def e_Slice(self, e, fr, st):
        f = lambda x: self.ev(x, fr, st) if x is not None else self.const(None)
        return self.mk("slice", (f(e.lower), f(e.upper), f(e.step)))

    def e_Tuple(self, e, fr, st):
        return self.seq("tuple", e, fr, st)

    def e_List(self, e, fr, st):
        return self.seq("list", e, fr, st)

    def e_Set(self, e, fr, st):
        return self.seq("set", e, fr, st)

    def seq(self, op, e, fr, st):
        out, unk = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr, st)
                el = self.known_elems(v, st)
                if el is None:
                    out.append(self.mk("star", (v,)))
                    unk = True
                else:
                    out.extend(el)
            else:
                out.append(self.ev(x, fr, st))
        if unk:
            return self.mk("useq", out, val=op, site=self.site(e, fr))
        return self.mk(op, out, site=self.site(e, fr))

    def e_Dict(self, e, fr, st):
        items = []
        for k, v in zip(e.keys, e.values):
            vn = self.ev(v, fr, st)
            if k is None:
                known, unk = self.dict_items(vn, st) if self.relay else ({}, 1)
                if unk is None:
                    items = [(a, b) for a, b in items if a not in known] + list(known.items())
                else:
                    items.append(("**", vn))
            else:
                kn = self.ev(k, fr, st)
                items.append((kn.val if kn.op == "const" and isinstance(kn.val, str) else kn, vn))
        return self.mk("dict", tuple(v for _, v in items), val=items, site=self.site(e, fr))

    def e_BinOp(self, e, fr, st):
        l, r = self.ev(e.left, fr, st), self.ev(e.right, fr, st)
        op = type(e.op).__name__
        if l.op == "const" and r.op == "const":
            try:
                v = {"Add": lambda: l.val + r.val, "Sub": lambda: l.val - r.val, "Mult": lambda: l.val * r.val, "Div": lambda: l.val / r.val, "Mod": lambda: l.val % r.val, "FloorDiv": lambda: l.val // r.val}[op]()
                return self.const(v)
            except Exception:
                pass
        if op == "Add" and l.op == r.op and l.op in ("tuple", "list"):
            return self.mk(l.op, l.args + r.args, site=self.site(e, fr))
        if op == "Mult":
            for a, b in ((l, r), (r, l)):
                if a.op in ("tuple", "list") and b.op == "const" and type(b.val) is int and b.val * len(a.args) <= UNROLL:
                    return self.mk(a.op, a.args * max(b.val, 0), site=self.site(e, fr))
        n = self.mk("bin", (l, r), val=op, site=self.site(e, fr))
        n.guards = st.guards
        self.emit("bin", e, fr, st, node=n)
        return n

    def e_UnaryOp(self, e, fr, st):
        x = self.ev(e.operand, fr, st)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(x, st)
            if t is not None:
                return self.const(not t)
        if x.op == "const" and isinstance(x.val, (int, float)) and op in ("USub", "UAdd"):
            return self.const(-x.val if op == "USub" else x.val)
        return self.mk("unary", (x,), val=op, site=self.site(e, fr))

    def e_BoolOp(self, e, fr, st):
        op = type(e.op).__name__
        vals = []
        s2 = st
        for v in e.values:
            n = self.ev(v, fr, s2)
            t = self.truth(n, s2)
            if op == "And":
                if t is False:
                    if not vals:
                        return n
                    # unknown and False
                    return self.const(False) if n.op == "const" and n.val is False else self.mk("bool", vals + [n], val=op, site=self.site(e, fr))
                if t is True and v is not e.values[-1]:
                    continue
                if t is True and n.op == "const" and vals:
                    continue
                vals.append(n)
                s2 = s2.copy()
                self.assume(v, n, True, fr, s2)
            else:
                if t is True:
                    if not vals:
                        return n
                    vals.append(n)
                    return self.const(True) if n.op == "const" and n.val is True else self.mk("bool", vals, val=op, site=self.site(e, fr))
                if t is False and v is not e.values[-1]:
                    continue
                if t is False and n.op == "const" and vals and (n.val is False):
                    continue
                vals.append(n)
                s2 = s2.copy()
                self.assume(v, n, False, fr, s2)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return self.const(op == "And")
        return self.mk("bool", vals, val=op, site=self.site(e, fr))

    def e_Compare(self, e, fr, st):
        l = self.ev(e.left, fr, st)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, fr, st)
            out.append(self.compare(type(op).__name__, l, r, fr, st, e))
            l = r
        if len(out) == 1:
            return out[0]
        return self.mk("bool", out, val="And", site=self.site(e, fr))

    def compare(self, op, l, r, fr, st, e):
        if op in ("Is", "IsNot") and r.op == "const" and r.val is None:
            t = self.is_none(l, st)
            if t is not None:
                return self.const(t if op == "Is" else not t)
        if l.op == "const" and r.op == "const":
            try:
                v = {
                    "Eq": lambda: l.val == r.val, "NotEq": lambda: l.val != r.val, "Lt": lambda: l.val < r.val,
                    "LtE": lambda: l.val <= r.val, "Gt": lambda: l.val > r.val, "GtE": lambda: l.val >= r.val,
                    "In": lambda: l.val in r.val, "NotIn": lambda: l.val not in r.val,
                    "Is": lambda: l.val is r.val, "IsNot": lambda: l.val is not r.val,
                }[op]()
                return self.const(v)
            except Exception:
                pass
        if op in ("In", "NotIn") and l.op == "const" and r.op in ("tuple", "list", "set") and all(x.op == "const" for x in r.args):
            v = any(x.val == l.val for x in r.args)
            return self.const(v if op == "In" else not v)
        if op in ("In", "NotIn") and l.op == "const":
            b = self.cur(r, st)
            if self.base_of(b).op == "dict" and not self.relay:
                items, unk = self.dict_items(b, st)
                if l.val in items:
                    return self.const(op == "In")
                if unk is None:
                    return self.const(op != "In")
        if l.op == "const" and r.op != "const" and op in FLIP:
            l, r, op = r, l, FLIP[op]
        n = self.mk("cmp", (l, r), val=op, site=self.site(e, fr))
        self.emit("cmp", e, fr, st, node=n)
        return n

    def is_none(self, n, st, top=True):
        if top:
            n = self.cur(n, st)
        if n.op == "const":
            return n.val is None
        if n.root.id in st.nonnull:
            return False
        if n.op in ("tuple", "list", "dict", "set", "inst", "cls", "func", "bin", "cmp", "comp", "update", "useq", "gen", "mod", "aug", "partial"):
            return False
        if n.op == "param" and (n.extra or {}).get("nonnull"):
            return False
        if n.op == "phi":
            rs = {self.is_none(x, st, False) for x in n.args}
            if rs == {True}:
                return True
            if rs == {False}:
                return False
        if n.op == "call" and n.args[0].op == "ext":
            v = n.args[0].val
            if v.startswith("numpy.") or v.startswith("torch.") or v.split(".")[-1] in ("check_array", "clone", "check_random_state") or v[:1] == "sklearn" and v.split(".")[-1][:1].isupper():
                return False
        if n.op == "call" and n.args[0].op == "attr" and n.args[0].val in ("astype", "copy", "reshape", "sum", "mean", "items", "keys", "values", "split", "max", "min", "flatten", "ravel", "numpy", "dot"):
            return False
        if n.op == "sub" and n.args[1].op in ("cmp", "unary", "slice", "call", "bin"):
            return False
        return None

    def truth(self, n, st, top=True):
        if top:
            n = self.cur(n, st)
        if n.op == "const":
            return bool(n.val)
        if n.op in ("tuple", "list", "set"):
            return bool(n.args)
        if n.op in ("func", "cls", "mod"):
            return True
        if n.op == "phi":
            rs = {self.truth(x, st, False) for x in n.args}
            if len(rs) == 1:
                return rs.pop()
        return None

    def e_IfExp(self, e, fr, st):
        c = self.ev(e.test, fr, st)
        test, body, orelse = e.test, e.body, e.orelse
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) and c.op == "unary" and c.val == "Not":
            test, c, body, orelse = test.operand, c.args[0], orelse, body
        t = self.truth(c, st)
        if t is True:
            return self.ev(body, fr, st)
        if t is False:
            return self.ev(orelse, fr, st)
        a, b = st.copy(), st.copy()
        a.guards = st.guards + literals(c, True)
        b.guards = st.guards + literals(c, False)
        self.assume(test, c, True, fr, a)
        self.assume(test, c, False, fr, b)
        x = self.ev(body, fr, a)
        y = self.ev(orelse, fr, b)
        g = st.guards
        if a.dead and b.dead:
            st.dead = a.dead
            return x
        if a.dead:
            self.adopt(st, b)
            return y
        if b.dead:
            self.adopt(st, a)
            return x
        js = self.join_states(a, b, c)
        self.adopt(st, js)
        st.guards = g
        return self.join_nodes(x, y, c, self.site(e, fr))

    def e_Lambda(self, e, fr, st):
        fi = FuncInfo(fr.module, e, parent=fr.fi)
        n = self.mk("func", val=FuncRef(fi, None, fr), site=self.site(e, fr))
        n.val.captured = self.captured(e, fr, st)
        return n

    def captured(self, s, fr, st):
        """Values of the enclosing function's names that a nested function reads, where they
        are known when it is defined (None: bound only later)."""
        out = {}
        own = {a.arg for x in ast.walk(s) if isinstance(x, ast.arguments) for a in x.posonlyargs + x.args + x.kwonlyargs}
        body = s.body if isinstance(s.body, list) else [s.body]
        own |= {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for b in body:
            for x in ast.walk(b):
                if not isinstance(x, ast.Name) or x.id in own or x.id in out:
                    continue
                f = fr
                while f is not None and f.fi is not None:
                    if (f.fid, x.id) in st.env:
                        out[x.id] = self.cur(st.env[(f.fid, x.id)], st)
                        break
                    n = f.fi.node
                    if not isinstance(n, ast.Lambda) and any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for y in ast.walk(n)):
                        out[x.id] = None
                        break
                    f = f.parent
        return out

    def comp(self, e, kind, fr, st):
        """Comprehension: unrolled over known elements, else one abstract element."""
        self.fid += 1
        cf = Frame(FuncInfo(fr.module, ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(None)), parent=fr.fi), fr.module, self.fid, fr, fr.depth)
        cf.self_node = fr.self_node
        cf.cls = fr.cls
        if fr.fi is not None:
            cf.fi.qual = fr.fi.qual
        gens = e.generators
        results = []
        exact = [True]
        whole = [True]
        iters = []
        conds = []
        g0 = st.guards

        def rec(i, st):
            if i == len(gens):
                if kind == "dict":
                    results.append((self.ev(e.key, cf, st), self.ev(e.value, cf, st)))
                else:
                    results.append(self.ev(e.elt, cf, st))
                conds.append(tuple(g for g in st.guards[len(g0):] if g[0].op != "iter"))
                return
            g = gens[i]
            it = self.ev(g.iter, cf if i else fr, st)
            iters.append(it)
            el = self.known_elems(it, st)
            if el is None or len(el) > UNROLL:
                exact[0] = whole[0] = False
                el = [self.elem(it, cf, st, e)]
            for x in el:
                self.assign(g.target, x, cf, st, e)
                skip = False
                s2 = st
                for cnd in g.ifs:
                    c = self.ev(cnd, cf, s2)
                    t = self.truth(c, s2)
                    if t is False:
                        skip = True
                        break
                    if t is None:
                        exact[0] = False
                        s2 = s2.copy() if s2 is st else s2
                        s2.guards = s2.guards + literals(c, True)
                        self.assume(cnd, c, True, cf, s2)
                if not skip:
                    if not exact[0] and s2 is st:
                        s2 = st.copy()
                        s2.guards = g0 + ((self.mk("iter", (it,)), True),)
                    rec(i + 1, s2)

        rec(0, st)
        st.guards = g0
        if kind == "dict" and self.relay and len(results) == 1 and not exact[0] and results[0][1].op == "sub" and results[0][1].args[1] is results[0][0]:
            # some entries of a dictionary
            items, unk = self.dict_items(results[0][1].args[0], st)
            if items and unk is None:
                self.clean(st, cf.fid)
                return self.mk("dict", tuple(items.values()), val=list(items.items()), site=self.site(e, fr))
        if kind == "dict":
            ok = exact[0] and all(k.op == "const" and isinstance(k.val, str) for k, _ in results)
            if ok:
                n = self.mk("dict", tuple(v for _, v in results), val=[(k.val, v) for k, v in results], site=self.site(e, fr))
            elif all(k.op == "const" and isinstance(k.val, str) for k, _ in results) and results:
                # filtered: entries may be missing, values are known
                n = self.mk("dict", tuple(v for _, v in results), val=[(k.val, v) for k, v in results], site=self.site(e, fr))
                n.extra = {"maybe": True}
            else:
                r = results[0] if results else (self.mk("unknown"), self.mk("unknown"))
                n = self.mk("dictcomp", (r[0], r[1]) + tuple(iters), site=self.site(e, fr))
        elif exact[0]:
            n = self.mk("list" if kind != "set" else "set", results, site=self.site(e, fr))
        else:
            r = results[0] if results else self.mk("unknown")
            for x in results[1:]:
                r = self.join_nodes(r, x)
            n = self.mk("comp", (r,) + tuple(iters), val="list" if kind == "gen" else kind, site=self.site(e, fr))
            n.extra = {"conds": conds[0]} if len(conds) == 1 else None
            if whole[0] and kind != "set":
                # a filtered sequence of known elements
                n.extra = {**(n.extra or {}), "parts": list(results)}
        self.clean(st, cf.fid)
        return n

    def e_ListComp(self, e, fr, st):
        return self.comp(e, "list", fr, st)

    def e_GeneratorExp(self, e, fr, st):
        return self.comp(e, "gen", fr, st)

    def e_SetComp(self, e, fr, st):
        return self.comp(e, "set", fr, st)

    def e_DictComp(self, e, fr, st):
        return self.comp(e, "dict", fr, st)

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.ev(v.value, fr, st))
        if all(p.op == "const" and type(p.val) in (int, str) for p in parts) and all(not isinstance(v, ast.FormattedValue) or (v.conversion == -1 and v.format_spec is None) for v in e.values):
            it = iter(parts)
            return self.const("".join(str(next(it).val) if isinstance(v, ast.FormattedValue) else v.value for v in e.values))
        return self.mk("fstr", parts, site=self.site(e, fr))

    def e_Starred(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        self.assign(e.target, v, fr, st, e)
        return v

    def e_Await(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def e_Yield(self, e, fr, st):
        v = self.ev(e.value, fr, st) if e.value is not None else self.const(None)
        fr.yields.append(v)
        fr.ysure.append(st.guards)
        self.emit("yield", e, fr, st, node=v, name=fr.fi.full if fr.fi else None)
        return self.mk("unknown")

    def e_YieldFrom(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        el = self.known_elems(v, st)
        if el is not None:
            for x in el:
                fr.yields.append(x)
                fr.ysure.append(st.guards)
            return self.mk("unknown")
        x = self.elem(v, fr, st, e)
        fr.yields.append(x)
        fr.ysure.append(None)
        self.emit("yield", e, fr, st, node=x, base=v, name=fr.fi.full if fr.fi else None)
        return self.mk("unknown")

    # ---------------------------------------------------------------- keys
    def key(self, n, depth=150):
        """Structural key: two nodes with equal keys denote equal values."""
        if n._key is not None:
            return n._key
        if depth <= 0:
            return ("#", n.id)
        if n.op == "const":
            n._key = self._mkkey(n, depth)
            return n._key
        # interned, so that comparing keys does not walk through them
        n._key = self._keys.setdefault(self._mkkey(n, depth), len(self._keys))
        return n._key

    def _mkkey(self, n, depth):
        d = depth - 1
        op = n.op
        if op == "const":
            return ("c", type(n.val).__name__, repr(n.val))
        if op == "param":
            return ("p", n.id)
        if op == "ext":
            return ("e", n.val)
        if op == "attr0":
            return ("a0", id((n.extra or {}).get("obj")), n.val)
        if op in ("inst", "loop", "unknown", "gen", "never", "unbound", "missing", "comp", "index", "exc"):
            return ("#", n.id)
        if op == "call" and n.args[0].op in ("attr", "ext") and (n.args[0].val or "").split(".")[-1] in STATEFUL:
            return ("#", n.id)
        if op == "cls":
            return ("cls", n.val.full)
        if op == "mod":
            return ("mod", n.val.name)
        if op == "func":
            return ("f", n.val.fi.full, self.key(n.val.self_node, d) if n.val.self_node is not None else None)
        if op in ("elem", "dval", "dkey") and n.site is not None:
            return (op, self.key(n.args[0], d), n.site.line, n.site.func, n.val, n.id)
        v = n.val
        if op == "dict":
            v = tuple((k if isinstance(k, str) else self.key(k, d)) for k, _ in n.val)
        elif op == "phi":
            v = self.key(n.val, d) if isinstance(n.val, Node) else None
        elif op == "super":
            v = None
        kws = tuple(sorted((k, self.key(x, d)) for k, x in n.kw.items())) if n.kw else ()
        return (op, v if not isinstance(v, (list, dict)) else None, tuple(self.key(x, d) if x is not None else None for x in n.args), kws)


# calls that give another value each time
STATEFUL = {
    "next", "permutation", "permuted", "choice", "rand", "randn", "random", "random_sample", "normal", "uniform", "integers", "randint", "multivariate_normal", "standard_normal",
    "beta", "gamma", "train_test_split", "randperm", "rand_like", "randn_like", "popitem",
}


def _tailname(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)


def _is_stub(fi):
    b = fi.node.body
    for s in b:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        return False
    return True


_CANON = {"np": "numpy"}


def canon(d):
    if d.startswith("sklearn.utils.validation.check_is_fitted"):
        return "sklearn.utils.validation.check_is_fitted"
    return d


def flat_alts(n):
    """Alternatives of a (nested) join."""
    out, stack, seen = [], [n], set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "phi":
            stack.extend(x.args)
        else:
            out.append(x)
    return out


# -------------------------------------------------------------------- helpers for rules
def callee_name(n):
    """Dotted/external or project name of a call node's callee, or '.method'."""
    if n.op != "call":
        return None
    c = n.args[0]
    if c.op == "ext":
        return c.val
    if c.op == "func":
        return c.val.fi.full
    if c.op == "cls":
        return c.val.full
    if c.op == "attr":
        return "." + c.val
    return None


def walk(n, seen=None):
    """All nodes reachable from n (through arguments), each once."""
    seen = set() if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x is None or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(a for a in x.args if isinstance(a, Node))
        stack.extend(x.kw.values())
        if x.op == "func" and x.val.self_node is not None:
            stack.append(x.val.self_node)
