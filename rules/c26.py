"""Reports of iterative solvers.  A solver loop is a loop that may end on a comparison with a
tolerance.  A typestate analysis over the statements of its function (states: first / last
iteration, outcome of the last evaluation of the criterion, flags, reports made; joined as
sets, loops to a fixed point) decides with which reports each exit is reached: every exit
of an exhausted loop whose criterion was not met must carry a report that no exit after the
criterion was met carries.  A criterion may not hold whatever the values (a signed change,
a quotient by a negative start value).  A warning about the result of an external optimiser
must be issued under the negation of its success."""

import ast

from sa.norm import Norm
from sa.scenario import Run
from sa.vf import callee_name
from sa.vf import walk as nodes

TECHNIQUE = "static typestate analysis of the solver loops (sets of abstract states to a fixed point) and guard analysis of the warnings about external optimisers"
ASSUMPTIONS = ["the criterion of a solver is its comparison with a tolerance (tol)", "torch's LBFGS leaves the gradient at its solution"]

MAXSTATES = 4000


def istol(name):
    return name in ("tol", "atol", "rtol", "tolerance") or name.endswith("_tol") or name.startswith("tol_")


def dump(e):
    return ast.unparse(e)


def roots(e):
    """Names and attributes of self an expression reads."""
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            out.add("self." + n.attr)
    return out


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out |= roots(n) - {"self"}
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                out |= roots(n.value) - {"self"}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "clear", "add_", "mul_", "copy_"):
                out |= roots(n.func.value) - {"self"}
    return out


class Fn:
    """The function of a loop: resolution of helpers and tolerance names."""

    def __init__(self, f, p):
        self.f, self.p = f, p
        self.node = Norm(f, p).run()
        self.tols = {a for a in f.all_params if istol(a)}
        for _ in range(3):
            for n in ast.walk(self.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.tolexpr(n.value):
                    self.tols.add(n.targets[0].id)

    def tolexpr(self, e):
        """An expression that is a tolerance (scaled or not)."""
        if isinstance(e, ast.Name):
            return e.id in self.tols
        if isinstance(e, ast.Attribute):
            return istol(e.attr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "float" and e.args:
            return self.tolexpr(e.args[0])
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.Pow, ast.Add)):
            return self.tolexpr(e.left) or isinstance(e.op, (ast.Mult, ast.Add)) and self.tolexpr(e.right)
        return False

    def helper(self, call):
        """The project function a call denotes."""
        fn = call.func
        if isinstance(fn, ast.Name):
            for n in ast.walk(self.node):
                if isinstance(n, ast.FunctionDef) and n is not self.node and n.name == fn.id:
                    return n
            g = self.f.module.functions.get(fn.id)
            return g.node if g is not None else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and self.f.cls is not None:
            g = self.f.cls.find(fn.attr)
            return getattr(g, "node", None)
        return None

    def bind(self, call, node):
        """Parameter -> argument expression, or None."""
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        if ps and ps[0] in ("self", "cls") and isinstance(call.func, ast.Attribute):
            ps = ps[1:]
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(ps):
            return None
        m = dict(zip(ps, call.args))
        m.update({k.arg: k.value for k in call.keywords})
        ds = node.args.defaults
        for a, d in zip(ps[len(ps) - len(ds):], ds):
            m.setdefault(a, d)
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                m.setdefault(a.arg, d)
        return m

    def inline(self, e):
        """The expression with helpers of one return expression put in."""
        fn = self

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                h = fn.helper(n)
                if h is None or not isinstance(h, ast.FunctionDef):
                    return n
                body = [s for s in h.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
                    return n
                m = fn.bind(n, h)
                if m is None:
                    return n
                return Sub(m).visit(copy(body[0].value))

        return T().visit(copy(e))

    def atom(self, e):
        """(value expression, met when true) of a comparison with a tolerance."""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, o, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                less = isinstance(o, (ast.Lt, ast.LtE))
                if self.tolexpr(r) and not self.tolexpr(l):
                    return l, less
                if self.tolexpr(l) and not self.tolexpr(r):
                    return r, not less
        if isinstance(e, ast.Compare) and len(e.ops) == 2 and all(isinstance(o, (ast.Lt, ast.LtE)) for o in e.ops) and self.tolexpr(e.comparators[1]):
            return e, True
        if isinstance(e, ast.Call) and dump(e.func).split(".")[-1] in ("isclose", "allclose") and any(self.tolexpr(k.value) for k in e.keywords):
            return e, True
        return None

    def criteria(self, e):
        return [a for n in ast.walk(e) if isinstance(n, (ast.Compare, ast.Call)) for a in [self.atom(n)] if a]


def copy(e):
    return ast.parse(ast.unparse(e), mode="eval").body


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return copy(self.m[n.id]) if n.id in self.m and isinstance(n.ctx, ast.Load) else n


class Abort(Exception):
    pass


class S:
    """flags: known boolean values; memo: truth of expressions; pos: (first, last) or None;
    met: outcome of the criterion in the current iteration; how: how the loop was left."""

    __slots__ = ("flags", "memo", "pos", "met", "how", "rep")

    def __init__(self, flags=(), memo=(), pos=None, met=None, how=None, rep=frozenset()):
        self.flags, self.memo, self.pos, self.met, self.how, self.rep = dict(flags), dict(memo), pos, met, how, rep

    def copy(self, **kw):
        s = S(self.flags, self.memo, self.pos, self.met, self.how, self.rep)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def key(self):
        return (tuple(sorted(self.flags.items(), key=str)), tuple(sorted(self.memo.items())), self.pos, self.met, self.how, tuple(sorted(self.rep)))

    def kill(self, names):
        if not names:
            return self
        s = self.copy()
        s.flags = {k: v for k, v in s.flags.items() if k not in names}
        s.memo = {k: v for k, v in s.memo.items() if not (set(k[1]) & names)}
        return s


class Flow:
    def __init__(self, fn, loop):
        self.fn, self.loop = fn, loop
        self.var = self.limit = None
        self.start = 0
        self.budget = 200_000
        self.used = set()
        if isinstance(loop, ast.For) and isinstance(loop.target, ast.Name):
            it = loop.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords and len(it.args) in (1, 2):
                self.var = loop.target.id
                self.stop = it.args[-1]
                if len(it.args) == 2:
                    self.start = it.args[0].value if isinstance(it.args[0], ast.Constant) else None

    # -- expressions
    def lin(self, e):
        """(symbol, offset): symbol None for a constant."""
        if isinstance(e, ast.Constant) and isinstance(e.value, int):
            return None, e.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.lin(e.left), self.lin(e.right)
            if a and b:
                if b[0] is None:
                    return a[0], a[1] + (b[1] if isinstance(e.op, ast.Add) else -b[1])
                if a[0] is None and isinstance(e.op, ast.Add):
                    return b[0], a[1] + b[1]
            return None
        return dump(e), 0

    def counter(self, e, s):
        """Truth of a comparison of the loop counter, a set of booleans, or None."""
        if self.var is None or s.pos is None or not (isinstance(e, ast.Compare) and len(e.ops) == 1):
            return None
        a, b = self.lin(e.left), self.lin(e.comparators[0])
        if not a or not b:
            return None
        o = e.ops[0]
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        o = type(o)
        if b[0] == self.var and a[0] != self.var:
            a, b, o = b, a, flip.get(o, o)
        if a[0] != self.var:
            return None
        if b[0] is None:
            if self.start is None:
                return None
            lo = self.start + a[1] - b[1]
            rng = (lo, lo) if s.pos[0] else (lo + 1, None)
        else:
            st = self.lin(self.stop)
            if st is None or st[0] != b[0]:
                return None
            hi = st[1] - 1 + a[1] - b[1]
            rng = (hi, hi) if s.pos[1] else (None, hi - 1)
        return truth(o, rng)

    def cond(self, e, s):
        """[(bool, state)]"""
        self.budget -= 1
        if self.budget < 0:
            raise Abort
        if isinstance(e, ast.Constant):
            return [(bool(e.value), s)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, t) for b, t in self.cond(e.operand, s)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            cur, out = [s], []
            for v in e.values:
                nxt = []
                for t in cur:
                    for b, u in self.cond(v, t):
                        (out.append((b, u)) if b == stop else nxt.append(u))
                cur = nxt
            return out + [(not stop, t) for t in cur]
        if isinstance(e, ast.Call) and not self.fn.atom(e):
            e2 = self.fn.inline(e)
            if dump(e2) != dump(e):
                return self.cond(e2, s)
            if dump(e.func) in ("bool", "np.any", "np.all") and len(e.args) == 1:
                return self.cond(e.args[0], s)
        if isinstance(e, ast.NamedExpr):
            out = []
            for b, t in self.cond(e.value, s):
                t = t.kill({e.target.id})
                t = t.copy()
                t.flags[e.target.id] = b
                out.append((b, t))
            return out
        d = dump(e)
        if d in s.flags:
            return [(bool(s.flags[d]), s)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and dump(e.left) in s.flags and isinstance(e.comparators[0], ast.Constant):
            v = s.flags[dump(e.left)] == e.comparators[0].value
            return [(v == isinstance(e.ops[0], (ast.Is, ast.Eq)), s)]
        c = self.counter(e, s)
        if c is not None:
            return [(b, s) for b in sorted(c)]
        at = self.fn.atom(e)
        if at:
            k = ("crit:" + dump(at[0]), tuple(sorted(roots(at[0]))))
            if k in s.memo:
                return [(s.memo[k] == at[1], s)]
            out = []
            for met in (True, False):
                t = s.copy()
                t.memo[k] = met
                if t.pos is not None and t.how is None or self.inwhile(t):
                    t.met = bool(t.met) or met
                elif met:
                    t.met = True
                out.append((met == at[1], t))
            return out
        pol = True
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            # one atom for a comparison and its negation
            neg = {ast.NotEq: ast.Eq, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.IsNot: ast.Is, ast.NotIn: ast.In}
            if type(e.ops[0]) in neg:
                d = dump(ast.Compare(e.left, [neg[type(e.ops[0])]()], e.comparators))
                pol = False
        k = (d, tuple(sorted(roots(e))))
        if k in s.memo:
            return [(s.memo[k] == pol, s)]
        out = []
        for v in (True, False):
            t = s.copy()
            t.memo[k] = v == pol
            out.append((v, t))
        return out

    def inwhile(self, s):
        return isinstance(self.loop, ast.While) and s.how is None

    # -- statements
    def relevant(self, stmts):
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Raise)) or n is self.loop:
                    return True
                if isinstance(n, ast.Call) and self.report(n):
                    return True
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in self.used:
                    return True
        return False

    def report(self, call):
        nm = dump(call.func)
        return nm.split(".")[-1] in ("warn", "warning")

    def run(self):
        body = self.fn.node.body
        # boolean locals: assigned constants or conditions, and read
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
                v = n.value
                if isinstance(v, ast.Constant) and isinstance(v.value, bool) or isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or self.fn.criteria(self.fn.inline(v)):
                    self.used.add(dump(n.targets[0]))
        ends = []
        for o, s in self.block(body, [S()]):
            ends.append((o, s))
        return ends

    def block(self, stmts, states):
        """[(outcome, state)] with outcome normal / break / continue / (return, expr) / raise."""
        cur, out = list(states), []
        for st in stmts:
            nxt = {}
            for s in cur:
                for o, t in self.stmt(st, s):
                    if o == "normal":
                        nxt[t.key()] = t
                    else:
                        out.append((o, t))
            cur = list(nxt.values())
            if len(cur) > MAXSTATES:
                raise Abort
            if not cur:
                break
        return out + [("normal", s) for s in cur]

    def stmt(self, st, s):
        self.budget -= 1
        if self.budget < 0:
            raise Abort
        if isinstance(st, ast.If):
            if not self.relevant([st]):
                return [("normal", s.kill(assigned([st])))]
            out = []
            for b, t in self.cond(st.test, s):
                out += self.block(st.body if b else st.orelse, [t])
            return out
        if st is self.loop:
            return self.solver(st, s)
        if isinstance(st, (ast.For, ast.While)):
            return self.inner(st, s)
        if isinstance(st, ast.Break):
            return [("break", s)]
        if isinstance(st, ast.Continue):
            return [("continue", s)]
        if isinstance(st, ast.Return):
            return [(("return", st), s)]
        if isinstance(st, ast.Raise):
            return [("raise", s.copy(rep=s.rep | {("raise", st.lineno)}))]
        if isinstance(st, ast.With):
            return self.block(st.body, [s])
        if isinstance(st, ast.Try):
            out = self.block(st.body, [s])
            for h in st.handlers:
                out += self.block(h.body, [s.kill(assigned(st.body))])
            res = []
            for o, t in out:
                if o == "normal" and st.orelse:
                    res += self.block(st.orelse, [t])
                else:
                    res.append((o, t))
            if not st.finalbody:
                return res
            fin = []
            for o, t in res:
                fin += [(o if o2 == "normal" else o2, u) for o2, u in self.block(st.finalbody, [t])]
            return fin
        if isinstance(st, ast.Match):
            if self.relevant([st]):
                out = []
                for c in st.cases:
                    out += self.block(c.body, [s])
                return out + [("normal", s)]
            return [("normal", s.kill(assigned([st])))]
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return [("normal", s)]
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if len(ts) == 1 and isinstance(ts[0], (ast.Name, ast.Attribute)) and dump(ts[0]) in self.used:
                nm = dump(ts[0])
                v = self.fn.inline(st.value)
                if isinstance(v, ast.Constant):
                    t = s.kill({nm}).copy()
                    t.flags[nm] = v.value
                    return [("normal", t)]
                out = []
                for b, t in self.cond(v, s):
                    t = t.kill({nm}).copy()
                    t.flags[nm] = b
                    out.append(("normal", t))
                return out
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and self.report(st.value):
            return [("normal", s.kill(assigned([st])).copy(rep=s.rep | {("warn", st.lineno)}))]
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            c = st.value
            if self.report(c):
                return [("normal", s.copy(rep=s.rep | {("warn", st.lineno)}))]
            h = self.fn.helper(c)
            if h is not None and isinstance(h, ast.FunctionDef) and any(isinstance(n, ast.Call) and self.report(n) for n in ast.walk(h)):
                m = self.fn.bind(c, h)
                if m is not None and not (assigned(h.body) & set(m)):
                    body = [Sub(m).visit(x) for x in ast.parse(ast.unparse(h)).body[0].body]
                    out = []
                    for o, t in self.block(body, [s]):
                        out.append(("normal" if o == "normal" or isinstance(o, tuple) else o, t))
                    return out
        return [("normal", s.kill(assigned([st])))]

    def inner(self, st, s):
        w = assigned([st])
        if not self.relevant([st]):
            return [("normal", s.kill(w))]
        if any(n is self.loop for n in ast.walk(st)):
            # a loop around the solver: each turn is a run of its own
            seen, work, out = {}, [s.kill(w)], []
            fresh = []
            while work:
                t = work.pop()
                if t.key() in seen:
                    continue
                seen[t.key()] = t
                for o, u in self.block(st.body, [t]):
                    if o in ("normal", "continue", "break"):
                        out.append(("normal", u))
                        fresh.append(u)
                    else:
                        out.append((o, u))
            return out or [("normal", s)]
        seen, work, out = {}, [s.kill(w)], []
        while work:
            t = work.pop()
            if t.key() in seen:
                continue
            seen[t.key()] = t
            if len(seen) > MAXSTATES:
                raise Abort
            for o, u in self.block(st.body, [t]):
                if o in ("normal", "continue"):
                    work.append(u.kill(w - self.used))
                elif o == "break":
                    out.append(("normal", u))
                else:
                    out.append((o, u))
        res = [("normal", t) for t in seen.values()]
        if st.orelse:
            res = self.block(st.orelse, [t for _, t in res])
        return res + out

    def solver(self, st, s):
        w = assigned(st.body) - self.used
        out, seen, left = [], {}, []
        if isinstance(st, ast.For):
            s = s.kill({self.var} if self.var else set())
            work = [s.copy(pos=p, met=False) for p in ((True, True), (True, False))]
            while work:
                t = work.pop()
                if t.key() in seen:
                    continue
                seen[t.key()] = t
                if len(seen) > MAXSTATES:
                    raise Abort
                for o, u in self.block(st.body, [t]):
                    if o in ("normal", "continue"):
                        if u.pos[1]:
                            left.append(u.copy(how="exhausted"))
                        else:
                            v = u.kill(w)
                            work += [v.copy(pos=p, met=False) for p in ((False, False), (False, True))]
                    elif o == "break":
                        out.append(("normal", u.copy(how="met" if u.met else "broken")))
                    else:
                        out.append((o, u.copy(how="met" if u.met else "broken") if isinstance(o, tuple) else u))
        else:
            work = [s.copy(met=False)]
            while work:
                t = work.pop()
                if t.key() in seen:
                    continue
                seen[t.key()] = t
                if len(seen) > MAXSTATES:
                    raise Abort
                for b, u in self.cond(st.test, t):
                    if not b:
                        left.append(u.copy(how="met" if u.met else "exhausted"))
                        continue
                    for o, v in self.block(st.body, [u.copy(met=False)]):
                        if o in ("normal", "continue"):
                            work.append(v)
                        elif o == "break":
                            out.append(("normal", v.copy(how="met" if v.met else "broken")))
                        else:
                            out.append((o, v.copy(how="met" if v.met else "broken") if isinstance(o, tuple) else v))
        done = self.block(st.orelse, left) if st.orelse else [("normal", t) for t in left]
        return done + out


def truth(o, rng):
    """Truth values of (d o 0) for d in rng = (lo, hi), None for unbounded."""
    lo, hi = rng
    if o in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
        if lo is not None and lo == hi:
            r = {lo == 0}
        elif lo is not None and lo > 0 or hi is not None and hi < 0:
            r = {False}
        else:
            r = {True, False}
        return r if o in (ast.Eq, ast.Is) else {not x for x in r}
    if o is ast.Gt:
        return {True} if lo is not None and lo > 0 else {False} if hi is not None and hi <= 0 else {True, False}
    if o is ast.GtE:
        return {True} if lo is not None and lo >= 0 else {False} if hi is not None and hi < 0 else {True, False}
    if o is ast.Lt:
        return {not x for x in truth(ast.GtE, rng)}
    if o is ast.LtE:
        return {not x for x in truth(ast.Gt, rng)}
    return None


def returned_flags(o, fn):
    """Names a return statement gives back."""
    if isinstance(o, tuple) and o[1].value is not None:
        v = o[1].value
        es = v.elts if isinstance(v, (ast.Tuple, ast.List)) else v.values if isinstance(v, ast.Dict) else [v]
        return {dump(e): e for e in es}
    return {}


def reports(ctx, con, f, fn, loop):
    site = f"{f.module.rel}:{loop.lineno} ({f.qual})"
    fl = Flow(fn, loop)
    try:
        ends = fl.run()
    except Abort:
        ctx.und("report", con, site, "too many states")
        return
    except RecursionError:
        ctx.und("report", con, site, "recursion")
        return
    ends = [(o, s) for o, s in ends if s.how is not None or o == "raise" and s.pos is not None]
    unmet = [(o, s) for o, s in ends if s.how == "exhausted" and not s.met]
    met = [(o, s) for o, s in ends if s.how == "met" or s.how == "exhausted" and s.met]
    if not unmet:
        ctx.ok("report", con, msg="the loop ends only when its criterion is met") if met else ctx.und("report", con, site, "no exit of the loop was resolved")
        return

    def told(o, s):
        r = set(s.rep)
        for nm, e in returned_flags(o, fn).items():
            if nm in s.flags:
                r.add(("flag", nm, s.flags[nm]))
            else:
                bs = {b for b, _ in fl.cond(e, s)} if fn.criteria(fn.inline(e)) else ()
                if len(bs) == 1:
                    r.add(("flag", nm, next(iter(bs))))
        for nm, v in s.flags.items():
            if nm.startswith("self."):
                r.add(("flag", nm, v))
        return r

    common = None
    for o, s in unmet:
        t = told(o, s)
        common = t if common is None else common & t
    if not common:
        if fl.var and any(fl.var in roots(e) for o, s in unmet for e in returned_flags(o, fn).values()):
            ctx.ok("report", con, msg="the number of iterations is returned")
            return
        ctx.bad("report", con, site, "the loop ends at its maximum without its criterion being met and nothing reports it")
        return
    always = [c for c in common if met and all(c in told(o, s) for o, s in met)]
    good = [c for c in common if not any(c in told(o, s) for o, s in met)]
    if good:
        ctx.ok("report", con)
    elif len(always) == len(common):
        ctx.bad("report", con, site, "the same is reported whether or not the criterion was met")
    else:
        ctx.bad("report", con, site, "the criterion may be met and its failure reported")


def negative(e, fn, before={}, k=0):
    """A definitely negative start value."""
    if isinstance(e, ast.Name) and e.id in before and k < 5:
        return negative(before[e.id], fn, before, k + 1)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return positive(e.operand, fn)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div)):
        return negative(e.left, fn) and positive(e.right, fn) or positive(e.left, fn) and negative(e.right, fn)
    return False


def positive(e, fn):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, float)) and e.value > 0
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.Add)):
        return positive(e.left, fn) and positive(e.right, fn)
    return fn.tolexpr(e) or dump(e) in ("np.inf", "math.inf", "float('inf')", "numpy.inf")


NORMS = {"abs", "absolute", "fabs", "norm", "max", "maximum", "square", "sqrt", "allclose", "isclose", "hypot", "amax", "sum", "mean", "dist", "item", "float"}


def criteria(ctx, con, f, fn, loop):
    """Criteria that hold whatever the values."""
    inside = {}
    for n in ast.walk(loop):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            inside.setdefault(n.targets[0].id, []).append(n.value)
    before = {}
    for n in earlier(fn.node, loop):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            before[n.targets[0].id] = n.value
    for n in ast.walk(loop):
        if not isinstance(n, (ast.Compare, ast.Call)):
            continue
        e = fn.inline(n) if isinstance(n, ast.Call) else n
        for v, _ in fn.criteria(e) if e is not n else [a for a in [fn.atom(n)] if a]:
            site = f"{f.module.rel}:{n.lineno} ({f.qual})"
            v = fn.inline(v)
            for _ in range(3):
                if isinstance(v, ast.Name) and len(inside.get(v.id, ())) == 1:
                    v = fn.inline(inside[v.id][0])
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Sub):
                ctx.bad("criterion", con, site, "the criterion is a signed change: it is met by any change in one direction")
                continue
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Div):
                num, den = v.left, v.right
                if isinstance(num, ast.BinOp) and isinstance(num.op, ast.Sub):
                    ctx.bad("criterion", con, site, "the criterion is a signed change: it is met by any change in one direction")
                    continue
                if isinstance(den, ast.Name) and den.id in before and negative(before[den.id], fn, before) and not guarded(loop, n, den.id):
                    ctx.bad("criterion", con, site, f"the criterion divides by '{den.id}', which starts negative: it is met at the first iteration whatever the values")
                    continue
            ctx.ok("criterion", con)


def earlier(node, loop):
    """Nodes before the loop, in the order of the text."""
    out = []

    class V(ast.NodeVisitor):
        done = False

        def visit(self, n):
            if n is loop:
                self.done = True
            if not self.done:
                out.append(n)
                self.generic_visit(n)

    V().visit(node)
    return out


def guarded(loop, node, name):
    """Is the comparison reached only under a condition on the divisor's sign or the counter?"""
    for n in ast.walk(loop):
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And) and any(x is node for v in n.values for x in ast.walk(v)):
            for v in n.values:
                if not any(x is node for x in ast.walk(v)):
                    return True
        if isinstance(n, ast.If) and any(x is node for s in n.body for x in ast.walk(s)):
            return True
    return False


def breaks(loop):
    """If statements whose branch leaves the loop."""
    out = []

    def rec(stmts):
        for s in stmts:
            if isinstance(s, ast.If):
                for b in (s.body, s.orelse):
                    if any(isinstance(x, (ast.Break, ast.Return)) for x in b):
                        out.append(s.test)
                    rec(b)
            elif isinstance(s, (ast.With, ast.Try)):
                rec(s.body)
    rec(loop.body)
    return out


def solver_loops(fn):
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.For, ast.While)):
            tests = list(breaks(n)) + ([n.test] if isinstance(n, ast.While) else [])
            flags = {x.id for t in tests for x in ast.walk(t) if isinstance(x, ast.Name)}
            vals = list(tests)
            for a in ast.walk(n):
                if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id in flags:
                    vals.append(a.value)
            if any(fn.criteria(fn.inline(t)) for t in vals):
                yield n


# -- external optimisers ---------------------------------------------------------------
def external(ctx, f):
    """Optimisers called in f: judged where f is entered, or where its callers are."""
    if not {"minimize", "LBFGS"} & {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(f.node) if isinstance(n, (ast.Name, ast.Attribute))}:
        return 0
    mine = judged(ctx, f, f)
    for site, (v, msg) in mine.items():
        if v == "bad" and msg.endswith("not reported"):
            # the caller may report it
            cs = [g for g in ctx.p.functions() if g is not f and g.parent is None and ctx.inscope(g) and any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == f.name or isinstance(n.func, ast.Attribute) and n.func.attr == f.name) for n in ast.walk(g.node))]
            vs = [x[0] for g in cs for k, x in judged(ctx, f, g).items() if k == site]
            if vs and all(x != "bad" for x in vs):
                v = "und" if "und" in vs else "ok"
        {"ok": ctx.ok, "bad": ctx.bad, "und": ctx.und}[v]("external", f.full, site, msg)
    return len(mine)


def judged(ctx, f, entry):
    """Site of an optimiser call in f -> verdict, when entry is walked."""
    R = Run(ctx.p)
    try:
        if entry.cls is not None:
            R.make(entry.cls)
            R.call(entry.name, "N")
        else:
            R.func(entry)
    except Exception as x:
        return {f"{f.module.rel}:{f.node.lineno}": ("und", f"{type(x).__name__}: {x}")}
    ctx.analysed(R.e)
    out = {}
    warns = [ev for ev in R.e.events if ev.kind == "call" and (callee_name(ev.node) or "").split(".")[-1] in ("warn", "warning")] + [ev for ev in R.e.events if ev.kind == "raise"]
    for ev in R.e.events:
        if ev.kind != "call" or f.name not in str(ev.site):
            continue
        nm = callee_name(ev.node) or ""
        if nm.endswith("optimize.minimize"):
            c = ev.node

            def unmet(g, c=c):
                """Does the condition being true mean failure?  None: it does not tell."""
                if g.op == "attr" and g.val == "success" and g.args[0].root is c.root or g.op == "sub" and any(x.root is c.root for x in nodes(g.args[0])) and g.args[1].op == "const" and g.args[1].val == "success":
                    return False
                return None

            out[str(ev.site)] = judge(warns, unmet, lambda g, c=c: any(x.root is c.root for x in nodes(g)), "whether the optimiser succeeded is not reported", "a failure is reported when the optimiser succeeds", ev.guards)
        elif nm.endswith("optim.LBFGS"):

            def unmet(g):
                if g.op == "cmp" and g.val in ("Gt", "GtE", "Lt", "LtE"):
                    l, r = (tolnode(x) for x in g.args)
                    if l != r:
                        if signed_max(g.args[0] if r else g.args[1]):
                            return "signed"
                        return (g.val in ("Gt", "GtE")) == r
                return None

            out[str(ev.site)] = judge(warns, unmet, lambda g: any(tolnode(x) for x in nodes(g)), "whether the gradient is below the tolerance is not reported", "a failure is reported when the gradient is below the tolerance", ev.guards)
    return out


def tolnode(x):
    return x.op in ("param", "attr", "attr0") and istol(str(x.val)) or x.op == "param" and istol(str(x.val).split(".")[-1])


def signed_max(x):
    """The largest entry of something signed: a steep negative entry counts as small."""
    if not (x.op == "call" and (x.args[0].op == "attr" and x.args[0].val in ("max", "amax") or (callee_name(x) or "").split(".")[-1] in ("max", "amax"))):
        return False
    for y in nodes(x):
        t = (callee_name(y) or "").split(".")[-1] if y.op == "call" else y.val if y.op == "attr" else ""
        if t in ("abs", "abs_", "absolute", "norm", "square", "pow", "fabs") or y.op == "bin" and y.val in ("Pow", "Mult") or y.op == "call" and t.startswith("skada"):
            return False
    return any(y.op == "attr" and y.val == "grad" for y in nodes(x))


def judge(warns, unmet, about, silent, wrong, before=()):
    seen = set()
    before = {g.id for g, _ in before}
    for w in warns:
        # a switch beside the outcome keeps the report back
        off = any(strip(g, p)[0].op in ("param", "attr", "attr0") and g.id not in before and unmet(strip(g, p)[0]) is None and not about(g) for g, p in w.guards)
        for g, pos in w.guards:
            g, pos = strip(g, pos)
            parts = [(g, pos)]
            if g.op == "bool" and str(g.val) == ("And" if pos else "Or"):
                parts = [strip(x, pos) for x in g.args]
            told = [(u, p) for x, p in parts for u in [unmet(x)] if u is not None]
            if told:
                u, p = told[0]
                if u == "signed":
                    seen.add("bad")
                    wrong = "the largest entry of the gradient is compared with its sign: a steep descent counts as converged"
                    continue
                if off and u == p:
                    seen.add("partial")
                    continue
                # another condition beside it keeps the report back
                seen.add("partial" if u == p and any(not about(x) for x, _ in parts) else "good" if u == p else "bad")
            elif about(g):
                seen.add("unknown")
    return ("bad", wrong) if "bad" in seen else ("ok", "") if "good" in seen else ("und", "the condition of the report is not resolved") if "unknown" in seen else ("bad", silent)


def strip(g, pos):
    while g.op in ("unary", "un") and str(g.val) == "Not":
        g, pos = g.args[0], not pos
    return g, pos


def run(ctx):
    n = m = 0
    found = []
    for f in ctx.p.functions():
        if not ctx.inscope(f) or isinstance(f.node, ast.Lambda) or ".datasets" in f.module.name:
            continue
        if f.parent is None:
            m += external(ctx, f)
        fn = Fn(f, ctx.p)
        for loop in solver_loops(fn):
            ctx.functions.add(f.full)
            c = Found()
            criteria(c, f.full, f, fn, loop)
            if not any(v == "bad" for v, _ in c.out):
                reports(c, f.full, f, fn, loop)
            found.append((f, loop, c.out))
    own = {(f.module, l.lineno): (f, out) for f, l, out in found if f.node.lineno <= l.lineno <= f.node.end_lineno}
    for f, loop, out in found:
        g, mine = own.get((f.module, loop.lineno), (f, out))
        fine = not any(v == "bad" for v, _ in mine)
        # the loop of a helper is judged there; where nothing is wrong with it that is all,
        # otherwise its callers decide
        if f is g:
            if not fine and f.name.startswith("_") and [1 for h, l, _ in found if h is not f and h.module is f.module and l.lineno == loop.lineno and not h.name.startswith("_")]:
                continue
        elif fine or f.name.startswith("_"):
            continue
        n += 1
        for v, a in out:
            getattr(ctx, v)(*a)
    ctx.notes["solver loops"] = n
    ctx.notes["external optimisers"] = m
    ctx.need(n + m, 4, "solver loops and optimisers")


class Found:
    """Verdicts kept until the callers of a helper were judged."""

    def __init__(self):
        self.out = []

    def ok(self, rule, con, site=None, msg=""):
        self.out.append(("ok", (rule, con, site, msg)))

    def bad(self, rule, con, site=None, msg=""):
        self.out.append(("bad", (rule, con, site, msg)))

    def und(self, rule, con, site=None, msg=""):
        self.out.append(("und", (rule, con, site, msg)))
