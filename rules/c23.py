"""Class labels and class positions.  Each value is classified as labels (the labels given,
the distinct labels, what they index, what an estimator fitted on labels predicts) or as
positions (a maximum over the class axis, the index of an enumeration of the classes, an
inverse of np.unique, encoded labels).  Positions may not be compared with labels, returned
as predictions or propagated labels, nor be scored against labels; labels may not be used
as positions.  Deep methods are left out: by convention their classes are positions."""

from sa.facets import Facet
from sa.project import FuncInfo
from sa.scenario import Run, adapters, estimators, scorers
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static value-kind analysis (class labels / class positions) over the value-flow graph"
ASSUMPTIONS = ["classes of deep methods are 0..k-1 (the convention of skorch)"]

LAB, POS, CLS, NCLS, HOT = "LAB", "POS", "CLS", "NCLS", "HOT"
Y_NAMES = {"y", "ys", "yt", "y_source", "y_target", "y_true", "y_s", "y_t", "target_labels"}
SAME = {"asarray", "array", "copy", "check_array", "column_or_1d", "ravel", "reshape", "tile", "repeat", "concatenate", "hstack", "squeeze", "ascontiguousarray", "from_numpy", "tensor", "as_tensor", "atleast_1d", "sort", "take", "sorted", "list", "int", "float", "as_numpy"}
SAME_METH = {"astype", "copy", "ravel", "flatten", "reshape", "numpy", "detach", "cpu", "to", "long", "int", "item", "tolist", "squeeze", "view"}
ENCODERS = {"LabelEncoder", "OrdinalEncoder"}
TRAIN = ("fit", "partial_fit", "fit_transform")


class Kinds(Facet):
    cap = 4

    def __init__(self, R, world=None):
        super().__init__()
        self.e = R.e
        self.world = world or {}
        self.fits = {}
        for ev in R.e.events:
            if ev.kind == "call" and self.possible(ev):
                c = ev.node.args[0]
                if c.op == "attr" and c.val in TRAIN:
                    k = 1 if self.hot(c.args[0]) or self.encoder(c.args[0]) else 2
                    y = ev.node.args[k] if len(ev.node.args) > k else ev.node.kw.get("y")
                    if y is not None:
                        self.fits.setdefault(self.obj(c.args[0]), []).append(y)

    def top(self):
        return frozenset(["?"])

    @staticmethod
    def obj(n):
        return n.root.id

    def t_default(self, n):
        return frozenset()

    def t_param(self, n):
        return frozenset([LAB]) if n.val in Y_NAMES and n.extra.get("labels", True) else frozenset()

    def t_update(self, n):
        # an array some of whose entries are set
        v = self.get(n.args[2]) if len(n.args) > 2 else frozenset()
        return self.join(self.get(n.args[0]), v)

    def t_attr(self, n):
        if n.val in ("classes_", "categories_"):
            return frozenset([CLS])
        b = self.get(n.args[0])
        if n.val == "T":
            return b
        if n.val == "size":
            return frozenset([NCLS]) if b == {CLS} else frozenset()
        if n.val == "shape":
            return frozenset([NCLS]) if b == {CLS} else frozenset()
        return frozenset()

    def t_sub(self, n):
        i = n.args[1]
        if n.args[0].op == "call" and self.tail(n.args[0]) in ("unique", "factorize") and i.op == "const" and any(k.startswith("return") for k in n.args[0].kw):
            u = n.args[0]
            if i.val == 0:
                return self.uniq(u)
            return frozenset([POS]) if i.val == 1 and u.kw.get("return_inverse") is not None and "return_index" not in u.kw and self.uniq(u) else frozenset()
        b = self.get(n.args[0])
        if n.args[0].op == "attr" and n.args[0].val == "shape" and self.get(n.args[0].args[0]) == {HOT}:
            return frozenset([NCLS]) if i.op == "const" and i.val == 1 else frozenset()
        if b == {CLS}:
            if n.args[0].op == "attr" and n.args[0].val == "categories_":
                return b
            return b if i.op == "slice" else frozenset([LAB])
        return b

    def t_elem(self, n):
        b = self.get(n.args[0])
        if b == {CLS}:
            return frozenset([LAB])
        return b

    def t_index(self, n):
        return frozenset([POS]) if self.get(n.args[0]) == {CLS} else frozenset()

    def t_item(self, n):
        c = n.args[0]
        if c.op == "call" and self.tail(c) == "unique":
            if n.val == 0:
                return self.uniq(c)
            if c.kw.get("return_inverse") is not None and "return_index" not in c.kw and n.val == 1:
                return frozenset([POS]) if self.uniq(c) else frozenset()
            return frozenset()
        if c.op == "call" and self.tail(c) == "factorize":
            return frozenset([POS]) if n.val == 0 else self.uniq(c)
        if c.op == "call" and self.tail(c) == "split" and (callee_name(c) or "").endswith("numpy.split"):
            return self.get(c)
        if c.op == "call":
            return frozenset()
        if c.op in ("tuple", "list"):
            return self.get(c.args[n.val]) if -len(c.args) <= n.val < len(c.args) else frozenset()
        if c.op in ("phi", "loop"):
            r = frozenset()
            for a in flat_alts(c):
                if a.op in ("tuple", "list") and n.val < len(a.args):
                    r = self.join(r, self.get(a.args[n.val]))
                else:
                    return frozenset()
            return r
        return frozenset()

    def t_phi(self, n):
        if self.world and n.op == "phi" and isinstance(n.val, Node) and len(n.args) == 2:
            w = self.world.get(self.e.key(n.val))
            if w is not None:
                return self.get(n.args[0 if w else 1])
        r = frozenset()
        for a in n.args:
            r = self.join(r, self.get(a))
        return r

    t_loop = t_phi

    def possible(self, ev):
        """Whether an event can happen in the world looked at."""
        return all(self.world.get(self.e.key(g), p) == p for g, p in ev.guards)

    def t_list(self, n):
        return self.t_phi(n) if n.args else frozenset()

    t_tuple = t_list

    def t_comp(self, n):
        return self.get(n.args[0]) if n.args else frozenset()

    t_listcomp = t_comp

    def uniq(self, c):
        k = self.get(c.args[1]) if len(c.args) > 1 else frozenset()
        return frozenset([CLS]) if k & {LAB, CLS} and not k & {POS} else frozenset()

    @staticmethod
    def tail(n):
        return (callee_name(n) or "").split(".")[-1].split(":")[-1]

    def encoder(self, n):
        for a in flat_alts(n):
            if a.op == "call" and self.tail(a) in ENCODERS:
                return True
        return n.root.op == "call" and self.tail(n.root) in ENCODERS

    def hot(self, n):
        return any(a.op == "call" and self.tail(a) == "OneHotEncoder" for a in flat_alts(n) + [n.root])

    def axis(self, n):
        a = n.kw.get("axis") or n.kw.get("dim")
        if a is None:
            p = n.args[1:] if n.args[0].op == "attr" else n.args[2:]
            a = p[0] if p else None
        return a.val if a is not None and a.op == "const" else (-a.args[0].val if a is not None and a.op == "un" and a.args[0].op == "const" and isinstance(a.args[0].val, int) else None)

    def t_call(self, n):
        t = self.tail(n)
        f = n.args[0]
        A = n.args[1:]
        if t in ("argmax", "argmin"):
            return frozenset([POS]) if self.axis(n) in (1, -1) else frozenset()
        if f.op == "attr":
            recv = f.args[0]
            if self.encoder(recv):
                if t in ("transform", "fit_transform"):
                    return frozenset([POS])
                if t == "inverse_transform":
                    return frozenset([LAB])
            if self.hot(recv) and t in ("transform", "fit_transform"):
                return frozenset([HOT])
            if t in ("predict", "fit_predict"):
                ks = set()
                for y in self.fits.get(self.obj(recv), ()):
                    ks |= self.get(y)
                return frozenset([POS]) if ks == {POS} else frozenset([LAB]) if ks <= {LAB, CLS} and ks else frozenset()
            if t in SAME_METH:
                return self.get(recv)
            if t in ("unique",) and not A:
                k = self.get(recv)
                return frozenset([CLS]) if k == {LAB} else frozenset()
            return frozenset()
        if t == "unique":
            return self.uniq(n)
        if t == "searchsorted" and A and self.get(A[0]) == {CLS}:
            return frozenset([POS])
        if t == "len" and A:
            return frozenset([NCLS]) if self.get(A[0]) == {CLS} else frozenset()
        if t in ("range", "arange") and len(A) == 1:
            return frozenset([POS]) if self.get(A[0]) == {NCLS} else frozenset()
        if t in SAME and A:
            return self.get(A[0])
        if t == "split" and A:
            return self.get(A[0])
        if t == "where" and len(A) == 3:
            return self.join(self.get(A[1]), self.get(A[2]))
        return frozenset()


def definite(k, what):
    return k == {what}


def islab(k):
    return bool(k) and k <= {LAB, CLS}


def sinks(ctx, R, K, con, roles):
    n = 0
    for ev in R.e.events:
        if not K.possible(ev):
            continue
        if ev.kind == "cmp" and ev.node.val in ("Eq", "NotEq", "In", "NotIn"):
            a, b = (K.get(x) for x in ev.node.args)
            if islab(a) and definite(b, POS) or islab(b) and definite(a, POS):
                ctx.bad("compare", con, ev.site, "labels are compared with positions of classes")
            elif islab(a) or islab(b):
                ctx.ok("compare", con)
                n += 1
        elif ev.kind == "sub":
            i = K.get(ev.index)
            b = K.get(ev.base)
            if islab(i) and ev.index.op not in ("cmp", "slice") and not dictlike(R, ev.base):
                ctx.bad("index", con, ev.site, "labels are used as positions of classes")
            elif definite(i, POS) and islab(b):
                ctx.ok("index", con)
                n += 1
        elif ev.kind == "setitem" and ev.index is not None:
            i = K.get(ev.index)
            if islab(i) and not dictlike(R, ev.base):
                ctx.bad("index", con, ev.site, "labels are used as positions of classes")
        elif ev.kind == "call":
            t = K.tail(ev.node)
            A = ev.node.args[1:]
            c = ev.node.args[0]
            if c.op == "attr" and t == "transform" and len(A) == 1 and (K.hot(c.args[0]) or K.encoder(c.args[0])):
                ks = frozenset()
                for y in K.fits.get(K.obj(c.args[0]), ()):
                    ks |= K.get(y)
                k = K.get(A[0])
                if islab(ks) and definite(k, POS):
                    ctx.bad("encode", con, ev.site, "positions of classes are given to an encoder fitted on labels")
                elif islab(ks) and islab(k):
                    ctx.ok("encode", con)
                    n += 1
            if (t.endswith(("score", "scorer", "_loss_func")) or "score" in str(ev.node.args[0].val)) and len(A) >= 2:
                a, b = K.get(A[0]), K.get(A[1])
                if islab(a) and definite(b, POS) or islab(b) and definite(a, POS):
                    ctx.bad("score", con, ev.site, "labels are scored against positions of classes")
                elif islab(a) and islab(b):
                    ctx.ok("score", con)
                    n += 1
    for what, node, site in roles:
        k = K.get(node)
        if definite(k, POS) or POS in k and LAB not in k and "?" not in k:
            ctx.bad("result", con, site, f"{what} are positions of classes, not labels")
        elif islab(k):
            ctx.ok("result", con)
            n += 1
    return n


def dictlike(R, b):
    r = R.e.base_of(b)
    return any(a.op in ("dict", "dictcomp") for a in flat_alts(r)) or r.op in ("dict", "dictcomp", "attr0")


def analyse(ctx, con, site, walk):
    R = Run(ctx.p)
    try:
        roles = walk(R)
    except Exception as x:
        ctx.und("walk", con, site, f"{type(x).__name__}: {x}")
        return 0
    ctx.analysed(R.e)
    n = sinks(ctx, R, Kinds(R), con, roles)
    for c in kind_tests(R):
        for w in (True, False):
            n += sinks(ctx, R, Kinds(R, {c: w}), con, roles)
    return n


def kind_tests(R):
    """Conditions on the type of the labels, on which encoding and decoding depend together."""
    out = []
    for ev in R.e.events:
        for g, _ in ev.guards:
            if g.op == "cmp" and g.val in ("Eq", "NotEq", "Is", "IsNot") and any(a.op == "attr" and a.val in ("DISCRETE", "CONTINUOUS") or "DISCRETE" in str(a.val) or "CONTINUOUS" in str(a.val) for a in g.args):
                k = R.e.key(g)
                if k not in out:
                    out.append(k)
    return out[:6]


def results(R, m, c):
    r = R.results.get((m, "N"))
    out = []
    if r is None:
        return out
    site = f"{c.module.rel}:{c.find(m).node.lineno}"
    for a in flat_alts(r):
        if m == "predict":
            out.append(("predictions", a, site))
        elif m == "fit_transform" and a.op == "tuple" and len(a.args) == 3:
            out.append(("propagated labels", a.args[1], site))
    return out


METHODS = ("fit", "fit_transform", "transform", "predict", "score", "_score")


def others(c):
    """The other public methods to which labels are given."""
    out = {}
    for k in c.project_mro():
        for f in k.methods.values():
            if not f.name.startswith("_") and f.name not in METHODS and Y_NAMES & set(f.all_params) and not f.has_deco("abstractmethod"):
                out.setdefault(f.name, f)
    return [m for m, f in out.items() if c.find(m) is f]


def run(ctx):
    n = 0
    for c in ctx.scoped(adapters(ctx.p)) + ctx.scoped(estimators(ctx.p)) + ctx.scoped(scorers(ctx.p)):
        if ".deep" in c.module.name:
            continue

        def walk(R, c=c):
            roles = []
            R.make(c)
            for m in METHODS:
                f = c.find(m)
                if isinstance(f, FuncInfo) and not f.has_deco("abstractmethod"):
                    R.call(m, "N")
                    roles += results(R, m, c)
            return roles

        n += analyse(ctx, c.full, f"{c.module.rel}:{c.node.lineno}", walk)
        for m in others(c):

            def walk(R, c=c, m=m):
                R.make(c)
                R.call(m, "N")
                return []

            n += analyse(ctx, f"{c.full}.{m}", f"{c.module.rel}:{c.find(m).node.lineno}", walk)
    for f in ctx.p.functions():
        if f.cls is None and f.parent is None and ctx.inscope(f) and Y_NAMES & set(f.all_params) and ".deep" not in f.module.name and ".datasets" not in f.module.name:

            def walk(R, f=f):
                R.func(f)
                return []

            n += analyse(ctx, f.full, f"{f.module.rel}:{f.node.lineno}", walk)
    ctx.notes["label uses classified"] = n
    ctx.need(n, 10, "uses of labels")
