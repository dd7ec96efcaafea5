"""Predictions one by one.  Every adapter and estimator is walked on a sample set N for fitting
and M afterwards.  In what transform and the prediction methods return for M, the features of M
are followed together with the axis that runs over the samples: (apart) nothing that sums,
averages, ranks or learns over the samples of M enters the result.  (mode) A network that
predicts runs in evaluation mode, on the samples in their order."""

import ast

from rules.c29 import SHAPE, SIZE
from sa.facets import Facet
from sa.rowscan import class_runs
from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static dependence analysis with sample axes (value flow)"
ASSUMPTIONS = [
    "prediction methods of external estimators treat samples one by one",
    "checks that only raise, and choices between branches, are not results",
]

REDUCE = {"sum": 0, "mean": 0, "std": 0, "var": 0, "max": 0, "min": 0, "amax": 0, "amin": 0, "median": 0, "nanmean": 0, "nanstd": 0, "nansum": 0, "ptp": 0, "prod": 0, "norm": 2, "logsumexp": 0, "softmax": 0, "log_softmax": 0, "quantile": 1, "percentile": 1, "average": 0, "nanmax": 0, "nanmin": 0, "nanmedian": 0, "argmin": 0, "argmax": 0, "cumsum": 0}
ALWAYS = {"cov": 0, "corrcoef": 0, "scale": 0, "minmax_scale": 0, "maxabs_scale": 0, "robust_scale": 0, "ledoit_wolf": 0, "empirical_covariance": 0, "quantile_transform": 0, "power_transform": 0}
PAIRS = {"pairwise_kernels", "pairwise_distances", "euclidean_distances", "rbf_kernel", "linear_kernel", "polynomial_kernel", "cdist", "dist", "cosine_similarity", "manhattan_distances", "laplacian_kernel", "sigmoid_kernel", "cosine_distances"}
FITS = {"fit", "fit_transform", "partial_fit", "fit_predict", "fit_resample"}
PRODUCTS = {"dot", "matmul"}
METHODS = ("transform", "predict", "predict_proba", "predict_log_proba", "decision_function", "score_samples")
P0, P1 = "P0", "P1"


class Batch(Facet):
    """P0 / P1: one entry per sample of M along the first / the last axis; ("A", id): made of several."""

    cap = 40

    def __init__(self, e, refit):
        super().__init__()
        self.e, self.refit = e, refit
        self.where = {}

    def several(self, n):
        self.where[n.id] = n
        return frozenset({("A", n.id)})

    def axis(self, n, pos):
        v = n.kw.get("axis") or n.kw.get("dim")
        args = n.args[1:]
        if n.args[0].op == "attr":
            pos -= 0
        elif v is None:
            pos += 1
        if v is None and len(args) > pos:
            v = args[pos]
        if v is None:
            return None
        return v.val if v.op == "const" and (type(v.val) is int or v.val is None) else "?"

    def t_default(self, n):
        r = frozenset()
        for a in n.args:
            r = r | self.get(a)
        return r

    def t_param(self, n):
        return frozenset({P0}) if n.val == "X" and (n.extra or {}).get("base") == "M" else frozenset()

    def t_phi(self, n):
        vs = [self.get(a) for a in n.args]
        if isinstance(n.val, Node) and recognises(n.val):
            # the samples of the fit given again: what was learned from them is theirs
            k = 1
            x = n.val
            while x.op == "unary" and x.val == "Not":
                x, k = x.args[0], 1 - k
            if len(vs) == 2 and (x.op == "call" or x.op == "bool" and x.val == "And" and k == 1):
                return vs[k]
            return min(vs, key=lambda v: sum(isinstance(x, tuple) for x in v)) if vs else frozenset()
        r = frozenset()
        for v in vs:
            r = r | v
        return r

    def t_cmp(self, n):
        return frozenset() if n.val in ("Is", "IsNot", "In", "NotIn") else self.t_default(n)

    def t_list(self, n):
        return self.t_default(n)

    def t_attr(self, n):
        if n.val in SHAPE:
            return frozenset()
        v = self.get(n.args[0])
        return self.turned(v) if n.val == "T" else v

    def turned(self, v):
        return frozenset({P0: P1, P1: P0}.get(x, x) for x in v)

    def t_sub(self, n):
        b, i = self.get(n.args[0]), self.get(n.args[1])
        one = n.args[1].op == "const" and type(n.args[1].val) is int
        if one and P0 in b and self.rowwise(n.args[0]):
            return self.several(n)
        return b | frozenset(x for x in i if x not in (P0, P1))

    def rowwise(self, n):
        """Whether an index takes a sample (and not an entry of a tuple) out."""
        n = n.root
        return n.op == "param"

    def t_bin(self, n):
        if n.val == "MatMult":
            return self.product(n, n.args[0], n.args[1])
        return self.t_default(n)

    def product(self, n, x, y):
        a, b = self.get(x), self.get(y)
        rest = frozenset(q for q in a | b if q not in (P0, P1))
        if P1 in a or P0 in b:
            return rest | self.several(n)
        return rest | (a & {P0}) | (b & {P1})

    def t_call(self, n):
        nm = callee_name(n) or ""
        t = nm.split(".")[-1].split(":")[-1]
        f, A = n.args[0], list(n.args[1:])
        kw = [v for v in n.kw.values() if isinstance(v, Node)]
        if nm in SIZE:
            return frozenset()
        ext = f.op == "ext"
        own = f.op == "attr" and f.args[0].op not in ("ext", "mod")
        if t in FITS and own:
            if any({P0, P1} & self.get(a) for a in A + kw):
                return self.several(n)
            return self.t_default(n)
        if own and f.args[0].root.id in self.refit:
            return self.several(n)
        if not ext and not own:
            r = frozenset()
            for a in A + kw:
                r = r | self.get(a)
            return r
        x = self.get(f.args[0]) if own else self.get(A[0]) if A else frozenset()
        if own and not ({P0, P1} & x) and t not in PRODUCTS:
            r = x
            for a in A + kw:
                r = r | self.get(a)
            return r
        lib = ext and f.val.split(".")[0] in ("numpy", "scipy", "sklearn", "torch", "ot")
        if t in PRODUCTS and len(A) + own >= 2:
            return self.product(n, f.args[0] if own else A[0], A[0] if own else A[1])
        if (own or lib) and t in REDUCE and {P0, P1} & x:
            rest = frozenset(q for q in x if q not in (P0, P1))
            k = self.axis(n, {0: 0, 1: 1, 2: 1}[REDUCE[t]])
            if k == "?" or ext and t == "norm" and k is None and (len(A) > 1 or set(n.kw) - {"axis", "keepdims"}):
                return rest
            if k is None or k == 0 and P0 in x or k in (1, -1) and P1 in x:
                if k == -1 and P1 not in x:
                    return x
                return rest | self.several(n)
            return rest | frozenset({P0})
        if lib and t in ALWAYS and x:
            return frozenset(q for q in x if q not in (P0, P1)) | self.several(n)
        if t in PAIRS and lib and A:
            y = self.get(A[1]) if len(A) > 1 else self.get(n.kw["Y"]) if "Y" in n.kw else None
            if y is None or len(A) > 1 and A[1].op == "const" and A[1].val is None:
                y = x
            rest = frozenset(q for q in x | y if q not in (P0, P1))
            return rest | (frozenset({P0}) if {P0} & x else frozenset()) | (frozenset({P1}) if P0 in y else frozenset())
        if t in ("transpose", "swapaxes") and len(A) + own == 1:
            return self.turned(x)
        if t in ("reshape", "ravel", "flatten", "squeeze"):
            return x
        r = x
        for a in A + kw:
            r = r | self.get(a)
        return r


def recognises(n, d=0):
    """Whether a condition compares samples with remembered ones."""
    if d > 8:
        return False
    if n.op == "call" and (callee_name(n) or "").split(".")[-1] in ("array_equal", "allclose", "array_equiv", "equal"):
        return True
    if n.op == "call" and (callee_name(n) or "").split(".")[-1] == "all":
        return any(a.op == "cmp" and a.val == "Eq" for a in n.args + (n.args[0].args if n.args[0].op == "attr" else ()))
    return n.op in ("bool", "unary", "phi", "bin") and any(recognises(a, d + 1) for a in n.args)


def run(ctx):
    n = 0
    for w, c, R in class_runs(ctx, ("adapters", "estimators")):
        for m in METHODS:
            r = R.results.get((m, "M"))
            if r is None or c.find(m) is None:
                continue
            n += one(ctx, c, R, m, r)
    nets(ctx)
    ctx.need(n, 28, "transform and prediction methods that depend on the features given")


NET = ("predict_features", "predict_proba", "predict", "transform")


def nets(ctx):
    """Networks predict as they were trained to: layers that normalise by the batch, or drop
    units, are told that this is no training, and the samples are taken in their order."""
    for c in ctx.classes():
        if not any((b if isinstance(b, str) else getattr(b, "name", "")).endswith(("NeuralNet", "DomainAwareNet", "NeuralNetClassifier")) for b in bases(c)):
            continue
        for m in NET:
            fi = c.find(m)
            if fi is None or fi.module not in ctx.p.modules.values():
                continue
            R = Run(ctx.p)
            try:
                R.make(c)
                R.call(m, "M", phase="walk")
            except Exception as x:
                ctx.und("walk", f"{c.full}.{m}", None, f"{type(x).__name__}: {x}")
                continue
            ctx.analysed(R.e)
            mode(ctx, c, m, R)


def bases(c):
    out = []
    for b in c.project_mro():
        out += [b.name] + [ast.unparse(x) for x in b.node.bases]
    return out


def truth(n):
    return n.val if n is not None and n.op == "const" and isinstance(n.val, bool) else "?"


def mode(ctx, c, m, R):
    con, now = f"{c.full}.{m}", None
    for ev in R.e.events:
        if ev.phase != "walk" or ev.kind != "call" or ev.node is None:
            continue
        f, A = ev.node.args[0], ev.node.args[1:]
        f = settled(f)
        if f.op not in ("attr", "attr0"):
            continue
        t = str(f.val)
        own = f.op == "attr0" or f.args[0] is R.self_node
        flag = ev.node.kw.get("training") or ev.node.kw.get("mode")
        if t in ("_set_training", "train") and (own or name_of(f.args[0]) == "module_"):
            flag = flag or (A[0] if A else None)
            now = True if flag is None and t == "train" else truth(flag)
        elif t == "eval" and f.op == "attr" and name_of(f.args[0]) == "module_":
            now = False
        elif t in ("get_iterator", "evaluation_step") and own:
            flag = flag or (A[1] if len(A) > 1 else None)
            if flag is not None and truth(flag) != "?":
                ctx.check(not truth(flag), "mode", f"{con}:{t}", ev.site, f"{m} takes the samples as in training ({t})")
        elif t == "module_" and own:
            if now is None or now == "?":
                ctx.und("mode", con, ev.site, "mode of the network not known") if now else ctx.bad("mode", con, ev.site, f"{m} runs the network in the mode it was left in: layers may go by the other samples of the batch")
            else:
                ctx.check(not now, "mode", con, ev.site, f"{m} runs the network in training mode: layers go by the other samples of the batch")


def name_of(n):
    n = settled(n)
    return str(n.val) if n.op in ("attr", "attr0") else ""


def settled(n):
    """What a name that a loop may have changed stands for, if nothing did."""
    while n.op in ("loop", "phi"):
        alts = [a for a in flat_alts(n) if a is not n] or [a for a in n.args if a is not n and a.op != "unbound"]
        if not alts:
            break
        n = alts[0]
    return n


def one(ctx, c, R, m, r):
    con = f"{c.full}.{m}"
    B = Batch(R.e, set())
    for ev in R.e.events:
        if ev.kind == "call" and ev.phase == m and ev.node is not None and ev.node.args[0].op == "attr" and ev.node.args[0].val in FITS:
            given = [a for a in list(ev.node.args[1:]) + list(ev.node.kw.values()) if isinstance(a, Node)]
            if any({P0, P1} & B.get(a) for a in given):
                B.refit.add(ev.node.args[0].args[0].root.id)
    if B.refit:
        B.memo.clear()
    got = B.get(r)
    if not got:
        return 0
    bad = [x for x in got if isinstance(x, tuple)]
    for x in bad:
        at = B.where[x[1]]
        t = (callee_name(at) or "").split(".")[-1] if at.op == "call" else "product" if at.op == "bin" else "selection"
        ctx.bad("apart", f"{con}: {at.site.func if at.site else ''}", at.site, f"what {m} returns for a sample depends on the other samples it is given with ({t} over the samples)")
    if not bad:
        ctx.ok("apart", con)
    return 1
