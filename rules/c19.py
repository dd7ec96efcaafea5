"""Importance weights.  (zero) the weights a reweighting adapter returns are an array of zeros
that is filled at the positions of source samples only.  (rows) what is stored there, or given
to a scorer, describes the same source samples.  (ratio) every value is given a direction in
which it varies with the density of the source and of the target samples: densities fitted on
samples of one role, Gaussian densities with moments of one role, columns of the probabilities
of a classifier fitted on domain indicators, followed through quotients, differences, logs and
exponentials.  The weights must grow with the target density and fall with the source density,
and the moments of one density must come from one role.  (handed on) the adapters hand the
weights on as sample_weight."""

import ast

from rules.c13 import BOTH, Seen, scoring_calls
from sa.facets import Facet, role
from sa.rowscan import class_runs, differ, kinds
from sa.vf import callee_name, flat_alts, walk

TECHNIQUE = "static monotonicity (direction-of-variation) and row-provenance analysis of the weights"
ASSUMPTIONS = ["score_samples is a log density, pdf a density, predict_proba has its columns in the order of the sorted labels", "samples are target exactly when their domain label is negative (C02)"]

SAMEDIR = {"exp", "log", "sqrt", "clip", "asarray", "array", "maximum", "minimum", "nan_to_num", "squeeze", "ravel", "reshape", "astype", "copy", "flatten", "expm1", "log1p", "log2", "exp2", "float64", "atleast_1d", "asanyarray"}
REDUCE = {"mean", "sum", "max", "min", "median", "std", "var", "norm", "len", "average", "amax", "amin", "nanmean", "nansum", "logsumexp", "cov", "any", "all", "trace"}
ALLOC0 = {"zeros", "zeros_like"}
ALLOC = {"ones": "one", "ones_like": "one", "full": "the fill value", "full_like": "the fill value", "empty": "arbitrary numbers", "empty_like": "arbitrary numbers"}
UNK = frozenset(["?"])


def tail(n):
    return (callee_name(n) or "").split(".")[-1]


def num(n):
    if n is None:
        return None
    if n.op == "const" and isinstance(n.val, (int, float)) and not isinstance(n.val, bool):
        return n.val
    if n.op == "unary" and n.val == "USub":
        v = num(n.args[0])
        return None if v is None else -v
    return None


class Direction(Facet):
    """{('SRC'|'TGT', +1|-1)}: how a value varies with the two densities; '?' when unknown."""

    def __init__(self, R, X):
        super().__init__()
        self.R = R
        self.L = Seen(R.rows, {x.id: BOTH for x in X})
        self.fits = {}
        self.mixed = []
        self.onesided = []
        self.when = {}
        for k, ev in enumerate(R.e.events):
            if ev.kind == "call":
                self.when.setdefault(ev.node.id, (k, ev))
            if ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "fit":
                for o in self.objs(ev.node.args[0].args[0]):
                    self.fits.setdefault(o.root.id, []).append(ev.node)

    def objs(self, n):
        """The objects a receiver may be; fit returns its receiver."""
        out = []
        for a in flat_alts(n):
            d = 0
            while a.op == "call" and a.args[0].op == "attr" and a.args[0].val == "fit" and d < 5:
                inner = flat_alts(a.args[0].args[0])
                if len(inner) != 1:
                    break
                a, d = inner[0], d + 1
            out.append(a)
        return out

    def role_of(self, n):
        r = self.L.get(n)
        return next(iter(r)) if len(r) == 1 and "?" not in r else None

    def neg(self, s):
        return frozenset(x if x == "?" else (x[0], -x[1], *x[2:]) for x in s)

    def latest(self, fits, use):
        """The fit that counts when the object is used, of several under the same conditions."""
        k = self.when.get(use.id) if use is not None else None
        at = [self.when.get(f.id) for f in fits]
        if k is None or None in at or len(fits) < 2:
            return fits
        g = {tuple((x.id, p) for x, p in e.guards) for _, e in at}
        before = [(i, f) for (i, e), f in zip(at, fits) if i < k[0]]
        return [max(before, key=lambda t: t[0])[1]] if len(g) == 1 and before else fits

    def fitted_on(self, o, use=None):
        """Role of the samples an object was fitted on."""
        rs = set()
        for a in self.objs(o):
            for f in self.latest(self.fits.get(a.root.id, []), use) or [None]:
                x = f.args[1] if f is not None and len(f.args) > 1 else f.kw.get("X") if f is not None else None
                rs.add(self.role_of(x) if x is not None else None)
        return rs.pop() if len(rs) == 1 else None

    # -- domain classifiers
    def indicator(self, o):
        """{'SRC': label, 'TGT': label} an object was fitted with, or None."""
        got = []
        for a in self.objs(o):
            for f in self.fits.get(a.root.id, []):
                if len(f.args) + len(f.kw) < 3:
                    return None
                got.append(self.labelling(f.args[1] if len(f.args) > 1 else f.kw.get("X"), f.args[2] if len(f.args) > 2 else f.kw.get("y")))
        return got[0] if got and all(g == got[0] for g in got) else None

    def labelling(self, X, y):
        if y is None:
            return None
        y = self.unwrap(y)
        if y.op == "call" and tail(y) == "where" and len(y.args) == 4:
            rs = {x.pol for x in self.R.rows.get(y.args[1]) if x.kind == "mask"}
            a, b = num(y.args[2]), num(y.args[3])
            if len(rs) == 1 and rs <= {"SRC", "TGT"} and a is not None and b is not None:
                r = rs.pop()
                return {r: a, ("TGT" if r == "SRC" else "SRC"): b}
            return None
        if y.op == "call" and tail(y) in ("concatenate", "hstack", "append") and X is not None:
            X = self.unwrap(X)
            ys = self.parts(y)
            xs = self.parts(X)
            if ys and xs and len(ys) == len(xs) == 2:
                rs = [self.role_of(x) for x in xs]
                vs = [self.fill(v) for v in ys]
                if set(rs) == BOTH and None not in vs:
                    return dict(zip(rs, vs))
                if None not in vs and vs[0] != vs[1] and rs[0] == rs[1] and rs[0] in BOTH:
                    self.onesided.append((X, rs[0]))
            return None
        out, cur = {}, y
        while cur.op == "update" and cur.val == "setitem":
            i = self.R.rows.index_value(cur.args[1])
            rs = {x.pol if x.kind == "mask" else role(x.rows) if x.kind == "idx" else None for x in i}
            v = num(cur.args[2])
            if len(rs) != 1 or v is None:
                return None
            r = rs.pop()
            if r not in ("SRC", "TGT"):
                return None
            out.setdefault(r, v)
            cur = self.unwrap(cur.args[0])
        if cur is y:
            k = self.mask_labels(y)
            return k
        b = self.fill(cur)
        for r in ("SRC", "TGT"):
            if r not in out:
                if b is None:
                    return None
                out[r] = b
        return out

    def mask_labels(self, y):
        rs = {(x.kind, x.pol) for x in self.R.rows.get(y)}
        if len(rs) == 1:
            k, p = rs.pop()
            if k == "mask" and p in ("SRC", "TGT"):
                return {p: 1, ("TGT" if p == "SRC" else "SRC"): 0}
        return None

    def unwrap(self, n):
        while n.op == "call" and (tail(n) in ("asarray", "array") and len(n.args) > 1 and n.args[1].op != "list" or n.args[0].op == "attr" and n.args[0].val in ("astype", "copy", "ravel")):
            n = n.args[0].args[0] if n.args[0].op == "attr" and n.args[0].val in ("astype", "copy", "ravel") else n.args[1]
        return n

    def parts(self, n):
        if n.op != "call" or len(n.args) < 2:
            return None
        if tail(n) == "append":
            return list(n.args[1:3])
        return list(n.args[1].args) if n.args[1].op in ("tuple", "list") else None

    def fill(self, n):
        n = self.unwrap(n)
        if n.op == "call":
            t = tail(n)
            if t in ("ones", "ones_like"):
                return 1
            if t in ALLOC0:
                return 0
            if t in ("full", "full_like", "repeat"):
                i = 1 if t == "repeat" else 2
                return num(n.args[i]) if len(n.args) > i else None
        if n.op == "bin" and n.val == "Mult":
            for a, b in (n.args[:2], n.args[1::-1]):
                if a.op in ("list", "tuple") and len(a.args) == 1:
                    return num(a.args[0])
                if num(a) is not None and self.fill(b) == 1:
                    return num(a)
                if num(a) is not None and self.fill(b) == 0:
                    return 0
        if n.op == "unary" and n.val == "USub":
            v = self.fill(n.args[0])
            return None if v is None else -v
        return None

    # -- transfer
    def t_default(self, n):
        for a in list(n.args) + list(n.kw.values()):
            if a is not None and self.get(a):
                return UNK
        return frozenset()

    def t_attr0(self, n):
        return frozenset()

    t_param = t_inst = t_func = t_cls = t_const = t_ext = t_cmp = t_attr0

    def t_attr(self, n):
        return self.get(n.args[0]) if n.val in ("T", "values", "real") else frozenset()

    def t_phi(self, n):
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        return r

    t_loop = t_phi

    def t_unary(self, n):
        s = self.get(n.args[0])
        return self.neg(s) if n.val == "USub" else s

    def t_bin(self, n):
        a, b = n.args[:2]
        x, y = self.get(a), self.get(b)
        if n.val in ("Add", "Mult", "MatMult"):
            if n.val == "Mult":
                for c, s in ((a, y), (b, x)):
                    v = num(c)
                    if v is not None and v < 0:
                        return self.neg(s)
            return x | y
        if n.val == "Sub" and num(a) == 1 and len(y) == 1 and next(iter(y))[1:] == (1, "p"):
            return frozenset([("SRC" if next(iter(y))[0] == "TGT" else "TGT", 1, "p")])
        if n.val in ("Sub", "Div", "FloorDiv"):
            return x | self.neg(y)
        if n.val == "Pow":
            v = num(b)
            return x if v is not None and v > 0 else self.neg(x) if v is not None and v < 0 else UNK if x or y else frozenset()
        return self.t_default(n)

    t_aug = t_bin

    def t_update(self, n):
        if n.val == "setitem":
            return self.get(n.args[0]) | self.get(n.args[2])
        return self.t_default(n)

    def t_sub(self, n):
        b, i = n.args
        if b.op == "call" and b.args[0].op == "attr" and b.args[0].val in ("predict_proba", "predict_log_proba"):
            k = None
            if i.op == "tuple" and len(i.args) == 2:
                j = i.args[1]
                k = num(j)
                if j.op == "slice":
                    lo, hi, st = j.args
                    k = {(None, 1): 0, (0, 1): 0, (1, None): 1, (1, 2): 1, (-1, None): 1, (None, -1): 0}.get((num(lo), num(hi))) if num(st) in (None, 1) else None
                if k == -1:
                    k = 1
                if k == -2:
                    k = 0
            lab = self.indicator(b.args[0].args[0])
            if lab is None:
                return frozenset() if not self.fits_of(b) else UNK
            if k not in (0, 1) or lab["SRC"] == lab["TGT"]:
                return UNK
            first = min(lab, key=lambda r: lab[r])
            pos = first if k == 0 else ("TGT" if first == "SRC" else "SRC")
            return frozenset([(pos, 1, "p")])
        return self.get(b)

    def fits_of(self, call):
        return any(self.fits.get(a.root.id) for a in self.objs(call.args[0].args[0]))

    def t_item(self, n):
        return UNK if self.get(n.args[0]) else frozenset()

    def t_call(self, n):
        t = tail(n)
        c = n.args[0]
        if c.op == "attr" and t in ("score_samples", "logpdf", "pdf") and c.args[0].op != "ext":
            o = c.args[0]
            if t != "score_samples" and o.op == "call" and len(o.args) > 1:
                return self.gauss(o.args[1], o.args[2] if len(o.args) > 2 else o.kw.get("cov"), n)
            r = self.fitted_on(o, n)
            return frozenset([(r, 1)]) if r in BOTH else UNK if any(self.fits.get(a.root.id) for a in self.objs(o)) else frozenset()
        if t in ("pdf", "logpdf"):
            m = n.kw.get("mean") or (n.args[2] if len(n.args) > 2 else None)
            v = n.kw.get("cov") or (n.args[3] if len(n.args) > 3 else None)
            return self.gauss(m, v, n) if m is not None else UNK
        if t in ("predict_proba", "predict_log_proba") and c.op == "attr":
            return UNK if self.fits_of(n) else frozenset()
        if t in REDUCE:
            return frozenset()
        a = c.args[0] if c.op == "attr" and c.args[0].op != "ext" else n.args[1] if len(n.args) > 1 else None
        if t in SAMEDIR and a is not None:
            return self.get(a)
        if len(n.args) == 3:
            x, y = self.get(n.args[1]), self.get(n.args[2])
            if t in ("subtract", "divide", "true_divide"):
                return x | self.neg(y)
            if t in ("multiply", "add", "logaddexp"):
                return x | y
        if t == "where" and len(n.args) == 4:
            return self.get(n.args[2]) | self.get(n.args[3])
        if t == "reciprocal" and a is not None:
            return self.neg(self.get(a))
        if t in ("zeros_like", "ones_like", "full_like", "empty_like", "zeros", "ones", "full"):
            return frozenset()
        return self.t_default(n)

    def gauss(self, m, v, n):
        r, q = self.role_of(m), self.role_of(v) if v is not None else self.role_of(m)
        if r in BOTH and q in BOTH and r != q:
            self.mixed.append((n, "a density has the mean of one domain and the covariance of the other"))
            return UNK
        for x, what in ((m, "mean"), (v, "covariance")):
            if x is not None and self.pooled(x):
                self.mixed.append((n, f"the {what} of a density is that of the samples of both domains"))
                return UNK
        return frozenset([(r, 1)]) if r in BOTH else UNK

    def pooled(self, n):
        """Computed from all samples, and from no selection of them."""
        rs = set()
        for x in walk(n):
            for k in self.R.rows.get(x):
                if k.kind == "arr" and x.op not in ("const",):
                    rs.add(role(k.rows) if k.rows != ("all", "N") else "ALL")
        return rs == {"ALL"}


def judge(ctx, D, n, con, site, what):
    s = D.get(n)
    for m in D.mixed:
        ctx.bad("ratio", con, m[0].site or site, m[1])
    name = {"SRC": "source", "TGT": "target"}
    if D.mixed or D.onesided or not s:
        return
    for x in arithmetic(n, EVEN):
        a = even(x)
        if a is not None and {y[:2] for y in D.get(a) if y != "?"} in ({("TGT", 1), ("SRC", -1)}, {("TGT", -1), ("SRC", 1)}) and "?" not in D.get(a):
            ctx.bad("ratio", con, x.site or site, f"{what} grow with the ratio of the densities and with its inverse")
            return
    evaluated(ctx, D, n, con, site, what)
    counts(ctx, D, n, con, site, what)
    known = {x[:2] for x in s if x != "?"}
    if "?" not in s and len({r for r, _ in known}) == 1 and len(known) == 2:
        ctx.bad("ratio", con, site, f"{what} compare a density of {name[next(iter(known))[0]]} samples with itself")
    elif "?" in s or any((r, -d) in known for r, d in known):
        ctx.und("ratio", con, site, f"{what}: densities combined in an unknown way")
    elif known == {("TGT", 1), ("SRC", -1)}:
        ctx.ok("ratio", con, site)
    elif known == {("TGT", -1), ("SRC", 1)}:
        ctx.bad("ratio", con, site, f"{what} grow with the source density and fall with the target density")
    else:
        ctx.bad("ratio", con, site, f"{what} vary as " + " and ".join(f"{'' if d > 0 else 'the inverse of '}the {name[r]} density" for r, d in sorted(known)) + ": not target over source")


EVEN = frozenset(["abs", "absolute", "fabs", "square", "cosh"])


def even(x):
    """What an even function is applied to."""
    if x.op == "call" and tail(x) in EVEN:
        return x.args[0].args[0] if x.args[0].op == "attr" and x.args[0].args[0].op != "ext" else x.args[1] if len(x.args) > 1 else None
    if x.op == "bin" and x.val == "Pow" and num(x.args[1]) in (2, 4) and x.args[0].op == "bin" and x.args[0].val == "Sub":
        return x.args[0]
    return None


def arithmetic(n, more=frozenset()):
    """Nodes of the elementwise computation that gives a value."""
    out, seen, stack = [], set(), [n]
    while stack:
        x = stack.pop()
        if x is None or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.op in ("bin", "aug", "unary", "phi"):
            stack.extend(x.args[:2] if x.op == "aug" else x.args)
        elif x.op == "sub":
            stack.append(x.args[0])
        elif x.op == "call" and (tail(x) in SAMEDIR or tail(x) in more):
            c = x.args[0]
            stack.append(c.args[0] if c.op == "attr" and c.args[0].op != "ext" else x.args[1] if len(x.args) > 1 else None)
    return out


def onesided(ctx, D, con):
    for x, r in D.onesided:
        ctx.bad("domains", con, x.site, f"the domain classifier is given {'source' if r == 'SRC' else 'target'} samples as both domains")


def evaluated(ctx, D, n, con, site, what):
    """The two densities are those of the same samples."""
    at = []
    for x in arithmetic(n):
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[0].op != "ext" and tail(x) in ("score_samples", "predict_proba", "pdf", "logpdf") and len(x.args) > 1 and D.get(x):
            k = kinds(D.R.rows.get(x.args[1]), ("arr",))
            if k and len(k) == len(D.R.rows.get(x.args[1])):
                at.append(k)
    bad = any(all(differ(p.rows, q.rows) for p in a for q in b) for i, a in enumerate(at) for b in at[i + 1 :])
    if bad:
        ctx.bad("samples", con, site, f"{what} combine densities of different samples")
    elif len(at) > 1:
        ctx.ok("samples", con, site)


def factors(n, sgn=1):
    """(factor, exponent sign) of a product."""
    if n.op in ("bin", "aug") and n.val in ("Mult", "Div"):
        return factors(n.args[0], sgn) + factors(n.args[1], sgn if n.val == "Mult" else -sgn)
    return [(n, sgn)]


def counts(ctx, D, n, con, site, what):
    """Probabilities of the domains are made densities by the numbers of their samples."""
    for x in arithmetic(n):
        if not (x.op in ("bin", "aug") and x.val in ("Mult", "Div")):
            continue
        nums, dens = {}, {}
        for f, g in factors(x):
            s = D.get(f)
            if len(s) == 1 and next(iter(s)) != "?" and next(iter(s))[2:] == ("p",):
                dens[next(iter(s))[0]] = next(iter(s))[1] * g
            elif f.op == "call" and callee_name(f) == "builtins.len" and len(f.args) == 2 or f.op == "sub" and f.args[0].op == "attr" and f.args[0].val == "shape":
                r = D.role_of(f.args[1] if f.op == "call" else f.args[0].args[0])
                if r in BOTH:
                    nums[r] = g
        if set(nums) == BOTH == set(dens) and nums["SRC"] == -nums["TGT"] and dens["SRC"] == -dens["TGT"]:
            ctx.check(nums["SRC"] == -dens["SRC"], "counts", con, site, f"{what} multiply the probabilities by the ratio of the sample numbers instead of dividing by it")


# ------------------------------------------------------------------ the rule
def run(ctx):
    n = 0
    for _, c, R in class_runs(ctx, ("adapters",)):
        if c.find("compute_weights") is None:
            continue
        n += 1
        con = f"{c.full}.compute_weights"
        X = [a["X"] for k, a in R.args.items() if "X" in a]
        D = Direction(R, X)
        w = handed(ctx, c, R)
        for a in w:
            zero(ctx, R, a, con, option(c))
            for v, site, at in stored(R, a):
                judge(ctx, D, v, con, site, "the weights")
                if at:
                    rows(ctx, R, v, con, site)
        onesided(ctx, D, con)
        counted(ctx, D, R, con)
        likelihood(ctx, R, f"{c.full}.fit")
    for _, c, R in class_runs(ctx, ("scorers",)):
        X = R.args.get(("_score", "M"), {}).get("X")
        r = R.results.get(("_score", "M"))
        if X is None or r is None:
            continue
        D = Direction(R, [X])
        con = f"{c.full}._score"
        for ev in scoring_calls(R):
            v = ev.node.kw.get("sample_weight")
            if v is not None:
                judge(ctx, D, v, con, ev.site, "the weights")
        topmost(ctx, D, r, con)
        onesided(ctx, D, con)
    for _, c, R in class_runs(ctx, ("adapters", "estimators")):
        normalised(ctx, R, c)
    ctx.need(n, 4, "reweighting adapters")


def likelihood(ctx, R, con):
    """The logarithm of modelled weights is summed over target samples."""
    for ev in R.e.events:
        n = ev.node
        if ev.kind != "call" or ev.phase not in ("fit", "fit_transform") or n is None or n.op != "call" or tail(n) not in ("sum", "mean", "nansum", "nanmean") or n.args[0].op != "ext" or len(n.args) != 2:
            continue
        g = n.args[1]
        if g.op != "call" or tail(g) != "log" or len(g.args) != 2:
            continue
        m = g.args[1]
        if not (m.op == "bin" and m.val == "MatMult" or m.op == "call" and tail(m) in ("dot", "matmul")):
            continue
        rs = {role(x.rows) if x.kind == "arr" and x.rows is not None else None for x in R.rows.get(m)}
        if rs == {"SRC"}:
            ctx.bad("likelihood", con, ev.site, "the likelihood of the weights is taken over source samples")
        elif rs == {"TGT"}:
            ctx.ok("likelihood", con)


TOTALS = {"sum", "mean", "max", "nansum", "norm"}


def given_weights(R, n):
    """The kind of domain that weights given by the caller were taken for."""
    alts = [a for a in flat_alts(n) if not (a.op == "const" and a.val is None)]
    if len(alts) != 1:
        return None
    n = alts[0]
    b, d = n.root, 0
    while d < 8 and b.op in ("sub", "item", "call", "attr", "loop") and b.args:
        b, d = (b.args[0] if b.op != "call" else b.args[1] if b.args[0].op == "ext" and len(b.args) > 1 else b.args[0].args[0] if b.args[0].op == "attr" else b.args[0]).root, d + 1
    if b.op != "param" or b.val != "sample_weight":
        return None
    rs = {role(x.rows) for x in R.rows.get(n) if x.kind == "arr" and x.rows is not None}
    return rs.pop() if len(rs) == 1 else None


def normalised(ctx, R, c):
    """Weights that the caller gave are divided by the total of the same weights."""
    for ev in R.e.events:
        n = ev.node
        if ev.kind not in ("bin", "aug") or n is None or n.op not in ("bin", "aug") or n.val != "Div":
            continue
        q = n.args[1]
        if q.op != "call" or tail(q) not in TOTALS:
            continue
        of = q.args[0].args[0] if q.args[0].op == "attr" else q.args[1] if len(q.args) > 1 else None
        a, b = given_weights(R, n.args[0]), given_weights(R, of) if of is not None else None
        if a in ("SRC", "TGT") and b in ("SRC", "TGT"):
            ctx.check(a == b, "normalised", f"{c.full}: {ev.site.func}", ev.site, "the weights of the samples of one domain are normalised by the total of the other domain")


def counted(ctx, D, R, con):
    """Weights by counting which source samples the target samples are close to: the counts
    are those of target samples, and are stored where they were counted."""
    for ev in R.e.events:
        if ev.kind == "call" and tail(ev.node) in ("unique", "bincount") and len(ev.node.args) > 1:
            a = ev.node.args[1]
            rows_ = R.rows.get(a)
            src = [x for x in flat_alts(a) if x.op == "call" and x.args[0].op == "attr" and x.args[0].val in ("predict", "kneighbors") and len(x.args) > 1]
            for x in src:
                if D.fitted_on(x.args[0].args[0], x) == "SRC" and D.pooled(x.args[1]):
                    ctx.bad("counted", con, ev.site, "the neighbours of samples of both domains are counted, not those of target samples")
                elif D.fitted_on(x.args[0].args[0], x) == "SRC" and D.role_of(x.args[1]) == "SRC":
                    ctx.bad("counted", con, ev.site, "the neighbours of source samples are counted, not those of target samples")
                elif D.role_of(x.args[1]) == "TGT":
                    ctx.ok("counted", con, ev.site)
        b = i = v = None
        if ev.kind == "aug" and ev.base is not None and ev.base.op == "sub":
            b, i, v = ev.base.args[0], ev.base.args[1], ev.value
        elif ev.kind == "setitem":
            b, i, v = ev.base, ev.index, ev.value
        if v is None or i is None:
            continue
        for x in walk(v):
            if x.op == "item" and x.val == 1 and x.args[0].op == "call" and tail(x.args[0]) == "unique" and "return_counts" in x.args[0].kw and not {"return_index", "return_inverse"} & set(x.args[0].kw):
                if i.op == "slice" or i.op == "item" and i.val == 1 and i.args[0] is x.args[0]:
                    ctx.bad("counted", con, ev.site, "counts are stored at other positions than those that were counted")
                elif i.op == "item" and i.args[0] is x.args[0]:
                    ctx.ok("counted", con, ev.site)


def handed(ctx, c, R):
    """Weights in what fit_transform hands on."""
    r = R.results.get(("fit_transform", "N"))
    out = []
    con = f"{c.full}.fit_transform"
    for a in flat_alts(r) if r is not None else []:
        if a.op != "tuple" or not a.args:
            continue
        d = a.args[-1]
        ws = None
        for x in flat_alts(d):
            if x.op == "dict" and all(k != "**" for k, _ in x.val):
                keys = {k for k, _ in x.val}
                ctx.check("sample_weight" in keys, "handed on", con, a.site, f"the weights are not handed on as sample_weight but as {sorted(map(str, keys))}")
                ws = [v for k, v in x.val if k == "sample_weight"]
        out += ws or []
    if not out:
        ctx.und("handed on", con, None, "result of unknown form")
    return [y for x in out for y in flat_alts(x)]


def stored(R, w):
    """(value, site, written at an index) for what is written into the weights."""
    out, cur, d = [], w, 0
    while cur is not None and d < 20:
        d += 1
        if cur.op == "update" and cur.val == "setitem":
            out.append((cur.args[2], cur.site, True))
            cur = cur.args[0]
        elif cur.op in ("aug", "bin"):
            cur = cur.args[0]
        elif cur.op == "call" and tail(cur) == "where" and len(cur.args) == 4:
            out.append((cur.args[2], cur.site, False))
            out.append((cur.args[3], cur.site, False))
            break
        else:
            break
    return out


def option(c):
    """Size of a value that the user may choose: that of its default (a guard against division by
    zero stays one), at least one for those meant for something else, None for other values."""
    d = {}
    f = c.find("__init__")
    if f is not None:
        a = f.node.args
        for p, v in list(zip(reversed(a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool):
                d[p.arg] = v.value
    d = {p: v if "eps" in p else max(v, 1) for p, v in d.items()}
    return lambda n: d.get(n.val) if n is not None and n.op == "param" and not (n.extra or {}).get("array") else None


def zero(ctx, R, w, con, chosen):
    def size(n):
        return num(n) if num(n) is not None else chosen(n)

    cur, d = w, 0
    while d < 20:
        d += 1
        if cur.op == "update" and cur.val == "setitem":
            i = R.rows.index_value(cur.args[1])
            rs = {x.pol if x.kind == "mask" else role(x.rows) if x.kind == "idx" else None for x in i}
            if rs == {"SRC"}:
                pass
            elif "TGT" in rs and size(cur.args[2]) != 0:
                ctx.bad("zero", con, cur.site, "weights are written at the positions of target samples")
                return
            elif rs != {"TGT"}:
                ctx.und("zero", con, cur.site, "positions of unknown role")
                return
            cur = cur.args[0]
        elif cur.op == "aug" or cur.op == "bin":
            v = size(cur.args[1])
            if cur.val in ("Mult", "Div"):
                cur = cur.args[0]
            elif cur.val in ("Add", "Sub") and v is not None:
                if abs(v) > 1e-9:
                    ctx.bad("zero", con, cur.site, f"{name(cur.args[1])} is added to the weights of target samples")
                    return
                cur = cur.args[0]
            else:
                ctx.und("zero", con, cur.site, "arithmetic of unknown effect on zeros")
                return
        elif cur.op == "call" and tail(cur) in ALLOC0:
            ctx.ok("zero", con, cur.site)
            return
        elif cur.op == "call" and tail(cur) in ALLOC and cur is not w:
            t = tail(cur)
            v = size(cur.args[2]) if t.startswith("full") and len(cur.args) > 2 else None
            if v == 0:
                ctx.ok("zero", con, cur.site)
            elif t.startswith("full") and len(cur.args) > 2 and summary(cur.args[2], w):
                ctx.bad("zero", con, cur.site, "weights of target samples are a summary of the weights of source samples")
            elif t.startswith("full") and v is None:
                ctx.und("zero", con, cur.site, "fill value not known")
            else:
                ctx.bad("zero", con, cur.site, f"weights of target samples are {ALLOC[t] if not t.startswith('full') else name(cur.args[2])}")
            return
        elif cur.op == "call" and tail(cur) == "where" and len(cur.args) == 4:
            rs = {x.pol for x in R.rows.get(cur.args[1]) if x.kind == "mask"}
            other = cur.args[3] if rs == {"SRC"} else cur.args[2] if rs == {"TGT"} else None
            v = size(other) if other is not None else None
            if v == 0:
                ctx.ok("zero", con, cur.site)
            elif v is not None:
                ctx.bad("zero", con, cur.site, f"weights of target samples are {name(other)}")
            else:
                ctx.und("zero", con, cur.site, "selection of unknown form")
            return
        else:
            ctx.und("zero", con, getattr(cur, "site", None), "weights of unknown form")
            return


def name(n):
    return n.val if n.op in ("param", "const") else num(n)


def summary(n, w):
    """A reduction (smallest, mean, ...) of the values that are stored as weights."""
    vals = {x.id for _, x in ((0, y) for y in stored_values(w))}
    a = None
    if n.op == "call" and tail(n) in ("min", "mean", "median", "max", "amin", "amax"):
        a = n.args[0].args[0] if n.args[0].op == "attr" and n.args[0].args[0].op != "ext" else n.args[1] if len(n.args) > 1 else None
    return a is not None and any(x.id in vals for x in flat_alts(a))


def stored_values(w):
    cur, d = w, 0
    while cur is not None and cur.op == "update" and d < 20:
        d += 1
        yield from flat_alts(cur.args[2])
        cur = cur.args[0]


def rows(ctx, R, v, con, site):
    k = kinds(R.rows.get(v), ("arr",))
    if not k or len(k) != len(R.rows.get(v)):
        return
    bad = [x for x in k if role(x.rows) == "TGT" or differ(x.rows, ("sel", ("all", "N"), "SRC"))]
    ctx.check(not bad, "rows", con, site, "the weights stored for source samples describe other samples")


def topmost(ctx, D, r, con):
    seen, stack = set(), [r]
    while stack:
        n = stack.pop()
        if n is None or n.id in seen or not hasattr(n, "op"):
            continue
        seen.add(n.id)
        s = D.get(n)
        if {x[0] for x in s if x != "?"} == {"SRC", "TGT"} and "?" not in s:
            judge(ctx, D, n, con, n.site, "the weights")
            continue
        stack.extend(a for a in n.args if a is not None)
        stack.extend(n.kw.values())
