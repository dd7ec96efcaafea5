"""Facets: abstract values computed over the value-flow graph."""

from collections import namedtuple

from .vf import STATEFUL, Node, callee_name, flat_alts


class Facet:
    """Sparse data-flow over value nodes with a fixpoint at loop nodes."""

    bottom = frozenset()
    cap = 10

    def __init__(self):
        self.memo = {}
        self.active = {}
        self.iterating = 0

    def join(self, a, b):
        r = a | b
        return r if len(r) <= self.cap else self.top()

    def top(self):
        return frozenset()

    def get(self, n):
        if n is None:
            return self.bottom
        if n.id in self.memo:
            return self.memo[n.id]
        if n.id in self.active:
            return self.active[n.id]
        if n.op == "loop":
            val = self.bottom
            for _ in range(12):
                self.active[n.id] = val
                keep = set(self.memo)
                new = self.bottom
                for a in n.args:
                    new = self.join(new, self.get(a))
                for k in set(self.memo) - keep:
                    del self.memo[k]
                if new == val:
                    break
                val = new
            else:
                val = self.top()
            del self.active[n.id]
            if not self.active:
                self.memo[n.id] = val
            else:
                self.memo[n.id] = val
            return val
        self.active[n.id] = self.bottom
        try:
            v = self.transfer(n)
        finally:
            del self.active[n.id]
        self.memo[n.id] = v
        return v

    def transfer(self, n):
        m = getattr(self, "t_" + n.op, None)
        if m is not None:
            return m(n)
        return self.t_default(n)

    def t_default(self, n):
        r = self.bottom
        for a in n.args:
            r = self.join(r, self.get(a))
        return r

    def t_phi(self, n):
        r = self.bottom
        for a in n.args:
            r = self.join(r, self.get(a))
        return r


# --------------------------------------------------------------------------- rows
RV = namedtuple("RV", "kind rows pol over cols", defaults=(None,))
# kind: arr | dom | domval | mask | idx | pos | count | shape | neutral | top
# over: what the second axis stands for (arr), the samples that are picked from (mask, idx)


def arr(rows, cols=None):
    return RV("arr", rows, None, cols)


def strip_fresh(r):
    return r[1] if r is not None and r[0] == "fresh" else r


def cols_of(x):
    return x.over if x.kind == "arr" else x.cols if x.kind == "mask" else None


TOP = RV("top", None, None, None)
NEUTRAL = RV("neutral", None, None, None)


def neg(pol):
    if pol == "SRC":
        return "TGT"
    if pol == "TGT":
        return "SRC"
    if isinstance(pol, tuple) and pol[0] == "not":
        return pol[1]
    if isinstance(pol, tuple) and pol[0] == "badsign":
        return ("badsign", "not " + pol[1])
    return ("not", pol)


def sel(rows, pol):
    if rows is None:
        return None
    if pol in ("SRC", "TGT"):
        if rows[0] == "sel" and rows[2] == pol:
            return rows
        if rows[0] == "cat":
            kept = [r for r in rows[1:] if role(r) == pol]
            if all(role(r) is not None for r in rows[1:]):
                if len(kept) == 1:
                    return kept[0]
    return ("sel", rows, pol)


def role(rows):
    """'SRC'/'TGT' when every sample of the row space has that role."""
    while rows is not None and rows[0] in ("sel", "take"):
        if rows[2] in ("SRC", "TGT"):
            return rows[2]
        rows = rows[1]
    if rows is not None and rows[0] == "cat":
        rs = {role(r) for r in rows[1:]}
        if len(rs) == 1:
            return rs.pop()
    return None


def base_of(rows):
    while rows is not None and rows[0] in ("sel", "take"):
        rows = rows[1]
    if rows is not None and rows[0] == "all":
        return rows[1]
    return None


def count_equiv(a, b):
    if a is None or b is None or a == b:
        return True
    if any(r[0] == "fresh" for r in (a, b)):
        return True

    def multi(r):
        if r[0] == "cat":
            out = []
            for x in r[1:]:
                out.extend(multi(x))
            return out
        return [r]

    A, B = multi(a), multi(b)
    # sel SRC + sel TGT of one space == the space
    def collapse(L):
        L = list(L)
        changed = True
        while changed:
            changed = False
            for x in L:
                if x[0] == "sel":
                    y = ("sel", x[1], neg(x[2]))
                    if y in L:
                        L.remove(x)
                        L.remove(y)
                        L.append(x[1])
                        changed = True
                        break
        return sorted(L, key=repr)

    return collapse(A) == collapse(B)


def rows_str(r):
    if r is None:
        return "?"
    if r[0] == "all":
        return f"all samples of {r[1]}"
    if r[0] == "sel":
        p = {"SRC": "source", "TGT": "target"}.get(r[2], "selected")
        return f"{p} samples of [{rows_str(r[1])}]"
    if r[0] == "cat":
        return "concatenation of (" + ", ".join(rows_str(x) for x in r[1:]) + ")"
    if r[0] == "take":
        return f"indexed samples of [{rows_str(r[1])}]"
    if r[0] == "fresh":
        return "a new array"
    return str(r)


SAME = {
    "check_array", "to_tensor", "to_numpy", "to_device", "asarray", "array", "copy", "ascontiguousarray", "asfortranarray", "abs", "absolute", "sqrt", "exp", "log", "log2",
    "isnan", "isfinite", "nan_to_num", "clip", "square", "normalize", "as_tensor", "tensor", "from_numpy", "sigmoid", "negative", "maximum", "minimum",
    "softmax", "log_softmax", "one_hot", "column_or_1d", "check_X", "argsort_rows", "power", "float32", "safe_mask", "_safe_indexing_none", "real", "relu",
}
REDUCE = {"sum", "mean", "max", "min", "argmax", "argmin", "norm", "std", "var", "prod", "any", "all", "amax", "amin", "logsumexp", "nanmean", "nansum", "nanmax", "nanmin", "median"}
ALLOC_LIKE = {"zeros_like", "ones_like", "empty_like", "full_like"}
ALLOC = {"zeros", "ones", "empty", "full"}
ROWWISE_METH = {"predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "score_samples", "fit_transform", "fit_predict", "inverse_transform", "kneighbors_graph", "predict_features"}
SAME_METH = {"astype", "copy", "detach", "numpy", "cpu", "to", "float", "long", "double", "int", "clone", "requires_grad_", "clip", "toarray", "todense", "type", "cuda", "abs", "exp", "log", "sigmoid", "softmax", "contiguous"}
PAIRWISE = {"pairwise_kernels", "cdist", "euclidean_distances", "pairwise_distances", "dist", "rbf_kernel", "linear_kernel", "polynomial_kernel", "sigmoid_kernel", "laplacian_kernel", "cosine_similarity", "pairwise_distances_argmin"}


DOM_ATTRS = ("sample_domain", "sample_domains", "sample_domain_")


def seq_parts(s, d=0):
    """Elements, in order, of a list or tuple whose elements are known; elements that may be
    left out are included."""
    if s is None or d > 12:
        return None
    if s.op in ("tuple", "list"):
        return list(s.args)
    if s.op == "comp":
        return (s.extra or {}).get("parts")
    if s.op == "update" and s.val == "append":
        p = seq_parts(s.args[0], d + 1)
        return None if p is None else p + [s.args[2]]
    if s.op == "phi":
        ps = [seq_parts(a, d + 1) for a in s.args]
        if any(p is None for p in ps):
            return None
        m = max(ps, key=len)
        for p in ps:
            it = iter(m)
            if not all(any(x is y for y in it) for x in p):
                return None
        return m
    return None


def callee_tail_of(n):
    return (n.val or "").split(".")[-1] if n.op == "ext" else None


class Rows(Facet):
    """Which samples, in which order, the first axis of a value stands for."""

    def __init__(self, engine, seeds):
        super().__init__()
        self.e = engine
        self.seeds = seeds  # node id -> RV
        self.badsign = {}

    def top(self):
        return frozenset([TOP])

    def join(self, a, b):
        r = a | b
        if len(r) > 1:
            # a new array that may not have been filled yet
            r = frozenset(x for x in r if not (x.kind == "arr" and x.rows is not None and x.rows[0] == "fresh" and x.rows[1] is not None and x._replace(rows=x.rows[1]) in r))
        return r if len(r) <= self.cap else self.top()

    def one(self, *a):
        return frozenset(a)

    def t_default(self, n):
        return self.top()

    def t_param(self, n):
        v = self.seeds.get(n.id)
        return frozenset([v]) if v is not None else self.top()

    def t_const(self, n):
        return self.one(NEUTRAL)

    def t_attr0(self, n):
        if n.val in DOM_ATTRS:
            return self.one(RV("dom", ("all", ("of", self.e.key(n))), None, None))
        return self.top()

    def t_loop(self, n):
        return self.t_phi(n)

    def known(self, v):
        return [x for x in v if x.kind not in ("top", "neutral")]

    # -- structure
    def t_tuple(self, n):
        return self.top()

    def t_list(self, n):
        if not n.args:
            return self.one(NEUTRAL)
        return self.top()

    def t_attr(self, n):
        b = self.get(n.args[0])
        if n.val == "shape":
            return frozenset(RV("shape", x.rows, None, None, cols_of(x)) if x.rows is not None and x.kind != "shape" else TOP for x in b) or self.top()
        if n.val in ("values", "data", "real"):
            return b
        if n.val == "T":
            return frozenset(RV("arr", x.over, None, x.rows) if x.kind == "arr" and x.over is not None else TOP for x in b) or self.top()
        if n.val in ("plan", "coupling_"):
            return self.plan(n)
        if n.val in DOM_ATTRS:
            return self.one(RV("dom", ("all", ("of", self.e.key(n))), None, None))
        if n.val == "size":
            return frozenset(RV("count", x.rows, None, None) if x.kind in ("dom", "mask", "idx") else TOP for x in b) or self.top()
        return self.top()

    def plan(self, n):
        """A transport plan: source samples by target samples."""
        o = n.args[0].root
        if n.val == "plan" and o.op == "call" and callee_name(o) == "ot.solve" and len(o.args) > 1:
            return frozenset(x for x in self.get(o.args[1]) if x.kind == "arr" and x.over is not None) or self.top()
        if n.val == "coupling_":
            for ev in self.e.events:
                if ev.kind == "call" and callee_name(ev.node) == ".fit" and ev.node.args[0].args[0].root is o and {"Xs", "Xt"} <= set(ev.node.kw):
                    s, t = ([x.rows for x in self.get(ev.node.kw[k])] for k in ("Xs", "Xt"))
                    if len(s) == len(t) == 1 and s[0] is not None and t[0] is not None:
                        return self.one(arr(s[0], t[0]))
        return self.top()

    def t_update(self, n):
        base, idx, val = n.args
        b = self.get(base)
        if n.val == "setitem" and idx is not None and self.first_index(idx).op == "slice":
            return self.fill(b, self.first_index(idx), val)
        if n.val == "setitem" and idx is not None:
            out = set()
            i = self.index_value(idx)
            masks = [x for x in i if x.kind in ("mask", "idx") and x.over is not None]
            for x in b:
                if x.rows is not None and x.rows[0] == "fresh" and masks and len({m.over for m in masks}) == 1:
                    out.add(x._replace(rows=masks[0].over))
                else:
                    out.add(x)
            return frozenset(out)
        if n.val == "shuffle":
            # each shuffle is an order of its own
            return frozenset(x._replace(rows=("take", x.rows, ("k", ("shuffle", n.id)))) if x.kind in ("arr", "dom", "idx") and x.rows is not None and x.rows[0] != "fresh" else TOP for x in b)
        return b

    def fill(self, b, i, val):
        """A new array filled part by part, from the start on."""
        lo, hi, st = i.args
        vs = {x.rows for x in self.get(val) if x.kind in ("arr", "dom", "mask") and x.rows is not None and x.rows[0] != "fresh"}
        if len(vs) != 1 or not (st.op == "const" and st.val is None):
            return b
        v = vs.pop()
        none = lambda a: a.op == "const" and a.val in (None, 0)
        if none(lo) and hi.op == "const" and hi.val is None:
            return frozenset(x._replace(rows=v) if x.kind == "arr" and x.rows is not None and x.rows[0] == "fresh" and x.rows[1] is not None and count_equiv(x.rows[1], v) else x for x in b)
        count = lambda a: {x.rows for x in self.get(a) if x.kind == "count" and x.rows is not None and x.rows[0] != "fresh"}
        out = set()
        for x in b:
            r = x.rows
            if r is not None and r[0] == "fresh" and none(lo) and count(hi) == {v} and v != r[1]:
                out.add(x._replace(rows=("cat", v, ("?",))))
            elif r is not None and r[0] == "cat" and r[-1] == ("?",) and count(lo) in ({r[1]}, {("cat",) + r[1:-1]}) and hi.op == "const" and hi.val is None and not none(lo):
                out.add(x._replace(rows=r[:-1] + (v,)))
            elif r is not None and (r[0] == "fresh" or r[0] == "cat" and r[-1] == ("?",)):
                out.add(TOP)
            else:
                out.add(x)
        return frozenset(out)

    def first_index(self, i):
        if i.op == "tuple" and i.args:
            return i.args[0]
        return i

    def index_value(self, i):
        """Rows picked by an index; the tuple of np.where(mask) picks what its item picks."""
        fi = self.first_index(i)
        if fi.op == "call":
            r = self.nonzero_item(fi, 0)
            if r is not None:
                return self.one(r)
        return self.get(fi)

    def t_sub(self, n):
        b, i = self.get(n.args[0]), n.args[1]
        base = n.args[0]
        if i.op == "const" and isinstance(i.val, int) and not isinstance(i.val, bool):
            out = set()
            for x in b:
                if x.kind == "shape" and i.val in (0, 1):
                    out.add(self.extent(x, i.val))
                elif x.kind == "domval":
                    out.add(x)
                elif x.kind == "dom":
                    out.add(RV("domval", None, None, None))
                else:
                    out.add(self.nonzero_item(base, i.val) or TOP)
            return frozenset(out) or self.top()
        if i.op == "const" and i.val in DOM_ATTRS:
            return self.one(RV("dom", ("all", ("of", self.e.key(n))), None, None))
        # newaxis / full slices keep the rows
        fi = self.first_index(i)
        if i.op == "tuple" and fi.op == "const" and fi.val is None:
            return self.top()
        if fi.op == "slice":
            lo, hi, st = fi.args
            if all(a.op == "const" and a.val is None for a in (lo, hi, st)):
                if i.op == "tuple" and not all(a.op == "slice" and all(z.op == "const" and z.val is None for z in a.args) for a in i.args):
                    b = frozenset(x._replace(over=None) if x.kind == "arr" else x._replace(cols=None) for x in b)
                return frozenset(x if x.kind in ("arr", "dom", "mask", "idx") else TOP for x in b) or self.top()
            return self.slice_rows(b, lo, hi, st)
        if i.op == "const" and i.val is Ellipsis:
            return b
        iv = self.index_value(i)
        out = set()
        for x in b:
            if x.rows is None or x.kind in ("shape", "count"):
                # a mapping or unknown base
                if x.kind == "domval":
                    out.add(x)
                elif x.kind == "top" and self.positions(fi):
                    # a table looked up for every sample
                    out |= {arr(m.rows) if m.rows is not None and m.kind in ("arr", "idx") else TOP for m in iv}
                else:
                    out.add(TOP)
                continue
            for m in iv:
                if m.kind == "pos":
                    out.add(TOP)
                elif m.kind == "idx" and m.over is not None and m.rows is not None:
                    out.add(self.select(x, m.rows))
                elif m.kind in ("mask", "idx") and m.over is not None:
                    if x.rows[0] == "fresh":
                        out.add(x._replace(rows=sel(m.over, m.pol)))
                    else:
                        same = m.over == x.rows or m.over[0] == "fresh" and m.over[1] is not None and count_equiv(m.over[1], x.rows)
                        out.add(self.select(x, sel(x.rows, m.pol) if same else (sel(m.over, m.pol) if m.over else None)))
                elif m.kind == "idx":
                    out.add(self.select(x, ("take", x.rows, m.pol)))
                elif m.kind in ("top", "arr", "mask"):
                    out.add(self.select(x, ("take", x.rows, self.sorting(fi, x) or self.drawn(fi))))
                else:
                    out.add(TOP)
        return frozenset(out) or self.top()

    def positions(self, i):
        """Whether the values of an index array are positions: it gives one row for each."""
        i = i.root
        while i.op == "call" and i.args[0].op == "attr" and i.args[0].val in ("astype", "ravel", "copy"):
            i = i.args[0].args[0]
        if i.op == "item" and i.val == 1:
            return i.args[0].op == "call" and callee_name(i.args[0]) == "numpy.unique" and "return_inverse" in i.args[0].kw
        return i.op == "call" and (callee_name(i) or "").split(".")[-1] in ("argmax", "argmin", "searchsorted", "digitize") 

    def sorting(self, i, x):
        """The order that sorts the domain labels of the same samples."""
        i = i.root
        if i.op != "call" or i.kw or (callee_name(i) or "").split(".")[-1] != "argsort":
            return None
        a = i.args[1] if len(i.args) == 2 and i.args[0].op == "ext" else i.args[0].args[0] if len(i.args) == 1 and i.args[0].op == "attr" else None
        v = self.get(a) if a is not None else ()
        if v and all(m.kind == "dom" and m.rows == x.rows for m in v) and x.rows[0] in ("all", "sel"):
            return ("order", "argsort", self.e.key(a))
        return None

    def drawn(self, i):
        """Identity of an unknown selection: the random draw it comes from, or its expression."""
        n, path, order = i, (), None
        for _ in range(8):
            if n.op == "call" and n.args[0].op in ("attr", "ext") and (n.args[0].val or "").split(".")[-1] in STATEFUL:
                return ("draw", n.id, path, order)
            if n.op == "elem" and n.args[0].op == "call" and n.args[0].args[0].op == "attr" and n.args[0].args[0].val == "split":
                return ("draw", ("split", n.args[0].id), path, order)
            if n.op == "item" or n.op == "sub" and n.args[1].op == "const":
                path = (n.val if n.op == "item" else n.args[1].val,) + path
                n = n.args[0]
            elif n.op == "call" and len(n.args) == 2 and n.args[0].op == "ext" and n.args[0].val.split(".")[-1] in ("asarray", "array", "list", "sort", "sorted", "copy", "flip"):
                order = order or (n.args[0].val.split(".")[-1] if n.args[0].val.split(".")[-1] in ("sort", "sorted", "flip") else None)
                n = n.args[1]
            elif n.op == "call" and n.args[0].op == "attr" and n.args[0].val in ("copy", "astype", "tolist"):
                n = n.args[0].args[0]
            else:
                break
        return ("k", self.e.key(i))

    def select(self, x, rows):
        if x.kind == "idx":
            return x._replace(rows=rows)
        if x.kind == "mask":
            return RV("arr", rows, None, None)
        return x._replace(rows=rows)

    def nonzero_item(self, base, k):
        if k == 0 and base.op == "call" and callee_name(base) in ("numpy.where", "numpy.nonzero", ".nonzero", "torch.where"):
            a = base.args[1] if len(base.args) == 2 else (base.args[0].args[0] if callee_name(base) == ".nonzero" else None)
            if a is not None:
                ms = [m for m in self.get(a) if m.kind == "mask"]
                if ms:
                    # a mask of known role is what the other ways of making it amount to
                    m = min(ms, key=lambda m: (m.pol not in ("SRC", "TGT"), repr(m)))
                    return RV("idx", sel(m.over, m.pol), m.pol, m.over)
        return None

    def slice_rows(self, b, lo, hi, st):
        if not (st.op == "const" and st.val is None):
            return self.top()
        out = set()
        lo_c = self.count_rows(lo)
        hi_c = self.count_rows(hi)
        for x in b:
            r = x.rows
            if r is None or x.kind not in ("arr", "dom", "mask"):
                out.add(TOP)
                continue
            lo0 = lo.op == "const" and lo.val in (None, 0)
            if lo0 and hi_c is not None and hi_c == r:
                out.add(x)
                continue
            if r[0] != "cat":
                c = hi_c if lo0 else lo_c if hi.op == "const" and hi.val is None else None
                n = hi if lo0 else lo if hi.op == "const" and hi.val is None else None
                if c is not None and r[0] in ("all", "sel") and c[0] in ("all", "sel", "take") and not count_equiv(c, r):
                    # the first, or all but the first, samples in the order of the array
                    out.add(x._replace(rows=("take", r, ("end", lo0, c))))
                elif c is None and n is not None and r[0] in ("all", "sel") and self.counted(n) is not None:
                    out.add(x._replace(rows=("take", r, ("end", lo0, self.counted(n)))))
                else:
                    out.add(TOP)
                continue
            parts = list(r[1:])
            start = 0
            if not (lo.op == "const" and lo.val in (None, 0)):
                s = self.prefix(parts, lo_c, lo)
                if s is None:
                    out.add(TOP)
                    continue
                start = s
            end = len(parts)
            if not (hi.op == "const" and hi.val is None):
                s = self.prefix(parts, hi_c, hi)
                if s is None:
                    out.add(TOP)
                    continue
                end = s
            p = parts[start:end]
            if not p:
                out.add(TOP)
            elif len(p) == 1:
                out.add(x._replace(rows=p[0]))
            else:
                out.add(x._replace(rows=("cat",) + tuple(p)))
        return frozenset(out) or self.top()

    def counted(self, n):
        """Sizes that are not those of the samples: of a draw, a parameter, a number."""
        if n.op == "call" and callee_name(n) == "builtins.len" and len(n.args) == 2:
            d = self.drawn(n.args[1])
            return d if d[0] == "draw" else None
        if n.op == "const" and isinstance(n.val, int) and not isinstance(n.val, bool) and n.val > 0:
            return ("number", n.val)
        if n.op in ("param", "attr0") and (n.extra or {}).get("role") == "ctor":
            return ("option", n.val)
        return None

    def prefix(self, parts, c, node):
        if node.op == "unary" and node.val == "USub":
            r = self.count_rows(node.args[0])
            for k in range(len(parts) + 1):
                suf = parts[k:]
                if r is not None and suf and ((len(suf) == 1 and suf[0] == r) or ("cat",) + tuple(suf) == r):
                    return k
            return None
        if c is None:
            return None
        for k in range(1, len(parts) + 1):
            pre = parts[:k]
            if (len(pre) == 1 and pre[0] == c) or ("cat",) + tuple(pre) == c or (len(pre) > 1 and c[0] != "fresh" and count_equiv(("cat",) + tuple(pre), c)):
                return k
        return None

    def count_rows(self, n):
        v = self.get(n)
        rs = {x.rows for x in v if x.kind == "count"}
        if len(rs) == 1 and all(x.kind in ("count", "neutral") for x in v):
            return rs.pop()
        return None

    def extent(self, x, k):
        r = strip_fresh(x.cols if k else x.rows)
        return RV("count", r, None, None) if r is not None else TOP

    def t_item(self, n):
        b = n.args[0]
        sh = self.get(b) if n.val in (0, 1) and b.op in ("attr", "phi") else ()
        if sh and all(x.kind == "shape" for x in sh):
            return frozenset(self.extent(x, n.val) for x in sh)
        r = self.nonzero_item(b, n.val)
        if r is not None:
            return self.one(r)
        if b.op == "call" and (callee_name(b) or "").endswith(".train_test_split") and isinstance(n.val, int) and 0 <= n.val < 2 * (len(b.args) - 1):
            out = set()
            for x in self.get(b.args[n.val // 2 + 1]):
                out.add(RV(x.kind if x.kind in ("arr", "dom") else "arr", ("take", x.rows, ("part", b.id, n.val % 2)), None, None) if x.rows is not None and x.rows[0] != "fresh" else TOP)
            return frozenset(out) or self.top()
        if n.val == 1 and b.op == "call" and (callee_name(b) or "").split(".")[-1] in ("eigh", "eig") and len(b.args) > 1:
            return frozenset(arr(x.rows) if x.kind == "arr" and x.rows is not None and x.rows[0] != "fresh" else TOP for x in self.get(b.args[1])) or self.top()
        if n.val == 1 and b.op == "call" and callee_name(b) == "numpy.unique" and "return_inverse" in b.kw and len(b.kw) == 1 and len(b.args) == 2:
            return frozenset(arr(x.rows) if x.kind in ("arr", "dom") and x.rows is not None else TOP for x in self.get(b.args[1])) or self.top()
        if b.op in ("elem", "item"):
            return self.where2(b, n.val)
        if b.op == "call" and (callee_name(b) or "").endswith(".indexable") and isinstance(n.val, int) and 0 <= n.val < len(b.args) - 1:
            return self.get(b.args[n.val + 1])
        if isinstance(n.val, int):
            return self.parts(b, n.val, set())
        return self.top()

    def where2(self, b, k):
        """Positions (i, j) of an element of a matrix: rows and columns."""
        if b.op == "item" and b.val == 1 and b.args[0].op == "elem" and self.called(b.args[0].args[0], "enumerate"):
            w = b.args[0].args[0].args[1]
        elif b.op == "elem":
            w = b.args[0]
            if self.called(w, "enumerate") and k == 0:
                return frozenset(RV("pos", x.rows, None, None) if x.kind in ("arr", "dom", "mask", "idx") and x.rows is not None else TOP for x in self.get(w.args[1])) or self.top()
        else:
            return self.top()
        if self.called(w, "zip") and len(w.args) == 3 and all(a.op == "item" and a.args[0] is w.args[1].args[0] for a in w.args[1:]):
            w = w.args[1].args[0] if [a.val for a in w.args[1:]] == [0, 1] else None
        if w is not None and (self.called(w, "argwhere") or self.called(w, "nonzero") or self.called(w, "where")) and len(w.args) == 2 and k in (0, 1):
            return frozenset(RV("pos", strip_fresh(x.rows if k == 0 else x.cols), None, None) if x.kind == "mask" and x.rows is not None and x.cols is not None else TOP for x in self.get(w.args[1])) or self.top()
        return self.top()

    @staticmethod
    def called(n, tail):
        return n.op == "call" and n.args[0].op == "ext" and n.args[0].val.split(".")[-1] == tail

    def parts(self, b, k, seen):
        """k-th part of the tuples a value can be (entries of a mapping included)."""
        if b is None or b.id in seen:
            return self.bottom
        seen.add(b.id)
        r = self.bottom
        if b.op in ("phi", "loop"):
            for a in b.args:
                r = self.join(r, self.parts(a, k, seen))
            return r
        if b.op in ("tuple", "list") and 0 <= k < len(b.args) and not any(a.op == "star" for a in b.args):
            return self.get(b.args[k])
        if b.op == "dval":
            return self.entries(b.args[0], k, seen)
        return self.top()

    def entries(self, d, k, seen):
        if d is None or d.id in seen:
            return self.bottom
        seen.add(d.id)
        if d.op == "update" and d.val == "setitem":
            return self.join(self.parts(d.args[2], k, seen), self.entries(d.args[0], k, seen))
        if d.op in ("phi", "loop"):
            r = self.bottom
            for a in d.args:
                r = self.join(r, self.entries(a, k, seen))
            return r
        if d.op == "dict":
            r = self.bottom
            for key, v in d.val:
                r = self.join(r, self.parts(v, k, seen) if key != "**" else self.top())
            return r
        if d.op == "dictcomp":
            return self.parts(d.args[1], k, seen)
        return self.top()

    def t_elem(self, n):
        v = self.get(n.args[0])
        out = set()
        for x in v:
            if x.kind in ("dom", "domval"):
                out.add(RV("domval", None, None, None))
            else:
                out.add(TOP)
        a = n.args[0]
        if self.called(a, "range") and len(a.args) == 2:
            return frozenset(RV("pos", strip_fresh(x.rows), None, None) if x.kind == "count" and x.rows is not None else TOP for x in self.get(a.args[1])) or self.top()
        return frozenset(out) or self.top()

    def t_dkey(self, n):
        d = n.args[0]
        if d.op == "phi":
            r = self.bottom
            for a in d.args:
                r = self.join(r, self.dkeys(a))
            return r
        return self.dkeys(d)

    def dkeys(self, d):
        r = self.bottom
        seen = set()

        def rec(m):
            nonlocal r
            if m is None or m.id in seen:
                return
            seen.add(m.id)
            if m.op == "update" and m.args[1] is not None:
                r = self.join(r, self.get(m.args[1]))
                rec(m.args[0])
            elif m.op in ("phi", "loop"):
                for a in m.args:
                    rec(a)
            elif m.op == "dict":
                for k, _ in m.val:
                    if isinstance(k, Node):
                        r = self.join(r, self.get(k))
            elif m.op == "dictcomp":
                r = self.join(r, self.get(m.args[0]))
            else:
                r = self.join(r, self.top())

        rec(d)
        return r or self.top()

    def t_dval(self, n):
        r = self.bottom
        seen = set()

        def rec(m):
            nonlocal r
            if m is None or m.id in seen:
                return
            seen.add(m.id)
            if m.op == "update" and m.val == "setitem":
                r = self.join(r, self.get(m.args[2]))
                rec(m.args[0])
            elif m.op in ("phi", "loop"):
                for a in m.args:
                    rec(a)
            elif m.op == "dict":
                for k, v in m.val:
                    r = self.join(r, self.get(v) if k != "**" else self.top())
            elif m.op == "dictcomp":
                r = self.join(r, self.get(m.args[1]))
            else:
                r = self.join(r, self.top())

        rec(n.args[0])
        return r or self.top()

    def t_comp(self, n):
        return self.top()

    # -- operators
    def t_unary(self, n):
        v = self.get(n.args[0])
        if n.val in ("Invert", "Not"):
            return frozenset(x._replace(pol=neg(x.pol)) if x.kind == "mask" else TOP for x in v) or self.top()
        if n.val == "USub":
            return frozenset(RV("arr", x.rows, ("negdom",) if x.kind == "dom" else None, None) if x.kind in ("arr", "dom") else TOP for x in v) or self.top()
        return v

    def t_cmp(self, n):
        l, r = n.args
        lv, rv = self.get(l), self.get(r)
        out = set()
        flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
        if n.val not in flip:
            return self.top()
        dl, dr = (any(x.kind in ("dom", "domval") for x in v) for v in (lv, rv))
        al, ar = (any(x.kind in ("dom", "arr", "idx", "mask") and x.rows is not None for x in v) for v in (lv, rv))
        # the array of domain labels (or the array) stands on the left
        if dr and not dl or dl == dr and ar and not al:
            l, r, lv, rv = r, l, rv, lv
            op = flip[n.val]
        else:
            op = n.val
        for x in lv:
            if x.kind in ("dom", "domval"):
                pol = self.dompol(op, l, r, n, x)
                out.add(RV("mask", x.rows, pol, x.rows))
            elif x.kind == "mask" and r.op == "const" and isinstance(r.val, (bool, int)):
                same = (op == "Eq") == bool(r.val)
                out.add(x if same else x._replace(pol=neg(x.pol)))
            elif x.kind == "idx" and x.pol is None and x.rows == x.over and op in ("Lt", "GtE") and self.lead(x, r) is not None:
                out.add(RV("mask", self.lead(x, r), "SRC" if op == "Lt" else "TGT", self.lead(x, r)))
            elif x.kind == "idx" and x.pol is None and x.rows == x.over and self.count_rows(r) is not None:
                out.add(TOP)
            elif x.rows is not None and x.kind in ("arr", "idx"):
                k = ("k", self.e.key(n))
                if op == "NotEq":
                    k = ("not", ("k", (self.e.key(l), self.e.key(r))))
                elif op == "Eq":
                    k = ("k", (self.e.key(l), self.e.key(r)))
                out.add(RV("mask", x.rows, k, x.rows, cols_of(x)))
            else:
                out.add(TOP)
        # a comparison with an array on the right only
        if not self.known(lv):
            for x in rv:
                if x.rows is not None and x.kind == "arr":
                    out.add(RV("mask", x.rows, ("k", self.e.key(n)), x.rows))
        return frozenset(out) or self.top()

    def lead(self, x, r):
        """Positions 0, 1, ... compared with the number of source samples: those of an array
        that starts with the source samples."""
        c = self.count_rows(r)
        if c is not None and c[0] == "sel" and c[2] == "SRC" and c[1] == x.rows:
            return ("cat", c, sel(c[1], "TGT"))
        return None

    def dompol(self, op, l, r, n, x):
        if r.op == "const" and isinstance(r.val, (int, float)) and not isinstance(r.val, bool):
            c = r.val
            if (op == "GtE" and -1 < c <= 0) or (op == "Gt" and -1 <= c < 0):
                return "SRC"
            if (op == "Lt" and -1 < c <= 0) or (op == "LtE" and -1 <= c < 0):
                return "TGT"
            if c in (0, 1, -1) and op not in ("Eq", "NotEq"):
                self.badsign[n.id] = (n, op, c)
                return ("badsign", f"{op} {c}")
            if op in ("Eq", "NotEq"):
                # a role is never decided by one fixed label
                self.badsign[n.id] = (n, op, c)
                return ("badsign", f"{op} {c}")
        if op == "NotEq":
            return ("not", ("k", (self.e.key(l), self.e.key(r))))
        if op == "Eq":
            return ("k", (self.e.key(l), self.e.key(r)))
        return ("k", self.e.key(n))

    def t_bool(self, n):
        return self.top()

    def t_aug(self, n):
        return self.elementwise(n.args)

    def elementwise(self, args):
        """Element-wise operation: the known row space of the operands."""
        vs = [self.get(a) for a in args]
        rows, cols = set(), set()
        anytop = False
        for v in vs:
            for x in v:
                if x.kind in ("arr", "dom", "mask", "idx") and x.rows is not None:
                    rows.add(x.rows)
                    if cols_of(x) is not None and cols_of(x)[0] != "fresh":
                        cols.add(cols_of(x))
                elif x.kind == "neutral" or x.kind in ("count", "domval"):
                    pass
                else:
                    anytop = True
        nf = {r for r in rows if r[0] != "fresh"}
        if len(nf) == 1:
            return frozenset([arr(next(iter(nf)), next(iter(cols)) if len(cols) == 1 else None)])
        if not nf and rows:
            return frozenset([arr(next(iter(rows)))])
        if not rows and not anytop:
            if any(x.kind == "count" for v in vs for x in v):
                return self.top()
            return self.one(NEUTRAL)
        if len(nf) > 1:
            # alternatives of one operand (join) are kept; conflicting operands are unknown
            per = [frozenset(x.rows for x in v if x.rows is not None and x.kind in ("arr", "dom", "mask", "idx") and x.rows[0] != "fresh") for v in vs]
            per = [p for p in per if p]
            common = frozenset.intersection(*per) if per else frozenset()
            if len(per) == 1:
                return frozenset(arr(r) for r in per[0])
            if common:
                return frozenset(arr(r) for r in common)
        return self.top()

    def t_bin(self, n):
        l, r = n.args
        if n.val == "MatMult":
            return self.product(l, r)
        lv, rv = self.get(l), self.get(r)
        if n.val == "Mult" and "list" in (l.op, r.op):
            k, o = (l, r) if l.op == "list" else (r, l)
            c = self.count_rows(o)
            if len(k.args) == 1 and k.args[0].op == "const":
                if isinstance(k.args[0].val, bool):
                    return self.one(self.flags(n, c))
                return self.one(arr(("fresh", c)))
        if n.val in ("BitAnd", "BitOr", "BitXor", "Mult"):
            lm = [x for x in lv if x.kind == "mask"]
            rm = [x for x in rv if x.kind == "mask"]
            if lm and rm:
                a, b = lm[0], rm[0]
                if a.over == b.over:
                    return self.one(RV("mask", a.rows, ("k", (n.val, a.pol, b.pol)) if n.val != "BitAnd" else ("and", a.pol, b.pol), a.over, a.cols if a.cols == b.cols else None))
                return self.top()
        if n.val == "Add":
            lc, rc = self.count_rows(l), self.count_rows(r)
            if lc is not None and rc is not None:
                return self.one(RV("count", ("cat",) + (lc[1:] if lc[0] == "cat" else (lc,)) + (rc[1:] if rc[0] == "cat" else (rc,)), None, None))
        if n.val == "Sub" and l.op == "const" and l.val == 1:
            ms = [x for x in rv if x.kind == "mask"]
            if ms:
                return frozenset(x._replace(pol=neg(x.pol)) for x in ms)
        if n.val == "Mult":
            for a, o in ((lv, r), (rv, l)):
                if any(x.kind == "dom" for x in a) and o.op == "const" and isinstance(o.val, (int, float)) and o.val < 0:
                    return frozenset(RV("arr", x.rows, ("negdom",), None) for x in a if x.kind == "dom")
        if n.val in ("Mult",):
            # keeps the sign of domain labels when multiplied by ones
            for a, o in ((lv, r), (rv, l)):
                if any(x.kind == "dom" for x in a) and self.is_ones(o):
                    return a
        return self.elementwise(n.args)

    def flags(self, n, c, cc=None):
        """A new array of truth values, one for each of the samples counted."""
        cc = ("fresh", cc) if cc is not None else None
        if c is None or c[0] == "fresh":
            return arr(("fresh", c), cc)
        return RV("mask", ("fresh", c), ("flags", n.id), ("fresh", c), cc)

    def product(self, l, r):
        """Matrix product: rows of the first, columns of the second."""
        cols = {cols_of(x) for x in self.get(r)}
        cols = cols.pop() if len(cols) == 1 else None
        return frozenset(arr(x.rows, cols) if x.kind in ("arr", "dom") and x.rows is not None else TOP for x in self.get(l)) or self.top()

    def is_ones(self, n):
        return n.op == "call" and (callee_name(n) or "").split(".")[-1] in ("ones", "ones_like")

    # -- calls
    def transported(self, b):
        """Rows of labels moved to the target samples a transport of POT was fitted on."""
        root = b.root
        if not (root.op == "call" and (callee_name(root) or "").startswith("ot.da.")):
            return self.top()
        got = []
        for ev in self.e.events:
            if ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val in ("fit", "fit_transform") and ev.node.args[0].args[0].root is root:
                got.append(ev.node.kw.get("Xt"))
        if len(got) != 1 or got[0] is None:
            return self.top()
        return frozenset(arr(v.rows) if v.kind == "arr" and v.rows is not None else TOP for v in self.get(got[0])) or self.top()

    def t_call(self, n):
        nm = callee_name(n) or ""
        tail = nm.split(".")[-1]
        A = list(n.args[1:])
        c = n.args[0]
        if c.op == "attr":
            b = c.args[0]
            if tail == "transform_labels":
                return self.transported(b)
            if tail in ROWWISE_METH:
                x = None
                for k in ("X", "Xs", "x"):
                    if k in n.kw:
                        x = n.kw[k]
                        break
                if x is None and tail == "transform" and "Xt" in n.kw:
                    x = n.kw["Xt"]
                if x is None and A:
                    x = A[0]
                if x is None:
                    return self.top()
                return frozenset(arr(v.rows) if v.kind in ("arr", "dom") and v.rows is not None else TOP for v in self.get(x)) or self.top()
            bv = self.get(b)
            if tail in SAME_METH:
                return bv
            if tail == "reshape":
                a0 = A[0] if A else None
                if a0 is not None and a0.op == "tuple" and a0.args:
                    a0 = a0.args[0]
                if a0 is not None and (a0.op == "const" and a0.val == -1 and (len(A) > 1 or (A[0].op == "tuple" and len(A[0].args) > 1))):
                    return bv
                if a0 is not None and self.count_rows(a0) is not None:
                    return bv
                return frozenset(x if x.kind in ("dom", "mask", "idx") else TOP for x in bv) or self.top()
            if tail in ("ravel", "flatten", "squeeze"):
                return frozenset(x if x.kind in ("dom", "mask", "idx") else x for x in bv)
            if tail in REDUCE:
                return self.reduce(n, b, A, tail)
            if tail == "size" and (not A or A[0].op == "const" and A[0].val == 0):
                kind = "count" if A else "shape"
                return frozenset(RV(kind, x.rows, None, None) if x.rows is not None and x.kind in ("arr", "dom", "mask", "idx") else TOP for x in bv) or self.top()
            if tail == "dot" and len(A) == 1:
                return self.product(b, A[0])
            if tail in ("permutation", "choice") and A and any(a.op == "call" and (callee_name(a) or "").split(".")[-1] in ("check_random_state", "RandomState", "default_rng") for a in flat_alts(b.root)):
                # positions drawn from positions
                return frozenset(x._replace(rows=("take", x.rows, ("k", ("draw", n.id)))) if x.kind == "idx" and x.rows is not None and x.rows[0] != "fresh" else TOP for x in self.get(A[0])) or self.top()
            return self.top()
        if (nm == "builtins.len" or (nm or "").endswith("._num_samples")) and A:
            return frozenset(RV("count", x.rows, None, None) if x.rows is not None else TOP for x in self.get(A[0])) or self.top()
        if tail in SAME and A:
            v = self.get(A[0])
            if tail in ("array", "asarray", "tensor") and A[0].op in ("list", "tuple", "comp"):
                if A[0].op in ("list", "tuple") and not A[0].args:
                    return self.one(NEUTRAL)
                return self.top()
            if tail in ("isnan", "isfinite"):
                return frozenset(RV("mask", x.rows, ("k", (tail, self.e.key(A[0]))), x.rows) if x.rows is not None and x.kind in ("arr", "dom") else TOP for x in v) or self.top()
            if tail in ("maximum", "minimum"):
                return self.elementwise(A)
            return v
        if tail == "logical_not" and A:
            return frozenset(x._replace(pol=neg(x.pol)) if x.kind == "mask" else TOP for x in self.get(A[0])) or self.top()
        if tail in ("logical_and", "logical_or") and len(A) == 2:
            ms = [x for a in A for x in self.get(a) if x.kind == "mask"]
            if len(ms) == 2 and ms[0].over == ms[1].over:
                return self.one(RV("mask", ms[0].rows, ("and" if tail == "logical_and" else "or", ms[0].pol, ms[1].pol), ms[0].over))
            return self.top()
        if tail == "reduce" and len(A) == 2 and (nm or "").startswith("functools") and (callee_tail_of(A[0]) in ("logical_or", "logical_and")):
            x = A[1].args[0] if A[1].op == "comp" and A[1].args else None
            return frozenset(RV("mask", m.rows, ("k", self.e.key(n)), m.over) if m.kind == "mask" else TOP for m in self.get(x)) if x is not None else self.top()
        if tail == "arange" and len(A) == 1:
            r = self.count_rows(A[0])
            if r is not None and r[0] != "fresh":
                return self.one(RV("idx", r, None, r))
            alts = [x for x in self.get(A[0]) if x.kind == "count" and x.rows is not None and "fresh" not in str(x.rows)]
            return frozenset([TOP] + [RV("idx", x.rows, None, x.rows) for x in alts])
        if tail in ("flatnonzero",) and A:
            return frozenset(RV("idx", sel(x.over, x.pol), x.pol, x.over) if x.kind == "mask" and x.over is not None else TOP for x in self.get(A[0])) or self.top()
        if tail == "where" and len(A) == 3:
            return self.elementwise(A)
        if tail in ("count_nonzero",) and A:
            return frozenset(RV("count", sel(x.over, x.pol), None, None) if x.kind == "mask" and x.over is not None else TOP for x in self.get(A[0])) or self.top()
        if tail in ALLOC_LIKE and A:
            v = self.get(A[0])
            return frozenset(RV("arr", ("fresh", x.rows), None, None) if x.rows is not None else RV("arr", ("fresh", None), None, None) for x in v) or self.one(arr(("fresh", None)))
        if tail in ALLOC and (nm.startswith("numpy") or nm.startswith("torch")):
            s = A[0] if A else n.kw.get("shape")
            if s is not None and s.op in ("tuple", "list") and s.args:
                s = s.args[0]
            full = A[0] if A else n.kw.get("shape")
            cr = self.count_rows(s) if s is not None else None
            one = full is not None and (full.op not in ("tuple", "list") or len(full.args) <= 2)
            dt = n.kw.get("dtype")
            cc = self.count_rows(full.args[1]) if full is not None and full.op in ("tuple", "list") and len(full.args) == 2 else None
            if one and (dt is not None and dt.op == "ext" and dt.val in ("builtins.bool", "numpy.bool_", "torch.bool") or tail == "full" and len(A) > 1 and A[1].op == "const" and isinstance(A[1].val, bool)):
                return self.one(self.flags(n, cr, cc))
            return self.one(arr(("fresh", cr), ("fresh", cc) if cc is not None else None))
        if tail in ("concatenate", "vstack", "cat", "hstack", "r_"):
            ax = n.kw.get("axis") or n.kw.get("dim") or (A[1] if len(A) > 1 else None)
            if ax is not None and not (ax.op == "const" and ax.val == 0):
                if ax.op == "const" and ax.val in (1, -1):
                    if A[0].op not in ("tuple", "list"):
                        return self.top()
                    cs = [{cols_of(x) for x in self.get(a)} for a in A[0].args]
                    cols = tuple(q for c in cs for r in c for q in ((None,) if r is None else r[1:] if r[0] == "cat" else (r,))) if all(len(c) == 1 for c in cs) else (None,)
                    return frozenset(x._replace(over=None if None in cols else cols[0] if len(cols) == 1 else ("cat",) + cols) if x.kind == "arr" else x for x in self.elementwise(A[0].args))
                return self.top()
            parts = seq_parts(A[0]) if A else None
            if parts is None:
                return self.top()
            alts = [()]
            for a in parts:
                v = [x for x in self.get(a)]
                nxt = []
                for pre in alts:
                    for x in v:
                        if x.kind == "neutral" or (x.rows is not None and x.rows[0] == "fresh" and x.rows[1] is None):
                            nxt.append(pre + (("?",),)) if x.kind != "neutral" else nxt.append(pre)
                        elif x.rows is None:
                            nxt.append(None)
                        else:
                            r = x.rows
                            if r[0] == "fresh":
                                r = r[1]
                            nxt.append(None if pre is None or r is None else pre + (r[1:] if r[0] == "cat" else (r,)))
                alts = []
                for p in nxt:
                    if p not in alts:
                        alts.append(p)
                if len(alts) > 6 or None in alts:
                    return self.top()
            kinds = {x.kind for a in parts for x in self.get(a) if x.kind not in ("neutral",)}
            kind = "dom" if kinds == {"dom"} else "arr"
            out = set()
            for p in alts:
                if ("?",) in p:
                    out.add(TOP)
                elif len(p) == 0:
                    out.add(NEUTRAL)
                elif len(p) == 1:
                    out.add(RV(kind, p[0], None, None))
                else:
                    out.add(RV(kind, ("cat",) + p, None, None))
            return frozenset(out)
        if tail == "block" and A and A[0].op in ("list", "tuple") and A[0].args and all(r.op in ("list", "tuple") and r.args for r in A[0].args):
            def stack(vs, ax):
                parts = []
                for v in vs:
                    v = self.get(v)
                    q = {x.rows if ax == 0 else x.over for x in v if x.kind == "arr"}
                    q = q.pop() if len(q) == len(v) == 1 else None
                    q = q[1] if q is not None and q[0] == "fresh" else q
                    if q is None:
                        return None
                    parts.extend(q[1:] if q[0] == "cat" else (q,))
                return ("cat",) + tuple(parts) if len(parts) > 1 else parts[0]

            rows = stack([r.args[0] for r in A[0].args], 0)
            return self.one(arr(rows, stack(A[0].args[0].args, 1))) if rows is not None else self.top()
        if tail == "unique" and A:
            v = self.get(A[0])
            if any(x.kind in ("dom", "domval") for x in v):
                return self.one(RV("domval", None, None, None))
            return self.top()
        if tail in ("max", "min", "abs", "int") and A and any(x.kind == "domval" for x in self.get(A[0])):
            return self.top()
        if tail in REDUCE and A and (nm.startswith("numpy") or nm.startswith("torch") or nm.startswith("scipy")):
            return self.reduce(n, A[0], A[1:], tail)
        if tail in PAIRWISE and A:
            cols = None
            if len(A) > 1 and A[1].op != "const" or "Y" in n.kw:
                cv = self.get(A[1] if len(A) > 1 else n.kw["Y"])
            else:
                cv = self.get(A[0])
            if len(cv) == 1:
                cols = next(iter(cv)).rows
            return frozenset(RV("arr", x.rows, None, cols) if x.kind in ("arr", "dom") and x.rows is not None else TOP for x in self.get(A[0])) or self.top()
        if tail in ("atleast_2d", "column_stack"):
            return self.top()
        if tail in ("sort", "flip", "flipud", "roll") and (nm.startswith("numpy") or nm.startswith("torch")) and A and not n.kw and (len(A) == 1 or tail == "roll"):
            return frozenset(x._replace(rows=("take", x.rows, ("order", tail))) if x.kind in ("arr", "dom", "idx") and x.rows is not None and x.rows[0] in ("all", "sel") else TOP for x in self.get(A[0])) or self.top()
        if nm in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set") and A:
            v = self.get(A[0])
            if any(x.kind == "domval" for x in v):
                return v
            return self.top()
        if tail in ("_shuffle",):
            return self.top()
        if tail in ("dot", "matmul", "mm") and len(A) == 2:
            return self.product(*A)
        if nm == "ot.unif" and A:
            return self.one(arr(("fresh", self.count_rows(A[0]))))
        if tail in ("eye", "identity") and A:
            c = self.count_rows(A[0])
            return self.one(arr(("fresh", c), ("fresh", c)))
        if tail == "solve" and len(A) == 2 and "linalg" in nm:
            k = [x for x in self.get(A[0])]
            cols = {cols_of(y) for y in self.get(A[1])}
            return frozenset(arr(x.over, cols.copy().pop() if len(cols) == 1 else None) if x.kind == "arr" and x.over is not None else TOP for x in k) or self.top()
        if tail in ("inv", "pinv", "sqrtm") and "linalg" in nm and A:
            return frozenset(arr(x.over, x.rows) if x.kind == "arr" and x.over is not None else TOP for x in self.get(A[0])) or self.top()
        return self.top()

    def reduce(self, n, a, rest, tail):
        ax = n.kw.get("axis") or n.kw.get("dim") or (rest[0] if rest else None)
        v = self.get(a)
        if ax is None:
            if tail == "sum":
                ms = [x for x in v if x.kind == "mask" and x.over is not None]
                if ms:
                    return frozenset(RV("count", sel(x.over, x.pol), None, None) for x in ms)
            return self.one(NEUTRAL)
        if tail in ("argmax", "argmin") and ax.op == "const" and ax.val in (0, 1, -1) and all(x.kind == "arr" and x.rows is not None and x.over is not None for x in v) and v:
            return frozenset(RV("idx", *((x.over, None, x.rows) if ax.val == 0 else (x.rows, None, x.over))) for x in v)
        if ax.op == "const" and ax.val == 0 and tail not in ("argmax", "argmin", "norm"):
            return frozenset(arr(x.over) if x.kind == "arr" and x.over is not None else TOP for x in v) or self.top()
        if ax.op == "const" and ax.val in (1, -1):
            return frozenset(arr(x.rows) if x.kind == "arr" and x.rows is not None else TOP for x in v) or self.top()
        return self.top()

    def t_kwget(self, n):
        return self.top()
