"""Which caller-owned objects a value may share memory with."""

from .facets import Facet
from .vf import callee_name, flat_alts

VIEW_ATTR = {"T", "values", "flat", "data", "real", "imag", "mT"}
VIEW_FUNCS = {
    "asarray", "asanyarray", "atleast_1d", "atleast_2d", "ravel", "reshape", "squeeze", "transpose", "check_array", "check_X_y", "column_or_1d",
    "expand_dims", "swapaxes", "moveaxis", "broadcast_to", "as_tensor", "from_numpy", "indexable", "check_pairwise_arrays", "ascontiguousarray", "_check_sample_weight",
    "validate_data", "_check_y", "asfortranarray", "as_float_array", "diagonal", "split", "array_split", "unsqueeze", "flatten_view", "rollaxis", "assert_all_finite", "as_strided", "make_indexable",
}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "detach", "cpu", "numpy", "to", "unsqueeze", "expand", "diagonal", "contiguous", "float", "double", "to_numpy", "t", "narrow", "view_as", "_validate_data"}
MUT_FUNCS = {"copyto": 0, "fill_diagonal": 0, "put": 0, "place": 0, "putmask": 0, "put_along_axis": 0, "shuffle": 0, "at": 0, "sort_": 0, "heapify": 0, "heappush": 0}
PREDICTIONS = {"predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "score_samples", "predict_features", "infer", "feature_iter"}


class Alias(Facet):
    """Frozenset of tags ('caller', name) / ('estimator', method)."""

    cap = 12

    def __init__(self, engine, rows, seeds):
        super().__init__()
        self.e, self.rows, self.seeds = engine, rows, seeds

    def top(self):
        return frozenset()

    def t_default(self, n):
        return frozenset()

    def t_param(self, n):
        return self.seeds.get(n.id, frozenset())

    def t_attr(self, n):
        return self.get(n.args[0]) if n.val in VIEW_ATTR else frozenset()

    def t_phi(self, n):
        if n.val is not None and optional(n.val):
            return frozenset()
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        return r

    def t_update(self, n):
        # the object is the same one; in-place stores keep its identity
        return self.get(n.root) if n.root is not n else self.get(n.args[0])

    def t_aug(self, n):
        return self.get(n.args[0])

    def t_item(self, n):
        return self.get(n.args[0])

    def t_elem(self, n):
        return self.get(n.args[0])

    t_dval = t_elem
    t_star = t_elem

    def t_kwget(self, n):
        return frozenset()

    def t_entered(self, n):
        return self.get(n.args[0])

    def t_sub(self, n):
        b = self.get(n.args[0])
        return b if b and self.basic(n.args[1]) else frozenset()

    def basic(self, i):
        """Indexing that gives a view (or the stored object itself)."""
        if i.op in ("const", "slice", "index", "dkey"):
            return True
        if i.op in ("tuple",):
            return all(self.basic(x) for x in i.args)
        if i.op == "ext" and i.val.split(".")[-1] == "newaxis":
            return True
        return False

    def t_bool(self, n):
        if n.val in ("Or", "And"):
            r = frozenset()
            for a in n.args:
                r |= self.get(a)
            return r
        return frozenset()

    def t_call(self, n):
        nm = callee_name(n) or ""
        tail = nm.split(".")[-1]
        c = n.args[0]
        cp = n.kw.get("copy")
        if cp is not None and not (cp.op == "const" and cp.val in (False, None)):
            return frozenset()
        if c.op == "attr":
            if tail in PREDICTIONS and c.args[0].op not in ("super", "inst"):
                return frozenset([("estimator", tail)])
            if tail in VIEW_METHODS:
                return self.get(c.args[0])
            if tail in ("get", "pop", "setdefault", "popitem") or tail == "values":
                return self.get(c.args[0])
            if tail == "astype" and cp is not None:
                return self.get(c.args[0])
            return frozenset()
        if tail == "array" and cp is not None or tail == "nan_to_num" and cp is not None:
            return self.get(n.args[1]) if len(n.args) > 1 else frozenset()
        if tail in VIEW_FUNCS and not nm.startswith("skada"):
            r = frozenset()
            for a in n.args[1:]:
                r |= self.get(a)
            for k in ("X", "y", "a", "array", "sample_weight"):
                if k in n.kw:
                    r |= self.get(n.kw[k])
            return r
        return frozenset()


def optional(c):
    """A condition on a documented 'copy'/'inplace' switch."""
    for x in (c,) + tuple(a for a in c.args if hasattr(a, "op")):
        if x.op in ("param", "attr0") and x.val in ("copy", "inplace", "copy_X"):
            return True
    return False


def optional_guards(guards):
    return any(optional(g) for g, _ in guards if g.op != "iter")


ARRAYS = {"X", "y", "sample_domain", "sample_weight", "sample_domains", "weights", "features", "y_pred", "y_true", "X_source", "X_target", "y_source", "y_target", "source", "target", "Xs", "Xt", "ys", "yt", "C", "a", "b", "X_s", "X_t", "features_s", "features_t", "y_pred_s", "y_pred_t", "sample_domain_s", "sample_domain_t", "cost", "G", "plan"}
TORCH_INPLACE = {f"{x}_" for x in "add sub mul div copy fill zero clamp clip index_fill index_add index_copy masked_fill masked_scatter scatter scatter_add exp log sqrt neg abs relu sigmoid tanh pow floor round ceil remainder addmm squeeze unsqueeze transpose t clamp_min clamp_max normal uniform bernoulli set".split()}
OVERWRITE = {"overwrite_a", "overwrite_b", "overwrite_x", "overwrite_input", "overwrite_y"}


def array_like(R, A, n, seen=None):
    """The value is known to be an array (so that += works in place)."""
    seen = seen if seen is not None else set()
    if n.id in seen:
        return False
    seen.add(n.id)
    if n.op == "param":
        return n.val in ARRAYS or n.id in R.seeds
    if n.op in ("update", "phi", "loop"):
        return any(array_like(R, A, a, seen) for a in n.args if a is not None)
    if n.op in ("call", "attr", "item"):
        return True
    if n.op == "sub":
        return True
    if n.op == "elem":
        # rows of a feature array; elements of one-dimensional arrays are scalars
        return any(t[1].startswith(("X", "features")) for t in A.get(n))
    return False


def extends(ev):
    """Whether an augmented assignment adds a list to what may be a list."""
    v = ev.value
    return ev.name == "Add" and v is not None and (v.op == "list" or v.op == "phi" and all(a.op == "list" for a in v.args)) and ev.base is not None and ev.base.op not in ("const", "tuple")


def mutations(R, A, phases=None):
    """(event, owners, description) for every in-place change of a value with owners."""
    for ev in R.e.events:
        if phases is not None and not phases(ev):
            continue
        got = None
        if ev.kind in ("setitem", "delitem"):
            got = [(ev.base, "item assignment" if ev.kind == "setitem" else "del")]
        elif ev.kind == "aug":
            got = [(ev.base, "augmented assignment")] if array_like(R, A, ev.base) or extends(ev) else []
        elif ev.kind == "mutcall":
            if ev.base is None or ev.name.endswith("_") and ev.name not in TORCH_INPLACE:
                continue
            got = [(ev.base, f".{ev.name}()")]
        elif ev.kind == "setattr":
            o = A.get(ev.base)
            if o and (ev.name in ("shape", "dtype", "flat", "T", "data", "strides", "writeable") or ev.base.op == "attr"):
                yield ev, o, f"setting .{ev.name}"
            continue
        elif ev.kind == "call":
            got = call_mutations(ev.node)
        if got is None:
            continue
        for base, how in got:
            o = A.get(base)
            yield ev, (frozenset() if optional_guards(ev.guards) else o), how


SCALES = ("fit_transform", "transform", "inverse_transform")
WORKS_ON_INPUT = {k: SCALES for k in ("StandardScaler", "MinMaxScaler", "MaxAbsScaler", "RobustScaler", "Normalizer", "Binarizer", "PowerTransformer", "QuantileTransformer", "SimpleImputer")}
WORKS_ON_INPUT.update({k: ("fit", "fit_transform") for k in ("PCA", "Ridge", "LinearRegression", "Lasso", "ElasticNet", "KernelPCA", "PLSRegression", "CCA", "LassoCV", "FactorAnalysis")})


def call_mutations(n):
    nm = callee_name(n) or ""
    tail = nm.split(".")[-1]
    out = []
    if "out" in n.kw:
        for a in n.kw["out"].args if n.kw["out"].op == "tuple" else [n.kw["out"]]:
            out.append((a, f"{tail}(out=)"))
    if tail in MUT_FUNCS and not nm.startswith("skada") and len(n.args) > 1 and (nm.startswith(("numpy.", ".", "random.", "heapq.")) or n.args[0].op == "attr"):
        out.append((n.args[1], f"{tail}()"))
    cp = n.kw.get("copy")
    if cp is not None and cp.op == "const" and cp.val is False and tail in ("nan_to_num", "scale", "normalize", "robust_scale", "minmax_scale", "maxabs_scale", "binarize") and len(n.args) > 1:
        out.append((n.args[1], f"{tail}(copy=False)"))
    for q in OVERWRITE & set(n.kw):
        if n.kw[q].op == "const" and n.kw[q].val is True and len(n.args) > 1:
            i = 2 if q == "overwrite_b" and len(n.args) > 2 else 1
            out.append((n.args[i], f"{tail}({q}=True)"))
    if n.args[0].op == "attr" and n.args[0].val in ("fit", "fit_transform", "transform", "inverse_transform") and len(n.args) > 1:
        for o in flat_alts(n.args[0].args[0]):
            if o.op == "update":
                o = o.args[0]
            kind = (callee_name(o) or "") if o.op == "call" else ""
            off = next((q for q in ("copy", "copy_X") if q in o.kw and o.kw[q].op == "const" and o.kw[q].val is False), None) if o.op == "call" else None
            if off and kind.split(".")[-1] in WORKS_ON_INPUT and n.args[0].val in WORKS_ON_INPUT[kind.split(".")[-1]]:
                out.append((n.args[1], f"{kind.split('.')[-1]}({off}=False).{n.args[0].val}()"))
    return out or None
