"""Where tensors live.  Every loss, criterion, network and callback of the deep part, and the
deep dataset, is walked with its data (features, predictions, labels, domain labels) on the
device of the training.  A tensor made on the way (zeros, ones, eye, tensor, rand, ...) lives
there when it is made with that device, like another tensor, or moved there; it lives on the
host otherwise.  (mixed) A tensor of the host never meets data of the device in arithmetic, a
comparison, a criterion, an operation on several tensors or a store.  (numpy) Data are not
turned into an array without being brought to the host.  (kept) What a dataset that is given a
device keeps is on this device."""

import re

from sa.facets import Facet
from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static device analysis (where each tensor is made and moved) over the value-flow graph"
ASSUMPTIONS = ["data, network and criterion of a training are on one device (skorch moves them)", "parameters and buffers of modules follow the module", "an index on the host may select from a tensor of any device"]

DATA = re.compile(r"^(features|X|x|y|Xs|Xt|ys|yt|s|t|A|domain_pred|sample_|memory_|input|target|output|logits|centroids|prob|embed|source|batch)")
NOT_DATA = re.compile(r"(_size|_dims?|_kmeans|_name|_fn|_layer|_model|_metric|_weights_)$")
MAKE = {"zeros", "ones", "full", "empty", "eye", "arange", "linspace", "logspace", "rand", "randn", "randint", "randperm", "normal", "Tensor", "FloatTensor", "LongTensor", "tril_indices", "triu_indices", "hann_window", "range"}
WRAP = {"tensor", "as_tensor", "from_numpy", "asarray"}
LIKE = {"zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "randn_like", "randint_like"}
NEW = {"new_zeros", "new_ones", "new_full", "new_empty", "new_tensor"}
SCALAR = {"len", "range", "int", "float", "bool", "isinstance", "item", "tolist", "dim", "numel", "size", "hasattr", "type", "str", "ndimension", "is_tensor", "get_device", "print", "enumerate", "zip", "id", "format", "join", "issubclass"}
SHAPE = {"shape", "device", "dtype", "ndim", "requires_grad", "is_cuda", "layout"}
KEEP = {"T", "mT", "H", "data", "grad", "real", "imag", "values", "indices"}
D, H = frozenset("D"), frozenset("H")
UNKNOWN = frozenset("?")


OWN = {"clone", "detach", "float", "long", "double", "bool", "int", "unsqueeze", "squeeze", "view", "reshape", "t", "transpose", "permute", "sum", "mean", "contiguous", "repeat", "expand", "expand_as", "flatten", "matmul", "mm", "exp", "abs", "sqrt", "max", "min", "argmax", "argmin"}


class Dev(Facet):
    """{'D'}: on the device of the data; {'H'}: made on the host; {}: no tensor; '?' unknown."""

    def __init__(self, e, seeds):
        super().__init__()
        self.e, self.seeds = e, seeds

    def top(self):
        return UNKNOWN

    def t_default(self, n):
        return UNKNOWN

    def t_param(self, n):
        if n.id in self.seeds:
            return D
        return frozenset() if isinstance((n.extra or {}).get("default"), (int, float)) else UNKNOWN

    def t_const(self, n):
        return frozenset()

    def t_phi(self, n):
        r = frozenset()
        for a in n.args:
            r = r | self.get(a)
        return r

    t_loop = t_phi

    def t_list(self, n):
        return self.combine(n.args)

    t_tuple = t_list

    def t_comp(self, n):
        return self.get(n.args[0]) if n.args else UNKNOWN

    t_listcomp = t_comp

    def combine(self, nodes):
        vs = [self.get(a) for a in nodes]
        if D in vs:
            return D
        r = frozenset()
        for v in vs:
            r = r | v
        return r

    def t_bin(self, n):
        return self.combine(n.args)

    t_aug = t_cmp = t_bool = t_bin

    def t_unary(self, n):
        return self.get(n.args[0])

    def t_attr(self, n):
        if n.val in SHAPE:
            return frozenset()
        return self.get(n.args[0]) if n.val in KEEP else UNKNOWN

    def t_sub(self, n):
        b = n.args[0]
        if b.op == "attr" and b.val == "shape":
            return frozenset()
        return self.get(b)

    def t_elem(self, n):
        b = n.args[0]
        if b.op == "call" and (callee_name(b) or "").split(".")[-1] in ("range", "enumerate"):
            return frozenset()
        return self.get(b)

    def t_item(self, n):
        a = n.args[0]
        if a.op in ("tuple", "list") and isinstance(n.val, int) and -len(a.args) <= n.val < len(a.args):
            return self.get(a.args[n.val])
        return self.get(a)

    def t_update(self, n):
        return self.get(n.args[0])

    def place(self, x):
        """What a device (or a tensor, or a type) that data are moved to stands for."""
        out = set()
        for a in flat_alts(x):
            if a.op == "const":
                out.add("H" if a.val == "cpu" else "?")
            elif a.op in ("attr", "attr0", "param") and a.val == "device":
                out.add("D")
            elif a.op == "call" and (callee_name(a) or "").split(".")[-1] in ("device", "str"):
                r = self.place(a.args[1]) if len(a.args) > 1 else None
                out.add(r or "?")
            elif a.op == "call" and (callee_name(a) or "").split(".")[-1] == "get_device":
                out.add("D")
            elif a.op == "ext" or a.op == "attr" and a.val == "dtype":
                out.add("same")
            else:
                v = self.get(a)
                out.add("D" if v == D else "H" if v == H else "?")
        return out.pop() if len(out) == 1 else "?"

    def moved(self, x, old):
        p = self.place(x)
        return old if p == "same" else {"D": D, "H": H}.get(p, UNKNOWN)

    def t_call(self, n):
        nm = callee_name(n) or ""
        t = nm.split(".")[-1].split(":")[-1]
        f, A, kw = n.args[0], list(n.args[1:]), n.kw
        if t in SCALAR:
            return frozenset()
        if f.op == "ext" and f.val.startswith("numpy"):
            return frozenset()
        ext = f.op == "ext" and f.val.startswith("torch")
        recv = self.get(f.args[0]) if f.op == "attr" else None
        if f.op == "attr":
            if t == "to":
                x = A[0] if A else kw.get("device") or kw.get("other")
                return self.moved(x, recv) if x is not None else recv
            if t == "cpu":
                return H
            if t == "cuda":
                return UNKNOWN
            if t == "numpy":
                return frozenset()
            if t == "type_as" and A:
                return self.get(A[0])
            if t in NEW:
                return self.moved(kw["device"], recv) if "device" in kw else recv
        if t in ("to_tensor", "to_device"):
            x = kw.get("device") or (A[1] if len(A) > 1 else None)
            return self.moved(x, UNKNOWN) if x is not None else UNKNOWN
        if ext and t in LIKE:
            r = self.get(A[0]) if A else UNKNOWN
            return self.moved(kw["device"], r) if "device" in kw else r
        if ext and (t in MAKE or t in WRAP):
            if "device" in kw:
                return self.moved(kw["device"], UNKNOWN)
            if "**" in kw or "out" in kw or any(a.op == "star" for a in A):
                return UNKNOWN
            if t in WRAP:
                x = A[0] if A else kw.get("data")
                if x is None:
                    return UNKNOWN
                v = self.get(x)
                if v == D:
                    return D
                if t == "from_numpy":
                    return H
                if all(a.op == "call" and host_array(a) for a in flat_alts(x)):
                    return H
                many = all(a.op in ("list", "comp", "listcomp", "tuple") and (a.args or a.op != "list") for a in flat_alts(x))
                return H if many and not v else frozenset() if x.op == "const" or not v and x.op in ("list", "tuple") else UNKNOWN
            if not A and "size" not in kw:
                return frozenset()
            if A and A[0].op in ("tuple", "list") and not A[0].args:
                return frozenset()
            if t == "Tensor" and self.get(A[0]) == D:
                return D
            return H
        if ext and t in ("Parameter", "Module"):
            return UNKNOWN
        vs = ([f.args[0]] if f.op == "attr" and recv else []) + A + [v for v in kw.values() if isinstance(v, Node)]
        r = self.combine(vs)
        return r if r == D or ext or f.op == "attr" and t in OWN else r | UNKNOWN


def handed(n):
    """Whether an object is a part of the network a callback is called with."""
    while n is not None and n.op in ("attr", "attr0", "sub", "item") and n.args:
        n = n.args[0]
    return n is not None and n.op == "param" and n.val in ("net", "module", "criterion")


def host_array(n):
    """Whether a call makes a list or an array, of more than a number, on the host."""
    f = n.args[0]
    return f.op == "ext" and (f.val == "numpy" or f.val.startswith("numpy.")) and f.val.split(".")[-1] in ("concatenate", "stack", "vstack", "hstack", "zeros", "ones", "full", "arange", "eye") or f.op in ("ext", "builtin") and f.val in ("list", "builtins.list")


def tensors(n, d=0):
    """The tensors handed to an operation, those of lists one by one."""
    for a in flat_alts(n):
        if a.op in ("list", "tuple") and d < 3:
            for q in a.args:
                yield from tensors(q, d + 1)
        else:
            yield a


def deep_functions(ctx):
    for f in ctx.p.functions():
        if f.cls is None and f.parent is None and ctx.inscope(f) and deep(ctx, f.module):
            yield f


def deep(ctx, m):
    return ctx.fixture or ".deep" in m.name


def isdata(fi, nme):
    if not DATA.match(nme) or NOT_DATA.search(nme):
        return False
    d = fi.default(nme)
    return d is None or getattr(d, "value", 0) is None


METHODS = ("forward", "__call__", "fit", "predict", "_init_centroids", "get_loss", "feature_infer", "infer", "feature_iter")


def run(ctx):
    n = 0
    for f in deep_functions(ctx):
        if any(isdata(f, q) for q in f.all_params) and not f.has_deco("abstractmethod"):
            n += entry(ctx, None, f, f.full)
    for c in ctx.classes():
        if not deep(ctx, c.module):
            continue
        for m in METHODS + tuple(sorted({k for b in c.project_mro() for k in b.methods if k.startswith("on_")})):
            f = c.find(m)
            if f is not None and getattr(f, "node", None) is not None and f.cls is not None and f.module in ctx.p.modules.values() and not f.has_deco("abstractmethod"):
                n += entry(ctx, c, f, f"{c.full}.{m}")
        if c.name == "DeepDADataset" or ctx.fixture and c.name.endswith("Dataset"):
            n += kept(ctx, c)
    ctx.notes["tensors followed"] = n
    ctx.need(n, 40, "operations on several tensors")


def entry(ctx, c, f, con):
    R = Run(ctx.p)
    seeds = set()
    try:
        if c is not None:
            R.make(c)
        args = {}
        for q in f.all_params:
            if isdata(f, q) and q != "self":
                v = R.e.param(q, nonnull=True, array=True, role="data")
                seeds.add(v.id)
                args[q] = v
        if c is not None:
            kn = R.e.mk("dict", (), val=[]) if f.kwarg else None
            R.e.run(f, args, self_node=R.self_node, st=R.st, phase="walk", kwargs_node=kn)
        else:
            R.e.run(f, args, phase="walk")
    except Exception as x:
        ctx.und("walk", con, None, f"{type(x).__name__}: {x}")
        return 0
    ctx.analysed(R.e)
    V = Dev(R.e, seeds)
    k = 0
    for ev in R.e.events:
        if ev.phase != "walk":
            continue
        where = f"{con}: {ev.site.func if ev.site else ''}"
        n = ev.node
        if ev.kind in ("bin", "cmp") and n is not None:
            if n.val in ("Is", "IsNot", "In", "NotIn"):
                continue
            ts, how = list(n.args), "an operation"
        elif ev.kind == "aug":
            ts, how = [ev.base, ev.value.args[1]] if ev.value is not None and len(ev.value.args) == 2 else [], "an operation"
        elif ev.kind == "setattr":
            if ev.value is not None and V.get(ev.value) == H and handed(ev.base):
                ctx.bad("kept", f"{where}.{ev.name}", ev.site, f"a tensor made on the host is kept as {ev.name} of the network or criterion, which are on the device")
            continue
        elif ev.kind == "setitem":
            ts, how = [ev.base, ev.value], "a store"
        elif ev.kind == "sub" and V.get(ev.base) == H:
            ts, how = [ev.base, ev.index], "a selection"
        elif ev.kind == "call" and n is not None:
            nm = callee_name(n) or ""
            t = nm.split(".")[-1].split(":")[-1]
            cal = n.args[0]
            if t == "numpy" and cal.op == "attr" and V.get(cal.args[0]) == D:
                ctx.bad("numpy", where, ev.site, "a tensor of the device is turned into an array without being brought to the host")
                continue
            if cal.op == "ext" and cal.val.startswith("numpy") and any(V.get(a) == D for a in n.args[1:]):
                ctx.bad("numpy", where, ev.site, f"{cal.val} is applied to a tensor of the device")
                continue
            if t in SCALAR or t in ("to", "type_as", "to_tensor", "to_device", "cpu", "cuda", "append", "extend", "dict") or cal.op in ("func", "cls", "bound"):
                continue
            if cal.op == "ext" and not cal.val.startswith(("torch", "ot.")):
                continue
            if cal.op == "ext" and t in MAKE | WRAP | LIKE | {"split"}:
                continue
            ts = [q for a in list(n.args[1:]) + [v for v in n.kw.values() if isinstance(v, Node)] for q in tensors(a)]
            if cal.op == "attr":
                ts.append(cal.args[0])
            how = nm.lstrip(".") or "a call"
        else:
            continue
        vs = [V.get(a) for a in ts]
        if any("H" in v and "?" not in v for v in vs) and D in vs:
            ctx.bad("mixed", where, ev.site, f"a tensor made on the host meets data of the device in {how}")
        elif vs.count(D) >= 1:
            k += 1
    if k:
        ctx.ok("mixed", con)
    return k


FIELDS = ("X", "y", "sample_domain", "sample_weight", "has_y", "_sample_idx")


def kept(ctx, c):
    """The tensors a dataset keeps are made on the device it is given."""
    init = c.find("__init__")
    if init is None or "device" not in init.all_params:
        ctx.und("kept", c.full, None, "no device to put the dataset on")
        return 0
    R = Run(ctx.p)
    try:
        R.make(c, ctor={"X": R.e.param("X", nonnull=True, array=True, role="data")})
    except Exception as x:
        ctx.und("kept", c.full, None, f"{type(x).__name__}: {x}")
        return 0
    ctx.analysed(R.e)
    V = Dev(R.e, set())
    k = 0
    for ev in R.e.events:
        if ev.kind == "setattr" and ev.base is not None and ev.base.op == "inst" and ev.base.val is R.self_node.val and ev.name in FIELDS and ev.value is not None:
            vs = [V.get(a) for a in flat_alts(ev.value)]
            k += 1
            if H in vs:
                at = next(a for a in flat_alts(ev.value) if V.get(a) == H)
                ctx.bad("kept", f"{c.full}.{ev.name}", at.site or ev.site, f"{ev.name} is made on the host although the dataset is given a device")
            else:
                ctx.ok("kept", f"{c.full}.{ev.name}")
    return k
