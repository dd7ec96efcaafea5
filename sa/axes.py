"""Axes of tensors: which samples, of the source or of the target batch, which classes or
features each axis of a value stands for.  An axis that is not known is None, one that an
operation repeats or makes up is "*", one of length one "1"."""

from sa.vf import Node, callee_name, flat_alts

SAME = {
    "exp", "log", "log1p", "sqrt", "abs", "float", "long", "double", "half", "int", "bool", "to", "detach", "clone", "cpu", "cuda", "square", "relu", "sigmoid", "tanh", "softmax", "log_softmax", "normalize",
    "clamp", "clip", "type", "type_as", "contiguous", "neg", "requires_grad_", "zeros_like", "ones_like", "full_like", "rand_like", "empty_like", "nan_to_num", "pow", "asarray", "as_tensor", "tensor", "copy", "log2", "reciprocal", "sign", "logical_not", "numpy", "view_as_real",
}
REDUCE = {"sum", "mean", "median", "var", "std", "prod", "any", "all", "logsumexp", "amax", "amin", "argmax", "argmin", "max", "min", "nanmean", "nansum", "norm", "count_nonzero"}
PAIR = {"mul": 1, "add": 1, "sub": 1, "div": 1, "multiply": 1, "subtract": 1, "divide": 1, "eq": 1, "minimum": 1, "maximum": 1, "mse_loss": 1, "l1_loss": 1, "smooth_l1_loss": 1, "kl_div": 1}
ELEMENTWISE = {"Add", "Sub", "Mult", "Div", "Pow", "BitAnd", "BitOr", "Mod"}


def kind(a):
    while isinstance(a, tuple) and a[0] == "m":
        a = a[2]
    return a if a in ("S", "T", "K", "F", "M") else None


def part(a, b):
    """Whether a stands for some of the samples that b stands for."""
    while isinstance(a, tuple) and a[0] == "m":
        a = a[2]
        if a == b:
            return kind(a) in ("S", "T")
    return False


def clash(a, b):
    """Whether two axes cannot stand for the same things."""
    if part(a, b) or part(b, a):
        return True
    a, b = kind(a), kind(b)
    return a is not None and b is not None and a != b and bool({a, b} & {"S", "T"}) and {a, b} <= {"S", "T", "K", "F", "M"}


WORD = {"S": "the source samples", "T": "the target samples", "K": "the classes", "F": "the features", "M": "the samples remembered"}


class Axes:
    def __init__(self, e, st, seeds):
        self.e, self.st, self.seeds = e, st, seeds
        self.memo = {}
        self.found = {}  # id of node -> what is wrong

    def get(self, n, d=0):
        if n.id in self.memo:
            return self.memo[n.id]
        if d > 60:
            return None
        self.memo[n.id] = None
        try:
            r = self.of(n, d + 1)
        except (TypeError, IndexError, ValueError):
            r = None
        self.memo[n.id] = r
        return r

    def note(self, n, a, b, how):
        some = [" kept by a mask" if isinstance(q, tuple) and kind(a) == kind(b) else "" for q in (a, b)]
        self.found.setdefault(n.id, (n, f"{WORD[kind(a)]}{some[0]} are {how} {WORD[kind(b)]}{some[1]}"))

    def broadcast(self, n, a, b, how="met, axis by axis, with"):
        if a is None or b is None:
            return None
        out = []
        for i in range(1, max(len(a), len(b)) + 1):
            x = a[-i] if i <= len(a) else "1"
            y = b[-i] if i <= len(b) else "1"
            if clash(x, y):
                self.note(n, x, y, how)
                return None
            if x in ("1", "*") and not (x == "*" and y == "1"):
                x = y
            elif y not in ("1", "*") and x != y:
                x = x if x is not None else y
            out.append(x)
        return tuple(reversed(out))

    def matmul(self, n, a, b):
        if a is None or b is None or not a or not b:
            return None
        x, y = a[-1], b[-2] if len(b) > 1 else b[0]
        if clash(x, y):
            self.note(n, x, y, "summed over together with")
            return None
        return a[:-1] + (b[:-2] + b[-1:] if len(b) > 1 else ())

    def of(self, n, d):
        g = lambda x: self.get(x, d)
        op = n.op
        if n.id in self.seeds:
            return self.seeds[n.id]
        if op == "const":
            return () if isinstance(n.val, (int, float)) else None
        if op == "param" and n.val in ("memory_features", "memory_outputs"):
            return ("M", "F" if n.val.endswith("features") else "K")
        if op == "param":
            return None if (n.extra or {}).get("role") == "data" or (n.extra or {}).get("array") else ()
        if op == "phi":
            al = [g(x) for x in flat_alts(n) if not (x.op == "const" and x.val is None) and x.op != "param"]
            return al[0] if al and all(x == al[0] for x in al) else None
        if op in ("bin", "aug"):
            a, b = g(n.args[0]), g(n.args[1])
            if n.val == "MatMult":
                return self.matmul(n, a, b)
            return self.broadcast(n, a, b) if n.val in ELEMENTWISE else None
        if op == "cmp":
            return self.broadcast(n, g(n.args[0]), g(n.args[1]))
        if op == "elem":
            b = n.args[0]
            return () if b.op == "call" and (callee_name(b) or "").split(".")[-1] == "range" else None
        if op == "attr" and n.val == "cluster_centers_":
            return ("K", "F")
        if op == "unary":
            return g(n.args[0])
        if op == "attr":
            if n.val in ("T", "mT"):
                a = g(n.args[0])
                return a[::-1] if a is not None and len(a) == 2 else None
            return g(n.args[0]) if n.val == "data" else None
        if op == "update":
            return g(n.args[0])
        if op in ("sub", "item"):
            return self.sub(n, d)
        if op == "call":
            return self.call(n, d)
        return None

    def stored(self, n, base, index):
        """A store by the samples' positions in the data set."""
        x = self.get(base)
        parts = index.args if index.op == "tuple" else (index,)
        if x is None or len(parts) > len(x):
            return
        for j, p in enumerate(parts):
            if p.op == "const" and p.val is Ellipsis:
                j = len(x) - len(parts) + j + 1
                continue
            if any(q.op == "const" and q.val is Ellipsis for q in parts[:j]):
                j += len(x) - len(parts)
            if p.op == "param" and str(p.val).startswith("sample_idx") and clash(x[j], "M"):
                self.note(n, x[j], "M", "picked by positions of")

    def sub(self, n, d):
        b = n.args[0]
        k = n.args[1].val if n.op == "sub" and n.args[1].op == "const" else n.val if n.op == "item" else None
        if b.op == "call" and (callee_name(b) or "").split(".")[-1] in ("max", "min", "median", "topk", "sort") and k in (0, 1):
            a = self.call_args(b)
            x = self.get(a[0], d)
            dim = self.dim(b, a)
            t = (callee_name(b) or "").split(".")[-1]
            if x is None or dim is None:
                return None
            if t in ("topk", "sort"):
                return tuple("*" if i == dim % len(x) else y for i, y in enumerate(x)) if t == "topk" else None
            return self.drop(x, dim, b)
        if n.op != "sub":
            return None
        x, i = self.get(b, d), n.args[1]
        if x is None:
            return None
        parts = i.args if i.op == "tuple" else (i,)
        out, j = [], 0
        for p in parts:
            if p.op == "const" and p.val is None:
                out.append("1")
            elif p.op == "slice" and all(q.op == "const" and q.val is None for q in p.args):
                out.append(x[j])
                j += 1
            elif p.op == "const" and p.val is Ellipsis:
                keep = len(x) - sum(1 for q in parts if not (q.op == "const" and q.val in (None, Ellipsis)))
                out += x[j : j + max(keep, 0)]
                j += max(keep, 0)
            elif p.op == "const" and type(p.val) is int:
                j += 1
            else:
                a = self.get(p, d)
                if p.op == "param" and str(p.val).startswith("sample_idx") and clash(x[j], "M"):
                    self.note(n, x[j], "M", "picked by positions of")
                    return None
                if a is None or len(a) != 1:
                    return None
                if masked(p):
                    if clash(a[0], x[j]):
                        self.note(n, x[j], a[0], "picked by a mask over")
                        return None
                    out.append(("m", p.id, x[j]))
                else:
                    out.append(a[0])
                j += 1
        return tuple(out) + x[j:]

    def call_args(self, n):
        c = n.args[0]
        own = () if c.op != "attr" or c.args[0].op in ("ext", "mod") else (c.args[0],)
        a = own + n.args[1:]
        if not a or not own and "input" in n.kw:
            a = tuple(n.kw[q] for q in ("input", "x1", "x2", "other", "target", "mat2") if q in n.kw)
        return a

    def dim(self, n, a, at=1):
        v = n.kw.get("dim") or n.kw.get("axis") or (a[at] if len(a) > at else None)
        return v.val if v is not None and v.op == "const" and type(v.val) is int else None

    def drop(self, x, dim, n):
        keep = n.kw.get("keepdim") or n.kw.get("keepdims")
        if keep is not None and keep.op != "const":
            return None
        dim %= len(x)
        return x[:dim] + (("1",) if keep is not None and keep.val else ()) + x[dim + 1 :]

    def length(self, v, d):
        """The axis whose length a number is."""
        if v.op in ("sub", "item") and v.args[0].op == "attr" and v.args[0].val == "shape":
            k = v.args[1].val if v.op == "sub" and v.args[1].op == "const" else v.val
            x = self.get(v.args[0].args[0], d)
            return x[k] if x is not None and type(k) is int and -len(x) <= k < len(x) else None
        if v.op == "call":
            t = (callee_name(v) or "").split(".")[-1]
            a = self.call_args(v)
            x = self.get(a[0], d) if a else None
            if x and t == "len":
                return x[0]
            if x and t == "size" and len(a) > 1 and a[1].op == "const" and type(a[1].val) is int:
                return x[a[1].val]
        return "1" if v.op == "const" and v.val == 1 else None

    def call(self, n, d):
        g = lambda x: self.get(x, d)
        t = (callee_name(n) or "").split(".")[-1]
        a = self.call_args(n)
        crit = self.criterion(n, d)
        if crit is not None:
            return crit[0]
        if not a:
            return None
        if t in ("emd2", "emd", "sinkhorn", "sinkhorn2") and len(a) >= 3:
            M = g(a[2])
            for k, w in enumerate(a[:2]):
                x = g(w)
                if M is not None and len(M) == 2 and x is not None and len(x) == 1 and clash(x[0], M[k]):
                    self.note(n, x[0], M[k], "given the weights of")
            return () if t.endswith("2") else M
        if t in ("view_as", "reshape_as") and len(a) == 2:
            return g(a[1])
        if t == "predict" and n.args[0].op == "attr" and len(n.args) == 2:
            x = g(n.args[1])
            return x[:1] if x is not None and len(x) == 2 else None
        if t == "einsum" and a[0].op == "const" and isinstance(a[0].val, str):
            return self.einsum(n, a[0].val, [g(q) for q in a[1:]])
        if t == "cdist" and len(a) >= 2:
            x, y = g(a[0]), g(a[1])
            return (x[0], y[0]) if x is not None and y is not None and len(x) == len(y) == 2 else None
        if t in ("mm", "matmul", "mv") and len(a) >= 2:
            return self.matmul(n, g(a[0]), g(a[1]))
        x = g(a[0])
        if t in PAIR and len(a) == 2:
            r = self.broadcast(n, x, g(a[1]))
            return None if "_" in t else r
        if t == "where" and len(a) == 3:
            return self.broadcast(n, self.broadcast(n, x, g(a[1])), g(a[2]))
        if t in ("zeros", "ones", "full", "empty", "rand", "randn"):
            size = a[0].args if a[0].op in ("tuple", "list") else a[:1] if t == "full" else a
            return tuple(self.length(v, d) or "*" for v in size)
        if t == "eye":
            k = self.length(a[0], d) or "*"
            return (k, k)
        if x is None:
            return None
        if t in SAME or t.startswith("scatter") or t in ("masked_fill", "fill_", "add_", "mul_"):
            return x
        if t == "cov":
            return x[:1] * 2 if len(x) == 2 else None
        if t == "bincount":
            return ("K",)
        if t in ("t", "adjoint") and len(x) == 2 or t in ("transpose", "swapaxes") and len(x) == 2:
            return x[::-1]
        if t == "permute":
            ds = [v.val for v in (a[1].args if len(a) == 2 and a[1].op in ("tuple", "list") else a[1:])]
            return tuple(x[i] for i in ds) if len(ds) == len(x) else None
        if t == "unsqueeze":
            i = self.dim(n, a)
            if i is None:
                return None
            i %= len(x) + 1
            return x[:i] + ("1",) + x[i:]
        if t == "reshape" or t == "view":
            ds = [v.val if v.op == "const" else None for v in (a[1].args if len(a) == 2 and a[1].op in ("tuple", "list") else a[1:])]
            if len(x) == 1 and ds == [-1, 1]:
                return x + ("1",)
            if len(x) == 1 and ds == [1, -1]:
                return ("1",) + x
            return x if len(x) == 1 and ds == [-1] else None
        if t == "repeat":
            rs = a[1].args if len(a) == 2 and a[1].op in ("tuple", "list") else a[1:]
            if any(k in n.kw for k in ("dim", "axis")) or len(rs) < len(x):
                return None
            y = ("1",) * (len(rs) - len(x)) + x
            return tuple(q if r.op == "const" and r.val == 1 else "*" if q == "1" else None for q, r in zip(y, rs))
        if t in ("expand", "expand_as"):
            if t == "expand_as" or len(a) - 1 < len(x):
                return None
            rs = a[1:]
            y = ("1",) * (len(rs) - len(x)) + x
            return tuple("*" if q == "1" else q for q in y)
        if t in REDUCE:
            if callee_name(n) and t in ("max", "min") and len(a) > 1 and g(a[1]) != ():
                return None
            i = self.dim(n, a)
            if i is None:
                return () if len(a) == 1 and not {"dim", "axis"} & set(n.kw) else None
            return None if t in ("max", "min", "median") and "dim" in n.kw else self.drop(x, i, n)
        if t == "diag":
            return x * 2 if len(x) == 1 else x[:1] if len(x) == 2 else None
        if t == "one_hot":
            return x + ("K",)
        if t == "cosine_similarity" and len(a) >= 2:
            y = self.broadcast(n, x, g(a[1]))
            i = self.dim(n, a, 2)
            i = 1 if i is None else i
            return y[:i] + y[i + 1 :] if y is not None else None
        return None

    def einsum(self, n, spec, ops):
        left, _, right = spec.replace(" ", "").partition("->")
        at = {}
        for word, x in zip(left.split(","), ops):
            if x is None or len(x) != len(word):
                continue
            for ch, q in zip(word, x):
                if ch in at and clash(at[ch], q):
                    self.note(n, at[ch], q, "summed over together with")
                    return None
                if at.get(ch) in (None, "1", "*"):
                    at[ch] = q
        return tuple(at.get(ch) for ch in right) if "->" in spec else None

    def criterion(self, n, d):
        """Losses taken entry by entry: (axes,) of the result, or None if it is not one."""
        c, own = n.args[0], n.args[1:]
        made = [x for x in flat_alts(c)]
        a = list(own) + [n.kw[q] for q in ("input", "target") if q in n.kw]
        nm = (callee_name(n) or "").split(".")[-1]
        fun = nm in ("cross_entropy", "nll_loss")
        loss = [x for x in made if x.op == "call" and (callee_name(x) or "").split(".")[-1] in ("CrossEntropyLoss", "NLLLoss")]
        if len(a) != 2 or not (fun or loss):
            return None
        x, y = self.get(a[0], d), self.get(a[1], d)
        if x is None or y is None or len(x) < 2:
            return (None,)
        rest = x[:1] + x[2:]
        red = [q.kw.get("reduction") for q in ([n] if fun else loss)]
        r = self.broadcast(n, rest, y, "compared with the labels of") if len(y) == len(rest) else None
        return (r if all(q is not None and q.op == "const" and q.val == "none" for q in red) else (),)


def masked(p):
    """Whether an index is made by a comparison."""
    while p.op == "call" and p.args[0].op == "attr" and p.args[0].val in ("bool", "to", "squeeze", "flatten"):
        p = p.args[0].args[0]
    return p.op == "cmp" or p.op == "sub" and masked(p.args[0]) or p.op == "bin" and p.val in ("BitAnd", "BitOr") and masked(p.args[0]) or p.op == "unary" and masked(p.args[0])
