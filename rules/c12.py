"""Splits of the cross-validators.  The index arrays each splitter yields are taken apart
symbolically into slices of permutations of index sets.  Reported: a training and a test
piece cut from the same permutation whose bounds do not complement each other, pieces of two
different permutations (or of one permutation uncut) of the same samples, draws with
replacement, pieces cut to the size of the other part, positions that refer to a subset of
the samples, splits that ignore the domain labels (or, in a stratified splitter, the
labels), draws and sizes that belong to another set of samples (numbers), the same positions
twice in one part, a number of splits other than the one announced, and a left-out domain whose
source samples stay in the split or that is not one of the source domains."""

import ast

from rules.c08 import Deps
from sa.facets import role
from sa.scenario import Run, adapters, splitters
from sa.vf import Node, callee_name, flat_alts, show, walk

TECHNIQUE = "static symbolic decomposition of index expressions (slices of permutations, provenance of positions)"
ASSUMPTIONS = ["_validate_shuffle_split returns sizes that add up to at most the number of samples", "a permutation draws each position once"]

SAME_ORDER_FREE = {"asarray", "array", "sort", "unique", "sorted", "list", "copy", "ravel", "asanyarray", "ascontiguousarray", "atleast_1d"}
DRAWS = {"permutation", "permuted"}


class Piece:
    def __init__(self, root, cuts, outer, draw=None):
        self.root, self.cuts, self.outer, self.draw = root, cuts, outer, draw

    def __repr__(self):
        return f"<{show(self.root, 2)} {[(show(a, 2), show(b, 2)) for a, b in self.cuts]}>"


def call_tail(n):
    nm = callee_name(n)
    return (nm or "").split(".")[-1]


def pieces(n, d=0, seen=None):
    """Pieces an index expression is the union of, or None."""
    seen = seen or frozenset()
    if n is None or d > 25 or n.id in seen:
        return []
    seen = seen | {n.id}
    op = n.op
    if op in ("list", "tuple"):
        return union(n.args, d, seen)
    if op in ("loop", "phi"):
        return union(n.args, d, seen)
    if op == "update":
        if n.val in ("extend", "append", "aug", "iadd"):
            return union([n.args[0], n.args[2]], d, seen)
        if n.val in ("shuffle", "sort", "reverse"):
            return [Piece(n, [], [])]
        return None
    if op == "aug" or op == "bin" and n.val == "Add":
        xs = n.args[:2]
        if all(is_list(x) for x in xs):
            return union(xs, d, seen)
        return None
    if op == "comp":
        return pieces(n.args[0], d + 1, seen) if n.args else None
    if op == "call":
        t = call_tail(n)
        a = n.args[1] if len(n.args) > 1 else None
        if t in ("concatenate", "hstack", "append", "union1d", "r_") and a is not None:
            return union(n.args[1:] if t in ("append", "union1d") else [a], d, seen)
        if t in DRAWS and a is not None:
            inner = pieces(a, d + 1, seen) if is_list(a) or a.op == "call" and call_tail(a) in {"concatenate", "hstack"} | DRAWS else None
            if inner:
                return inner
            return [Piece(n, [], [])]
        if t in SAME_ORDER_FREE and a is not None:
            return pieces(a, d + 1, seen)
        if t in ("copy", "tolist", "astype", "ravel", "flatten") and n.args[0].op == "attr":
            return pieces(n.args[0].args[0], d + 1, seen)
        if t == "take" and n.args[0].op == "attr" and a is not None:
            return compose(n.args[0].args[0], a, d, seen)
        if t == "take" and n.args[0].op == "ext" and len(n.args) > 2:
            return compose(a, n.args[2], d, seen)
        return [Piece(n, [], [])]
    if op == "sub":
        b, i = n.args
        if i.op == "slice":
            lo, hi, step = i.args
            if not (step.op == "const" and step.val in (None, 1)):
                return None
            return cut(pieces(b, d + 1, seen), (lo, hi), b, n)
        if i.op == "const" or b.op == "call" and call_tail(b) in ("split", "array_split"):
            return [Piece(n, [], [])]
        return compose(b, i, d, seen)
    return [Piece(n, [], [])]


def is_list(n):
    return any(a.op in ("list", "update", "loop", "comp") for a in flat_alts(n))


def union(xs, d, seen):
    out = []
    for x in xs:
        p = pieces(x, d + 1, seen)
        if p is None:
            return None
        out += [q for q in p if not any(same(q, r) for r in out)]
    return out


def same(a, b):
    return a.root is b.root and a.outer == b.outer and len(a.cuts) == len(b.cuts) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(a.cuts, b.cuts))


def cut(ps, bounds, b, n):
    """A slice of a union is known only for a single piece."""
    if ps is None or len(ps) != 1 or ps[0].cuts or joined(b):
        # the array itself is the whole that is cut
        return [Piece(b, [bounds], [], n)]
    p = ps[0]
    return [Piece(p.root, p.cuts + [bounds], p.outer, n)]


def joined(b):
    """An array put together from others."""
    while b.op == "update" and b.val == "shuffle":
        b = b.args[0]
    return b.op == "call" and call_tail(b) in ("concatenate", "hstack", "append")


def compose(b, i, d, seen):
    """b[i]: the pieces of i, as positions into b."""
    ps = pieces(i, d + 1, seen)
    if ps is None:
        return None
    return [Piece(p.root, p.cuts, [b] + p.outer) for p in ps]


# ------------------------------------------------------------------ bounds
def minus(n):
    return n.args[0] if n.op == "unary" and n.val == "USub" else None


def parts(n):
    return parts(n.args[0]) + parts(n.args[1]) if n.op == "bin" and n.val == "Add" else [n]


class Bounds:
    def __init__(self, e):
        self.e = e

    def terms(self, n):
        """A bound as a multiset of terms, or None when it is not a sum."""
        if n.op == "const":
            return {} if n.val in (0, None) else {("c", n.val): 1}
        if n.op == "bin" and n.val == "Add":
            a, b = self.terms(n.args[0]), self.terms(n.args[1])
            if a is None or b is None:
                return None
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) + v
            return out
        if n.op == "bin" and n.val == "Sub":
            a, b = self.terms(n.args[0]), self.terms(n.args[1])
            if a is None or b is None:
                return None
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) - v
                if not out[k]:
                    del out[k]
            return out
        return {self.e.key(n): 1}

    def size(self, n):
        """'train', 'test' or None: which size of the split a bound term is."""
        if n.op == "item" and n.args[0].op == "call" and call_tail(n.args[0]) == "_validate_shuffle_split":
            return (n.args[0].id, ("train", "test")[n.val] if n.val in (0, 1) else None)
        return None

    def disjoint(self, x, y):
        """True/False/None for [x0:x1] and [y0:y1] of the same sequence."""
        for a, b in ((x, y), (y, x)):
            hi, lo = a[1], b[0]
            if hi.op == "const" and hi.val is None:
                continue
            th, tl = self.terms(hi), self.terms(lo)
            if th is None or tl is None:
                return None
            if th == tl:
                return True
            diff = dict(tl)
            for k, v in th.items():
                diff[k] = diff.get(k, 0) - v
            diff = {k: v for k, v in diff.items() if v}
            if all(v >= 0 for v in diff.values()):
                return True
            if len(flat_alts(hi)) > 1 or len(flat_alts(lo)) > 1:
                return None
        for a, b in ((x, y), (y, x)):
            k = minus(a[0])
            if k is not None and a[1].op == "const" and a[1].val is None:
                return self.from_end(k, b)
        for n in x + y:
            if n.op == "const" and n.val is None:
                continue
            if not self.known(n):
                return None
        return False

    def from_end(self, k, b):
        """[-k:] against [b0:b1]."""
        if b[1].op == "const" and b[1].val is None or minus(b[0]) is not None or minus(b[1]) is not None:
            if minus(b[1]) is not None:
                return True if self.terms(minus(b[1])) == self.terms(k) else None
            return None
        th, tk = self.terms(b[1]), self.terms(k)
        if th is None or tk is None or not self.known(b[1]) or not self.known(k):
            return None
        names = {}
        for n in parts(b[1]) + parts(k):
            z = self.size(n)
            names.setdefault(z, []).append(n)
        # train + test is at most the number of samples, anything more may be too much
        return all(z is not None and len(v) == 1 for z, v in names.items()) and len({z[0] for z in names}) == 1

    def known(self, n):
        if n.op == "const":
            return isinstance(n.val, int) and n.val >= 0
        if n.op == "bin" and n.val == "Add":
            return all(self.known(a) for a in n.args)
        if n.op == "bin" and n.val == "Sub":
            return self.known(n.args[0]) and n.args[1].op == "const"
        if self.size(n):
            return True
        if n.op == "sub" and n.args[0].op == "call" and call_tail(n.args[0]) == "_approximate_mode":
            return True
        return False


# ------------------------------------------------------------------ dependence
class Given(Deps):
    """Dependence through functions that return each of their arguments."""

    def skip(self, x):
        return False

    def of(self, n):
        out, seen, stack = set(), set(), [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, Node) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "param":
                out.add(x.id)
                continue
            if self.skip(x):
                continue
            b = x.args[0] if x.op == "item" else None
            if b is not None and b.op == "call" and call_tail(b) == "indexable" and isinstance(x.val, int) and x.val + 1 < len(b.args):
                stack.append(b.args[x.val + 1])
                continue
            stack.extend(x.args)
            stack.extend(x.kw.values())
            if isinstance(x.val, Node):
                stack.append(x.val)
            elif x.op in ("dict", "list", "tuple") and isinstance(x.val, list):
                stack.extend(v for _, v in x.val)
        return out


class Exact(Given):
    """Dependence that keeps different values apart."""

    def skip(self, x):
        return x.op == "cmp" or x.op == "call" and call_tail(x) in ("sign", "abs", "absolute", "clip", "astype_bool", "len", "maximum", "minimum")


# ------------------------------------------------------------------ the rule
def folds(ctx):
    """Where the library cross-validates itself, what is made from one part is judged on the other:
    both parts of a split are used."""
    for f in ctx.scoped(list(ctx.p.functions())):
        for x in ast.walk(f.node):
            if isinstance(x, ast.For):
                gens = [(x.target, x.iter, x.body)]
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                gens = [(g.target, g.iter, [x.elt] + [y for h in x.generators for y in h.ifs + ([h.iter] if h is not g else [])]) for g in x.generators]
            else:
                continue
            for t, it, body in gens:
                if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "split" and it.args and not isinstance(it.args[0], ast.Constant)):
                    continue
                if not (isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(y, ast.Name) for y in t.elts)):
                    continue
                read = {y.id for b in body for y in ast.walk(b) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
                unused = [y.id for y in t.elts if y.id not in read and not y.id.startswith("_")]
                site = f"{f.module.path if hasattr(f.module, 'path') else f.module.name}:{it.lineno}"
                ctx.check(len(unused) != 1, "folds", f"{f.full}: split", site, f"one part of the split, {', '.join(unused)}, is never used: what is learned from a part is judged on the same part")


def run(ctx):
    cs = ctx.scoped(splitters(ctx.p))
    n = 0
    for c in cs:
        R = Run(ctx.p)
        try:
            R.make(c)
            R.call("split", "N", given=("y", "sample_domain"))
        except Exception as x:
            ctx.und("walk", f"{c.full}.split", None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(R.e)
        r = R.results.get(("split", "N"))
        ys = [a for a in (r.args if r is not None and r.op == "gen" else flat_alts(r) if r is not None else []) if a.op == "tuple" and len(a.args) == 2]
        if not ys:
            ctx.und("split", c.full, None, "no pair of index sets found")
        for y in ys:
            n += 1
            pair(ctx, c, R, y)
        left_out(ctx, c, R)
        arguments(ctx, c, R)
        announced(ctx, c, R)
    subsamples(ctx)
    folds(ctx)
    ctx.need(n, 3, "pairs of index sets yielded by splitters")


def subsamples(ctx):
    """Subsamplers: what is drawn follows the domains, the classes, they are documented to
    stratify on, and is the part of the split that has the size asked for."""
    for c in ctx.scoped(adapters(ctx.p)):
        if not c.name.endswith("Subsampler") or c.find("fit_transform") is None:
            continue
        R = Run(ctx.p)
        con = f"{c.full}.fit_transform"
        try:
            R.make(c)
            R.call("fit_transform", "N", given=("y", "sample_domain"))
        except Exception as x:
            ctx.und("walk", con, None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(R.e)
        r, a = R.results.get(("fit_transform", "N")), R.args.get(("fit_transform", "N"), {})
        want = [q for q, word in (("sample_domain", "Domain"), ("y", "Stratified")) if word in c.name and q in a]
        drawn = [z.args[1] for t in (flat_alts(r) if r is not None else []) if t.op == "tuple" and t.args for z in flat_alts(t.args[0]) if z.op == "sub"]
        if not drawn:
            ctx.und("stratified", con, None, "the samples drawn are not known")
        for i in drawn:
            d = Given().of(i)
            for q in want:
                ctx.check(a[q].id in d, "stratified", f"{con}: {q}", i.site, f"the samples drawn do not depend on {q}, which they are documented to be stratified on")
            # the split's training part has the size asked for
            if i.op == "sub" and i.args[1].op == "const" and i.args[1].val in (0, 1):
                made = [x for x in walk(i.args[0]) if x.op == "call" and {"train_size", "test_size"} & set(x.kw)]
                for x in made:
                    own = [q for q in ("train_size", "test_size") if q in x.kw and any(y.op in ("param", "attr0") and y.val == "train_size" for y in flat_alts(x.kw[q]))]
                    if len(own) == 1:
                        ctx.check(own == ["train_size"] and i.args[1].val == 0 or own == ["test_size"] and i.args[1].val == 1, "size", con, i.site, "the part of the split that is kept is not the one of the size asked for")


def origin(R, p):
    """Row values of the innermost positions, the whole they are drawn from."""
    n = p.root
    if n.op == "call" and call_tail(n) in DRAWS and len(n.args) > 1:
        return n.args[1]
    return n


def rows_role(R, p):
    """'SRC'/'TGT' when all samples of the piece have that role."""
    for n in p.outer + ([p.root] if not p.outer else []):
        rs = {role(v.rows) if v.kind == "idx" else (v.pol if v.kind == "mask" else None) for v in R.rows.get(n)}
        if len(rs) == 1 and rs <= {"SRC", "TGT"}:
            return rs.pop()
    return None


def set_of(R, p):
    """Identity of the set a piece is drawn from."""
    if p.outer:
        return ("in", tuple(R.e.key(o) for o in p.outer))
    o = origin(R, p)
    return ("of", R.e.key(o))


def pair(ctx, c, R, y):
    con = f"{c.full}.split"
    B = Bounds(R.e)
    site = y.site or f"{c.module.rel}"
    tr, te = pieces(y.args[0]), pieces(y.args[1])
    if not tr or not te:
        ctx.und("disjoint", con, site, "index expression of unknown form")
        tr, te = tr or [], te or []
    verdict = True
    for p in tr:
        for q in te:
            v, why = apart(R, B, p, q)
            if v is False:
                ctx.bad("disjoint", con, p.root.site or site, why)
                verdict = False
            elif v is None and verdict:
                verdict = None
    if tr and te:
        if verdict:
            ctx.ok("disjoint", con, site)
        elif verdict is None:
            ctx.und("disjoint", con, site, "pieces in a form the rule does not know")
    for ps, mine in ((tr, "train"), (te, "test")):
        for p in ps:
            numbers(ctx, con, R, B, p, mine, site)
            sizes(ctx, con, R, B, p, mine, site)
            positions(ctx, con, R, p, site)
            replacement(ctx, con, R, p, site)
            blocks(ctx, c, con, R, p, mine, site)
    twice(ctx, con, R, y, site)
    # dependence on the labels and domains
    D = Given()
    args = {v.id: k for k, v in R.args.get(("split", "N"), {}).items() if isinstance(v, Node)}
    need = ["sample_domain"] + (["y"] if "Stratified" in c.name else [])
    for part, node in zip(("training", "test"), y.args):
        got = {args[i] for i in D.of(node) if i in args}
        for q in need:
            if "Stratified" in c.name and q == "sample_domain" and q in got and q not in {args[i] for i in Exact().of(node) if i in args}:
                ctx.bad("depends", f"{con}({q}, {part})", site, f"the {part} indices do not tell all domains apart")
            ctx.check(q in got, "depends", f"{con}({q}, {part})", site, f"the {part} indices do not depend on {q}")


def blocks(ctx, c, con, R, p, mine, site):
    """A part cut from the samples of all domains, one domain after the other."""
    if not p.cuts or p.outer or not any("Shuffle" in k.name for k in c.project_mro()) and not any(ev.kind == "call" and call_tail(ev.node) == "_validate_shuffle_split" for ev in R.e.events):
        return
    r = p.root
    while r.op == "phi" and len(r.args) == 1:
        r = r.args[0]
    if r.op != "call" or call_tail(r) not in ("concatenate", "hstack") or pool_node(R, r) is None:
        return
    if any(ev.kind == "call" and call_tail(ev.node) == "shuffle" and len(ev.node.args) > 1 and r in flat_alts(ev.node.args[1]) for ev in R.e.events):
        return
    what = "training" if mine == "train" else "test"
    ctx.bad("blocks", f"{con}({what})", p.root.site or site, f"the {what} indices are cut from the samples of one domain after the other, which nothing shuffles: whole domains are in one part")


def ctor_names(R, n):
    return {v.val for v in flat_alts(n) if v.op == "param" and (v.extra or {}).get("role") == "ctor"}


def arguments(ctx, c, R):
    """The sizes asked for are given as what they are."""
    for ev in R.e.events:
        if ev.kind == "call" and call_tail(ev.node) == "_validate_shuffle_split":
            A = ev.node.args[1:]
            for k, q in ((1, "test_size"), (2, "train_size")):
                v = A[k] if len(A) > k else ev.node.kw.get(q)
                if v is None:
                    continue
                got = ctor_names(R, v)
                ctx.check(not got or q in got, "size", f"{c.full}.split({q})", ev.site, f"{q} is given {sorted(got)}")


def announced(ctx, c, S):
    """get_n_splits heeds the limits the splitter is given."""
    f, init = c.find("get_n_splits"), c.find("__init__")
    if f is None or init is None or not hasattr(init, "params"):
        return
    want = [q for q in init.params + init.kwonly if q in ("n_splits", "max_n_splits")]
    R = Run(ctx.p)
    try:
        R.make(c)
        R.call("get_n_splits", "N", given=("y", "sample_domain"))
    except Exception as x:
        ctx.und("announced", c.full, None, f"{type(x).__name__}: {x}")
        return
    r = R.results.get(("get_n_splits", "N"))
    if r is None:
        return
    ids = {ev.value[q].id: q for ev in R.e.events if ev.kind == "enter" and ev.phase == "init" and isinstance(ev.value, dict) for q in want if ev.value.get(q) is not None}
    got = {ids[i] for i in Deps().of(r) if i in ids}
    for q in want:
        ctx.check(q in got, "announced", f"{c.full}.get_n_splits({q})", f"{f.module.rel}:{f.node.lineno}", f"the number of splits announced does not depend on {q}")
    # the number of splits made, for some numbers of domains and some limits
    site = f"{f.module.rel}:{f.node.lineno}"
    for ev in S.e.events:
        if ev.kind != "yield" or ev.phase != "split" or any(g.op == "iter" and g.args[0].op == "gen" for g, _ in ev.guards) or ev.node.op == "elem" or ev.base is not None:
            continue
        its = [g.args[0] for g, _ in ev.guards if g.op == "iter"]
        if any(isinstance(x, (ast.While, ast.Break)) for h in ctx.p.functions() if h.module.rel == ev.site.file and h.qual == ev.site.func for x in ast.walk(h.node)):
            ctx.und("number", f"{c.full}.split", ev.site, "a loop with a condition of its own")
            continue
        bad, known = None, True
        for m in (1, 2, 3, 5):
            for d in (1, 2, 4):
                v = {q: m for q in want}
                made = 1
                for it in its:
                    k = length(it, v, d)
                    made = None if made is None or k is None else made * k
                said = number(r, v, d)
                if made is None or said is None:
                    known = False
                elif made != said:
                    bad = (m, d, made, said)
        if bad is not None:
            ctx.bad("number", f"{c.full}.split", ev.site, f"with {want[0]}={bad[0]} and {bad[1]} source domains {bad[2]} splits are made and {bad[3]} announced")
        elif known:
            ctx.ok("number", f"{c.full}.split", ev.site)
        else:
            ctx.und("number", f"{c.full}.split", ev.site, "number of splits of unknown form")


def number(n, v, d):
    """Value of an expression of sizes; d: number of source domains."""
    if n is None:
        return None
    if n.op == "const":
        return n.val if isinstance(n.val, (int, bool)) else None
    if n.op == "param":
        return v.get(n.val)
    if n.op == "phi" and len(n.args) == 2 and isinstance(n.val, Node):
        c = number(n.val, v, d)
        return None if c is None else number(n.args[0 if c else 1], v, d)
    if n.op in ("bin", "cmp") and len(n.args) == 2:
        a, b = number(n.args[0], v, d), number(n.args[1], v, d)
        if a is None or b is None:
            return None
        f = {"Add": int.__add__, "Sub": int.__sub__, "Mult": int.__mul__, "Gt": int.__gt__, "Lt": int.__lt__, "GtE": int.__ge__, "LtE": int.__le__, "Eq": int.__eq__, "NotEq": int.__ne__}.get(n.val)
        return f(a, b) if f else None
    if n.op == "unary" and n.val == "Not":
        a = number(n.args[0], v, d)
        return None if a is None else not a
    if n.op == "call":
        t = call_tail(n)
        if t in ("min", "max", "minimum", "maximum") and len(n.args) == 3:
            a, b = number(n.args[1], v, d), number(n.args[2], v, d)
            return None if a is None or b is None else (min if t.startswith("min") else max)(a, b)
        if t in ("len", "_num_samples") and len(n.args) == 2:
            return length(n.args[1], v, d)
        if t in ("int",) and len(n.args) == 2:
            return number(n.args[1], v, d)
    if n.op == "sub" and n.args[0].op == "attr" and n.args[0].val == "shape":
        return length(n.args[0].args[0], v, d)
    if n.op == "attr" and n.val == "size":
        return length(n.args[0], v, d)
    return None


def length(n, v, d):
    if n.op == "phi" and len(n.args) == 2 and isinstance(n.val, Node):
        c = number(n.val, v, d)
        return None if c is None else length(n.args[0 if c else 1], v, d)
    if n.op == "call":
        t = call_tail(n)
        if t == "range" or t == "arange":
            a = [number(x, v, d) for x in n.args[1:]]
            return None if None in a or not a else max(0, a[0] if len(a) == 1 else a[1] - a[0]) if len(a) < 3 else None
        if t in DRAWS and len(n.args) == 2:
            a = number(n.args[1], v, d)
            return a if a is not None else length(n.args[1], v, d)
        if t == "unique":
            return d
        if t in SAME_ORDER_FREE | {"enumerate"} and len(n.args) > 1:
            return length(n.args[1], v, d)
    if n.op == "sub" and n.args[1].op == "slice":
        lo, hi, step = n.args[1].args
        k = length(n.args[0], v, d)
        a = 0 if lo.op == "const" and lo.val is None else number(lo, v, d)
        b = k if hi.op == "const" and hi.val is None else number(hi, v, d)
        if None in (k, a, b) or not (step.op == "const" and step.val in (None, 1)):
            return None
        return len(range(k)[a:b])
    if n.op == "sub":
        return length(n.args[1], v, d)
    return None


def reshuffled(R, p, q):
    """The array both are cut from is shuffled after the one cut and before the other."""
    if p.draw is None or q.draw is None or p.draw is q.draw:
        return False
    at, sh = {}, []
    for k, ev in enumerate(R.e.events):
        if ev.kind == "sub" and ev.node is not None:
            at[ev.node.id] = k
        elif ev.kind == "call" and ev.node.args[0].op in ("attr", "ext") and call_tail(ev.node) == "shuffle" and len(ev.node.args) > 1 and ev.node.args[1].root is p.draw.args[0].root:
            sh.append(k)
    a, b = at.get(p.draw.id), at.get(q.draw.id)
    return a is not None and b is not None and any(min(a, b) < k < max(a, b) for k in sh)


def apart(R, B, p, q):
    a, b = rows_role(R, p), rows_role(R, q)
    if a and b and a != b or complementary(R, p, q):
        return True, ""
    if p.root is q.root and [o.id for o in p.outer] == [o.id for o in q.outer]:
        if not p.cuts or not q.cuts:
            if p.root.op in ("call", "update", "sub", "item"):
                return False, "training and test indices contain the same samples"
            return None, ""
        if reshuffled(R, p, q):
            return False, "the indices are shuffled again between the two cuts"
        if len(p.cuts) == 1 and len(q.cuts) == 1:
            v = B.disjoint(p.cuts[0], q.cuts[0])
            return v, f"training takes [{txt(p.cuts[0])}] and test [{txt(q.cuts[0])}] of the same permutation: they overlap for some sizes"
        return None, ""
    if p.root is not q.root and is_draw(p.root) and is_draw(q.root) and set_of(R, p) == set_of(R, q):
        return False, "training and test indices are cut from two different permutations of the same samples"
    for x, y in ((p, q), (q, p)):
        if is_draw(x.root) and not is_draw(y.root) and whole(R, x, y):
            return False, "one part is cut from a permutation of the samples and the other from the samples as they are"
    a, b = domain_pool(R, p.root), domain_pool(R, q.root)
    if a and b and a[0] is b[0] and a[1] != b[1]:
        return True, ""
    a, b = pool(R, p.root), pool(R, q.root)
    if p.root.root is not q.root.root and a is not None and a == b:
        return False, "training and test indices are drawn separately from the same samples"
    return None, ""


def domain_pool(R, n):
    """(call, 0 or 1): the source or the target part of the positions of all domains."""
    x = pool_node(R, n)
    while x is not None and x.op == "phi" and len(x.args) == 1:
        x = x.args[0]
    if x is None:
        return None
    sel = [c for c in ("SRC", "TGT") if pool_side(R, x) == c]
    return ("pool", sel[0]) if sel else None


def pool_side(R, x):
    """Domains a dictionary comprehension keeps, by the sign of their labels."""
    if x.op != "dictcomp":
        return None
    out = set()
    for conds in (x.extra or {}).get("conds", ()):
        for g, p in conds:
            if g.op == "cmp" and g.args[0].op == "dkey" and g.args[1].op == "const" and g.args[1].val == 0 and g.val in ("GtE", "Lt"):
                out.add("SRC" if (g.val == "GtE") == p else "TGT")
    return out.pop() if len(out) == 1 else None


def numbers(ctx, con, R, B, p, mine, site):
    """Sizes and draws are those of the set the piece is cut from."""
    side = rows_role(R, p)
    if side:
        for lo, hi in p.cuts:
            for b in (lo, hi):
                for t in parts(b):
                    z = B.size(t)
                    n = t.args[0].args[1] if z is not None and len(t.args[0].args) > 1 else None
                    if n is not None:
                        rs = {role(v.rows) for v in R.rows.get(n) if v.kind == "count"}
                        ctx.check(not rs or None in rs or side in rs, "numbers", f"{con}({mine})", t.site or p.root.site or site, "a part is cut to a size computed from the number of samples of the other kind of domain")
    if is_draw(p.root) and len(p.root.args) > 1 and p.outer:
        a, b = p.root.args[1], p.outer[-1]
        rs = {role(v.rows) for v in R.rows.get(a) if v.kind == "count"}
        bs = {role(v.rows) for v in R.rows.get(b) if v.kind == "idx"}
        if len(rs) == len(bs) == 1 and None not in rs | bs:
            ctx.check(rs == bs, "numbers", f"{con}({mine})", p.root.site or site, "positions are drawn among as many as there are samples of the other kind of domain")
        if a.op == "sub" and b.op == "sub" and b.args[0].op == "call" and call_tail(b.args[0]) in ("split", "array_split") and a.args[0].op == "call" and call_tail(a.args[0]) == "bincount":
            i, j = R.e.key(a.args[1]), R.e.key(b.args[1])
            ctx.check(i == j, "numbers", f"{con}({mine})", p.root.site or site, "the positions drawn for one group are looked up in another group")


def twice(ctx, con, R, y, site):
    """No piece occurs twice in one part."""
    for part, n in zip(("training", "test"), y.args):
        while n.op == "sub":
            n = n.args[1]
        if n.op == "call" and call_tail(n) in DRAWS and len(n.args) > 1:
            n = n.args[1]
        if n.op == "call" and call_tail(n) in ("concatenate", "hstack") and len(n.args) > 1 and n.args[1].op in ("list", "tuple"):
            xs = n.args[1].args
            ctx.check(len({x.root.id for x in xs}) == len(xs), "twice", f"{con}({part})", site, f"the {part} indices contain the same positions twice")


def whole(R, x, y):
    """x: a draw of all positions of a set; y: cut from that set itself."""
    if len(x.outer) == 1 and not y.outer and R.e.key(y.root) == R.e.key(x.outer[0]):
        a = x.root.args[1] if len(x.root.args) > 1 else None
        return a is not None and counts(R, a, y.root)
    if not x.outer and not y.outer and len(x.root.args) > 1:
        return x.root.args[1] is y.root
    return False


def counts(R, n, of):
    """n is the number of the positions in of."""
    if n.op == "call" and call_tail(n) in ("len", "_num_samples") and len(n.args) == 2:
        return n.args[1] is of
    if n.op == "sub" and n.args[0].op == "attr" and n.args[0].val == "shape":
        return n.args[0].args[0] is of
    if n.op == "attr" and n.val == "size":
        return n.args[0] is of
    a, b = R.rows.get(n), R.rows.get(of)
    if len(a) == len(b) == 1:
        (a,), (b,) = a, b
        return a.kind == "count" and b.kind == "idx" and a.rows == b.rows
    # counts of groups and the groups split by them
    return n.op == "sub" and call_tail(n.args[0]) == "bincount" if n.op == "sub" and n.args[0].op == "call" else False


def pool(R, n):
    x = pool_node(R, n)
    return None if x is None else R.e.key(x)


def pool_node(R, n):
    """The mapping of domains that the positions are drawn from, domain by domain."""
    d = 0
    while n is not None and d < 8:
        d += 1
        if n.op == "update" and n.val == "shuffle":
            n = n.args[0]
        elif n.op == "call" and call_tail(n) in {"concatenate", "hstack"} | DRAWS and len(n.args) > 1:
            n = n.args[1]
        elif n.op in ("comp", "list") and len(n.args) >= 1:
            n = n.args[0]
        elif n.op == "call" and n.args[0].op == "attr" and n.args[0].val == "choice" and len(n.args) > 1:
            v = n.args[1]
            return v.args[0] if v.op in ("dval", "elem") and v.args else None
        else:
            return None
    return None


def unfresh(r):
    return r[1] if r and r[0] == "fresh" else r


def complementary(R, p, q):
    """Positions in two complementary selections of the same samples."""
    for x, y in zip(p.outer or [p.root], q.outer or [q.root]):
        if x is y:
            continue
        a, b = R.rows.get(x), R.rows.get(y)
        if len(a) != 1 or len(b) != 1:
            return False
        (a,), (b,) = a, b
        if a.kind != "idx" or b.kind != "idx" or a.rows[0] != "sel" or b.rows[0] != "sel" or unfresh(a.over) != unfresh(b.over):
            return False
        s, t = a.rows[2], b.rows[2]
        return s == ("not", t) or t == ("not", s) or {s, t} == {"SRC", "TGT"}
    return False


def is_draw(n):
    return n.op == "call" and call_tail(n) in DRAWS


def txt(b):
    f = lambda n: "" if n.op == "const" and n.val is None else show(n, 3)
    return f"{f(b[0])}:{f(b[1])}"


def sizes(ctx, con, R, B, p, mine, site):
    for lo, hi in p.cuts:
        n = None
        if lo.op == "const" and lo.val in (None, 0):
            n = B.size(hi)
        elif hi.op == "bin" and hi.val == "Add":
            k = R.e.key(lo)
            rest = [a for a in hi.args if R.e.key(a) != k]
            if len(rest) == 1:
                n = B.size(rest[0])
        if n is not None and n[1] is not None:
            ctx.check(n[1] == mine, "size", f"{con}({mine})", p.root.site or site, f"the {mine}ing part gets the {n[1]} size" if mine == "train" else f"the test part gets the {n[1]}ing size")


def positions(ctx, con, R, p, site):
    """Innermost positions must index the arrays that were given."""
    n = p.outer[0] if p.outer else origin(R, p)
    vs = R.rows.get(n)
    if n.op == "call" and call_tail(n) == "len" and len(n.args) == 2 and any(q.cuts or q.outer for q in pieces(n.args[1]) or []):
        ctx.bad("positions", con, n.site or site, "positions in a selection of the samples are returned as positions in the arrays given")
        return
    if not vs:
        return
    for v in vs:
        rows = None
        if v.kind == "idx":
            rows = v.over
        elif v.kind == "count":
            rows = v.rows
        if rows is not None and rows[0] == "sel":
            ctx.bad("positions", con, n.site or site, "positions in a selection of the samples are returned as positions in the arrays given")
            return
    ctx.ok("positions", con, site)


def replacement(ctx, con, R, p, site):
    seen, stack = set(), [p.root] + list(p.outer)
    while stack:
        n = stack.pop()
        if not isinstance(n, Node) or n.id in seen or len(seen) > 400:
            continue
        seen.add(n.id)
        if n.op == "call" and n.args[0].op == "attr" and n.args[0].val in ("choice", "integers", "randint", "random_integers"):
            if n.args[0].val != "choice":
                if n is p.root:
                    ctx.bad("replacement", con, n.site or site, "indices are drawn with replacement")
                continue
            r = n.kw.get("replace") or (n.args[3] if len(n.args) > 3 else None)
            if r is None or r.op == "const" and r.val:
                ctx.bad("replacement", con, n.site or site, "indices are drawn with replacement: the same sample may be in both parts")
            continue
        if n.op in ("update", "comp", "loop", "phi", "list", "tuple", "item", "elem") or n.op == "call" and call_tail(n) in SAME_ORDER_FREE | DRAWS | {"concatenate", "hstack"}:
            stack.extend(n.args if n.op != "call" else n.args[1:])
        elif n.op == "sub":
            stack.extend(n.args)


# ------------------------------------------------------------------ leave one out
def neg_of(n):
    return n.args[0] if n.op == "unary" and n.val == "USub" else None


def left_out(ctx, c, R):
    """Masks that join, over all domains, the samples of each domain."""
    for n in {id(ev.node): ev.node for ev in R.e.events if ev.kind == "call" and call_tail(ev.node) in ("reduce", "any", "logical_or", "isin", "in1d")}.values():
        for x in n.args[1:]:
            if x.op != "comp" or not x.args:
                continue
            e = x.args[0]
            if e.op != "cmp" or e.val != "Eq" or len(e.args) != 2:
                continue
            lab = e.args[1]
            judge_label(ctx, c, R, lab, n)


def judge_label(ctx, c, R, lab, n):
    con = f"{c.full}.split(left out)"
    while lab.op == "call" and call_tail(lab) in ("abs", "absolute", "int") and len(lab.args) == 2 or lab.op == "unary" and lab.val == "UAdd":
        lab = lab.args[-1]
    if lab.op in ("elem",):
        ctx.bad("left-out", con, n.site, "the source samples of the left-out domain stay in the split")
        return
    if lab.op != "phi" or lab.val is None or lab.val.op != "cmp" or lab.val.val not in ("Eq", "NotEq") or len(lab.args) != 2:
        ctx.und("left-out", con, n.site, "selection of domains of unknown form")
        return
    left, right = lab.val.args
    identity(ctx, con, R, left, right, n)
    if lab.val.val == "NotEq":
        other, same_ = lab.args
    else:
        same_, other = lab.args
    k = R.e.key
    pair_ = {k(left), k(right)}
    def sign(x):
        if k(x) in pair_:
            return 1
        m = neg_of(x)
        if m is not None and k(m) in pair_:
            return -1
        return None
    s, o = sign(same_), sign(other)
    if s is None or o is None:
        ctx.und("left-out", con, n.site, "selection of domains of unknown form")
    elif s == -1 and o == 1:
        ctx.ok("left-out", con, n.site)
    else:
        ctx.bad("left-out", con, n.site, "the left-out domain is used as a source" if s == 1 else "domains that are not left out are used as targets")


def identity(ctx, con, R, left, right, n):
    """The domains gone through are those of the source samples, and another one is left out each time."""
    each = [x for x in (left, right) if x.op == "elem"]
    for x in each:
        for a in flat_alts(x.args[0]):
            if a.op == "call" and call_tail(a) == "unique" and len(a.args) > 1:
                # unique(abs(labels)) of all samples also names the domains: undecided
                if a.args[1].op == "call" and call_tail(a.args[1]) in ("abs", "absolute"):
                    continue
                a = a.args[1]
                while a.op == "unary" and a.val == "USub":
                    a = a.args[0]
                vs = R.rows.get(a)
                if not vs or not all(v.kind == "dom" and v.rows is not None for v in vs):
                    continue
                rs = {role(v.rows) if v.rows[0] != "all" else "ALL" for v in vs}
                if None not in rs:
                    ctx.check(rs == {"SRC"}, "left-out", con, n.site, "the domains that may be left out are not the domains of the source samples")
    for x in (left, right):
        if x in each or x.op != "sub":
            continue
        i = x.args[1]
        if i.op == "const":
            ctx.bad("left-out", con, n.site, "the same domain is left out in every split")
