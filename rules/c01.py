"""Row-provenance analysis.  Every adapter, estimator, selector and scorer is walked
symbolically (constructor, fit on a sample set N, prediction methods on a sample set M).
Each value carries the sample set, with order, its first axis stands for.  Decided:
(index) an array is only indexed by masks/indices over its own samples, (store) what is
written at masked positions describes exactly these positions, (paired) arrays handed
together to an inner fit/score call hold the same samples, (result) what is returned per
sample describes all samples of the call, in order, (split/merge) the public split and
merge helpers select by domain and put samples back.  A value whose provenance is not
known is counted as undecided, never reported."""

import ast

from sa.ctx import FIXTURE
from sa.facets import RV, arr, role, rows_str, sel
from sa.rowscan import ALLM, ALLN, PREDICT, class_runs, decided, differ, differ_len, kinds, strip
from sa.scenario import Run, selectors, splitters
from sa.vf import Engine, Node, callee_name, flat_alts, walk

ASSUMPTIONS = [
    "external row-wise functions (numpy element-wise operations, predict/transform of scikit-learn estimators) keep one output row per input row, in order",
    "loops and branches are joined, not enumerated; a definite mismatch is reported only when no joined alternative matches",
]

FIT_LIKE = {"fit", "partial_fit", "fit_predict", "fit_transform", "score"}
PAIR_FUN = {"accuracy_score", "log_loss", "mean_squared_error", "r2_score", "balanced_accuracy_score", "f1_score", "train_test_split"}


def run(ctx):
    n = 0
    for w, c, R in class_runs(ctx):
        n += 1
        scan_events(ctx, R)
        if w != "scorers":
            results(ctx, c, R, ("fit_transform",) if w == "selectors" else ())
            agree(ctx, c, R)
    for c in ctx.scoped(splitters(ctx.p)):
        n += 1
        R = Run(ctx.p)
        try:
            R.make(c)
            R.call("split", "N", given=("y", "sample_domain"))
        except Exception as x:
            ctx.und("walk", f"{c.full}.split", None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(R.e)
        scan_events(ctx, R)
    containers(ctx)
    relayed(ctx)
    companions(ctx)
    normalised(ctx)
    expanded(ctx)
    ctx.need(n, 30, "adapters, estimators, selectors, scorers and splitters")
    if not ctx.fixture:
        helpers(ctx)


def scan_events(ctx, R):
    rows = R.rows
    blocks(ctx, R)
    for ev in R.e.events:
        if ev.kind in ("sub", "setitem"):
            fi = rows.first_index(ev.index)
            if ev.kind == "sub" and fi is not None and fi.op == "slice" and ev.node is not None:
                first(ctx, R, ev)
            if ev.kind == "setitem" and fi is not None and fi.op == "slice":
                led(ctx, R, ev, fi)
            if fi is not None and fi.op == "unary" and fi.val == "Invert" and positions(fi.args[0]):
                ctx.bad("index", f"{ev.site.file}:{ev.site.func}", ev.site, "the bitwise complement of positions is used as if it were the complement of a mask")
            iv = rows.get(fi)
            if any(x.kind == "pos" for x in iv):
                position(ctx, R, ev, iv)
            ms = [x for x in iv if x.kind in ("mask", "idx") and x.over is not None]
            if not ms:
                continue
            bv = decided(rows.get(ev.base))
            con = f"{ev.site.file}:{ev.site.func}"
            if bv:
                if all(loose(x, m) and differ_len(x.rows, m.over) or not loose(x, m) and differ(x.rows, m.over) for x in bv for m in ms):
                    ctx.bad("index", con, ev.site, f"{rows_str(list(bv)[0].rows)} indexed by a mask over {rows_str(ms[0].over)}")
                else:
                    ctx.ok("index", f"{con}:{ev.site.line}")
            else:
                ctx.und("index", f"{con}:{ev.site.line}", ev.site, "provenance of the array not known")
            if ev.kind == "setitem":
                unseen(ctx, R, ev, ms)
                vv = [x for x in decided(rows.get(ev.value)) if x.rows[0] != "fresh"]
                if vv:
                    want = [x.rows if x.kind == "idx" else rows_of(x) for x in ms]
                    if all(differ(x.rows, s) for x in vv for s in want):
                        ctx.bad("store", con, ev.site, f"values of {rows_str(list(vv)[0].rows)} written at positions of {rows_str(want[0])}")
                    else:
                        ctx.ok("store", f"{con}:{ev.site.line}")
        elif ev.kind == "bin":
            if ev.node.val == "MatMult":
                contract(ctx, R, ev, *ev.node.args)
            elif ev.node.val in ("Add", "Sub", "Mult", "Div", "Pow"):
                combined(ctx, R, ev)
        elif ev.kind == "getattr":
            recognised(ctx, R, ev)
        elif ev.kind == "call":
            paired(ctx, R, ev)
            n = ev.node
            tail = (callee_name(n) or "").split(".")[-1]
            if tail in ("dot", "matmul") and len(n.args) > 1:
                contract(ctx, R, ev, *(n.args[1:3] if len(n.args) > 2 else (n.args[0].args[0], n.args[1]) if n.args[0].op == "attr" else (None, None)))
            if callee_name(n) in TRANSPORT:
                transport(ctx, R, ev)
        elif ev.kind == "enter" and isinstance(ev.value, dict) and ev.depth:
            given_together(ctx, R, ev)


TRANSPORT = {"ot.solve": (1, 2, 0), "ot.emd": (0, 1, 2), "ot.sinkhorn": (0, 1, 2), "ot.emd2": (0, 1, 2), "ot.sinkhorn2": (0, 1, 2)}


def loose(x, m):
    """The order of one of them is open: a new array, or positions 0, 1, ..."""
    return x.rows[0] == "fresh" or m.over[0] == "fresh" or m.kind == "idx" and m.pol is None and m.rows == m.over


def axes(R, n):
    return [(x.rows, x.over) for x in decided(R.rows.get(n)) if x.kind == "arr"] if n is not None else []


def clash(A, B):
    """No alternative of the one fits the other; or one of them is in another order."""
    if all(differ(a, b) for a in A for b in B):
        return True
    for P, Q in ((A, B), (B, A)):
        if len(set(Q)) == 1 and any(a[0] == "take" and isinstance(a[2], tuple) and a[2][0] == "order" and differ(a, Q[0]) for a in P):
            return True
    return False


def combined(ctx, R, ev):
    """Arrays computed with element by element hold the same samples."""
    l, r = ([fitted(x.rows) for x in decided(R.rows.get(a)) if x.kind in ("arr", "mask") and x.rows[0] != "fresh"] for a in ev.node.args)
    if not l or not r:
        return
    con = f"{ev.site.file}:{ev.site.func}"
    if all(differ(a, b) and role(a) is not None and role(b) is not None for a in l for b in r):
        ctx.bad("paired", con, ev.site, f"{rows_str(l[0])} computed with {rows_str(r[0])} element by element")
    else:
        ctx.ok("paired", f"{con}:{ev.site.line}")


SIZE = ("builtins.len", "numpy.shape", "sklearn.utils.validation._num_samples")


def sizes(n, d=0):
    """Values whose size, and nothing else, a term depends on."""
    if d > 6:
        return None
    if n.op == "call" and callee_name(n) in SIZE and len(n.args) == 2:
        return [n.args[1]]
    if n.op == "attr" and n.val in ("shape", "size"):
        return [n.args[0]]
    if n.op in ("sub", "item") and n.args[0].op == "attr" and n.args[0].val == "shape":
        return [n.args[0].args[0]]
    if n.op == "const":
        return []
    if n.op in ("bin", "cmp", "bool", "unary", "tuple"):
        out = []
        for a in n.args:
            s = sizes(a, d + 1)
            if s is None:
                return None
            out += s
        return out
    return None


def recognised(ctx, R, ev):
    """Samples given later are taken for those of the fit by their features, not by their
    number."""
    if ev.phase in ("init", "fit", "fit_transform") or ev.node is None:
        return
    x = decided(R.rows.get(ev.node))
    if not x or any(a.kind != "arr" or strip(a.rows) is None or "'N'" not in repr(a.rows) for a in x):
        return
    con = f"{ev.site.file}:{ev.site.func}"
    known = False
    for g, pol in ev.guards:
        if not pol or g.op != "cmp" or g.val != "Eq":
            continue
        s = sizes(g)
        if s and all(decided(R.rows.get(a)) for a in s):
            b = {q for a in s for y in decided(R.rows.get(a)) for q in ("'N'", "'M'") if q in repr(y.rows)}
            known = known or len(b) == 2 and ev.site
    if known and not any(callee_name(q) in ("numpy.array_equal", "numpy.allclose", "numpy.all", "torch.equal") or q.op == "bool" for q, _ in ev.guards):
        ctx.bad("recognised", con, ev.site, "samples are taken for those of the fit because they are as many")


def compared(R, guards):
    """Kinds of samples of the call that are known, by the conditions that hold, to be those of
    the fit; None when there is no telling."""
    out, some = set(), False
    for g, pol in guards:
        own = [x for x in walk(g) if callee_name(x) in SAME]
        if not own:
            continue
        if g in own and pol:
            for a in g.args[1:]:
                for v in decided(R.rows.get(a)):
                    out |= sides(v.rows)
            some = True
        elif pol and g.op == "bool" and g.val == "Or":
            some = True
        elif pol:
            return None
    return out if some else None


SAME = ("numpy.array_equal", "numpy.allclose", "torch.equal", "torch.allclose")


def sides(r):
    """Kinds of samples of the call, source and target, among rows."""
    t = repr(r)
    if "'M'" not in t:
        return set()
    return {q for q in ("SRC", "TGT") if repr(q) in t} or {"SRC", "TGT"}


def unseen(ctx, R, ev, ms):
    """What is written for samples of the call without a look at them is what was learned for
    the samples of the fit they have been compared with."""
    want = {m.pol for m in ms if m.kind == "mask" and strip(m.over) == ("all", "M") and m.pol in ("SRC", "TGT")}
    if ev.phase not in PREDICT or len(want) != 1 or ev.value is None:
        return
    known = compared(R, ev.guards)
    if known is None or want <= known:
        return
    own = R.args.get((ev.phase, "M"), {})
    x = own.get("X")
    if x is None:
        return
    for a in flat_alts(ev.value):
        if a.op == "sub" and learned_only(a, x):
            side = "target" if want == {"TGT"} else "source"
            ctx.bad("recognised", f"{R.self_node.val.cls.full}.{ev.phase}", ev.site, f"{side} samples are given what was learned from those of the fit, without having been compared with them")


def learned_only(n, x):
    """Made of attributes, the samples given being asked for their number at most."""
    seen, stack, attrs = set(), [n], False
    while stack:
        q = stack.pop()
        if not isinstance(q, Node) or q.id in seen or q.op == "attr" and q.val in ("shape", "size", "ndim", "dtype"):
            continue
        if q.op == "slice":
            continue
        seen.add(q.id)
        if q is x or len(seen) > 4000:
            return False
        if q.op == "param" and q.val != "self":
            attrs = True
        stack.extend(q.args)
        stack.extend(q.kw.values())
    return attrs


def fitted(r):
    return r if not isinstance(r, tuple) else ("all", "N") if r == ("all", "M") else tuple(fitted(x) for x in r)


def contract(ctx, R, ev, l, r):
    """The axis summed over in a matrix product stands for the same samples on both sides."""
    # samples given later may have been found equal to those of the fit
    L = [fitted(c) for _, c in axes(R, l) if c is not None]
    Q = [fitted(x.rows) for x in decided(R.rows.get(r))] if r is not None else []
    if not L or not Q:
        return
    con = f"{ev.site.file}:{ev.site.func}"
    if ev.phase in PREDICT and all("'N'" in repr(x.rows) for x in decided(R.rows.get(r))):
        known = compared(R, ev.guards)
        want = set().union(*[sides(c) for _, c in axes(R, l) if c is not None])
        if known is not None and want - known:
            ctx.bad("recognised", con, ev.site, f"{'target' if 'TGT' in want - known else 'source'} samples are taken for those of the fit without having been compared with them")
    if all(("fresh" in (a[0], b[0]) and differ_len(a, b)) or "fresh" not in (a[0], b[0]) and differ(a, b) for a in L for b in Q):
        ctx.bad("contract", con, ev.site, f"product sums over {rows_str(L[0])} with {rows_str(Q[0])}")
    else:
        ctx.ok("contract", f"{con}:{ev.site.line}")


def transport(ctx, R, ev):
    """The weights of a transport problem follow the rows and columns of the cost."""
    n = ev.node
    pos = n.args[1:]
    ia, ib, im = TRANSPORT[callee_name(n)]
    if max(ia, ib, im) >= len(pos):
        return
    con = f"{ev.site.file}:{ev.site.func}"
    for i, k in ((ia, 0), (ib, 1)):
        M = [x[k] for x in axes(R, pos[im]) if x[k] is not None]
        W = [x.rows for x in decided(R.rows.get(pos[i]))]
        if not M or not W:
            continue
        if all("fresh" in (a[0], b[0]) and differ_len(a, b) for a in M for b in W) or clash(M, W):
            ctx.bad("paired", con, ev.site, f"cost over {rows_str(M[0])}, weights of {rows_str(W[0])}")
        else:
            ctx.ok("paired", f"{con}:{ev.site.line}:{k}")


def led(ctx, R, ev, i):
    """Selected samples written at the start of an array that holds all of them in order."""
    lo, hi, st = i.args
    none = lambda a: a.op == "const" and a.val in (None, 0)
    if not none(lo) or not none(st) or none(hi):
        return
    bv, vv = decided(R.rows.get(ev.base)), decided(R.rows.get(ev.value)) if ev.value is not None else []
    if bv and vv and all(b.rows[0] == "all" and v.rows[0] in ("sel", "take") and v.rows[1] == b.rows and not (isinstance(v.rows[2], tuple) and v.rows[2][0] in ("end", "part")) for b in bv for v in vv):
        ctx.bad("store", f"{ev.site.file}:{ev.site.func}", ev.site, f"{rows_str(vv[0].rows)} written at the start of {rows_str(bv[0].rows)}")


def first(ctx, R, ev):
    """The first samples of an array in the order of the call, as many as there are sources, are
    not the sources."""
    xs = decided(R.rows.get(ev.node))
    if xs and all(x.kind in ("arr", "dom") and x.rows[0] == "take" and x.rows[1][0] == "all" and isinstance(x.rows[2], tuple) and x.rows[2][0] == "end" and isinstance(x.rows[2][2], tuple) and x.rows[2][2][0] == "sel" and x.rows[2][2][1] == x.rows[1] and role(x.rows[2][2]) is not None for x in xs):
        ctx.bad("index", f"{ev.site.file}:{ev.site.func}", ev.site, f"takes {'the first' if xs[0].rows[2][1] else 'all but the first'} samples, as many as there are {'sources' if role(xs[0].rows[2][2]) == 'SRC' else 'targets'}, for the samples of one domain")


def position(ctx, R, ev, iv):
    """A position counted over one array picks from an array of the same samples."""
    bv = [x for x in decided(R.rows.get(ev.base)) if x.rows[0] in ("all", "sel")]
    ps = [x.rows for x in iv if x.kind == "pos"]
    con = f"{ev.site.file}:{ev.site.func}"
    if not bv or len(ps) != len(iv) or any(p[0] not in ("all", "sel") for p in ps):
        return
    if all(differ_len(x.rows, p) for x in bv for p in ps):
        ctx.bad("index", con, ev.site, f"{rows_str(bv[0].rows)} at a position counted over {rows_str(ps[0])}")
    else:
        ctx.ok("index", f"{con}:{ev.site.line}")


def blocks(ctx, R):
    """One array filled partly at masked positions and partly block by block."""
    masked, block = {}, {}
    for ev in R.e.events:
        if ev.kind != "setitem" or ev.value is None:
            continue
        b = ev.base.root
        i = R.rows.first_index(ev.index)
        if any(x.kind == "mask" for x in R.rows.get(i)):
            masked[b.id] = ev
        elif i is not None and i.op == "slice" and any(x.rows[0] == "sel" for x in decided(R.rows.get(ev.value))):
            block[b.id] = ev
    for b in set(masked) & set(block):
        ev = block[b]
        ctx.bad("store", f"{ev.site.file}:{ev.site.func}", ev.site, "the samples of one domain are written as a block into an array whose other samples are written at their own positions")


SAMPLEWISE = ("X", "y", "sample_domain", "sample_weight")


def given_together(ctx, R, ev):
    """A function of the package is given arrays of the same samples."""
    vals = [(k, decided(R.rows.get(ev.value[k]))) for k in SAMPLEWISE if ev.value.get(k) is not None]
    vals = [(k, v) for k, v in vals if v]
    con = f"{ev.site.file}:{ev.site.func}"
    for i, (k1, a) in enumerate(vals):
        for k2, b in vals[i + 1 :]:
            if clash([x.rows for x in a], [y.rows for y in b]):
                ctx.bad("paired", con, ev.site, f"{ev.name.split(':')[-1]}({k1}= {rows_str(list(a)[0].rows)}, {k2}= {rows_str(list(b)[0].rows)})")
            else:
                ctx.ok("paired", f"{con}:{ev.site.line}:{k1},{k2}")


def rows_of(m):
    from sa.facets import sel

    return sel(m.over, m.pol)


def paired(ctx, R, ev):
    n = ev.node
    nm = callee_name(n) or ""
    tail = nm.split(".")[-1]
    if not (tail in FIT_LIKE and nm.startswith(".") or tail in PAIR_FUN):
        return
    group = []
    kw = dict(n.kw)
    pos = list(n.args[1:])
    if any(x.op == "star" for x in pos):
        return
    if {"Xs", "Xt"} & set(kw):
        groups = [[("Xs", kw.get("Xs")), ("ys", kw.get("ys"))], [("Xt", kw.get("Xt")), ("yt", kw.get("yt"))]]
    else:
        names = ["X", "y", "sample_weight"]
        group = [(names[i] if i < 3 else str(i), a) for i, a in enumerate(pos[:2] if nm.startswith(".") else pos)]
        group += [(k, v) for k, v in kw.items() if k in ("X", "y", "sample_weight", "sample_domain", "y_true", "y_pred")]
        if "**" in kw:
            d = kw["**"]
            items = R.e.dict_items(d, R.st)[0] if d is not None else {}
            group += [(k, v) for k, v in items.items() if k in ("sample_weight", "sample_domain", "y")]
        groups = [group]
    con = f"{ev.site.file}:{ev.site.func}"
    for g in groups:
        by = [(k, chosen(R, v)) for k, v in g if v is not None]
        by = [(k, q) for k, q in by if q is not None]
        for k, q in by[1:]:
            if q[0] is by[0][1][0] and q[1] != by[0][1][1]:
                ctx.bad("paired", con, ev.site, f"{tail}: {by[0][0]} and {k} were picked by a mask and by its complement")
        vals = [(k, decided(R.rows.get(v))) for k, v in g if v is not None]
        vals = [(k, v) for k, v in vals if v]
        for i in range(len(vals)):
            for j in range(i + 1, len(vals)):
                (k1, a), (k2, b) = vals[i], vals[j]
                if clash([x.rows for x in a], [y.rows for y in b]):
                    ctx.bad("paired", con, ev.site, f"{tail}({k1}= {rows_str(list(a)[0].rows)}, {k2}= {rows_str(list(b)[0].rows)})")
                else:
                    ctx.ok("paired", f"{con}:{ev.site.line}:{k1},{k2}")


def positions(n, d=0):
    """Whether a value is an array of positions."""
    if d > 6:
        return False
    if n.op in ("sub", "item"):
        return n.args[0].op in ("call", "elem", "item") and positions(n.args[0], d + 1)
    if n.op == "phi":
        return bool(n.args) and all(positions(a, d + 1) for a in n.args)
    if n.op == "elem":
        return bool(n.args) and positions(n.args[0], d + 1)
    if n.op != "call":
        return False
    t = (callee_name(n) or "").split(".")[-1]
    return t in ("nonzero", "flatnonzero", "argwhere", "argsort", "permutation", "arange") or t == "where" and len(n.args) == 2


def chosen(R, v):
    """(mask, whether it is taken as it is) of an array that was picked by a mask."""
    v = R.e.cur(v, R.st) if v is not None else None
    if v is None or v.op != "sub":
        return None
    i, pol = R.rows.first_index(v.args[1]), True
    while i is not None and (i.op == "unary" and i.val in ("Invert", "Not") or i.op == "call" and (callee_name(i) or "").split(".")[-1] == "logical_not" and len(i.args) == 2):
        i, pol = i.args[-1], not pol
    return None if i is None or i.op in ("slice", "const") or positions(i) else (i, pol)


def flat(R, n, depth=0):
    """Per-sample parts of a returned value."""
    n = R.e.cur(n, R.st)
    if depth > 4 or n is None:
        return []
    if n.op in ("tuple", "list"):
        return [x for a in n.args for x in flat(R, a, depth + 1)]
    b = n
    while b.op == "update":
        b = b.args[0]
    if n.op == "dict" or n.op == "update" and b.op in ("dict", "phi", "call"):
        items, _ = R.e.dict_items(n, R.st)
        if n.op == "update" and not items and b.op != "dict":
            return [n]
        return [x for v in items.values() for x in flat(R, v, depth + 1)]
    if n.op == "phi" and any(a.op in ("tuple", "list", "dict", "phi") for a in n.args):
        return [x for a in n.args for x in flat(R, a, depth + 1)]
    if n.op == "inst":
        out = []
        for (o, attr), v in list(R.st.heap.items()):
            if o is n.val and attr in ("_features", "_labels", "_metadata"):
                out += flat(R, v, depth + 1)
        return out
    return [n]


def results(ctx, c, R, skip):
    for (m, b), r in R.results.items():
        # a selector's fit_transform may return the samples it has selected
        if r is None or m in skip or m not in PREDICT + ("fit_transform",):
            continue
        fi = c.find(m)
        con = f"{c.full}.{m}"
        want = ("all", b)
        seen = False
        for part in flat(R, r):
            for x in R.rows.get(part):
                if x.kind not in ("arr", "dom") or x.rows is None:
                    continue
                rr = x.rows
                if rr[0] == "fresh" and rr[1] is not None and differ_len(rr[1], want):
                    ctx.bad("result", con, part.site or fi.qual, f"returns an array sized for {rows_str(rr[1])} instead of {rows_str(want)}")
                elif rr[0] != "fresh" and differ(rr, want):
                    ctx.bad("result", con, part.site or fi.qual, f"returns rows of {rows_str(rr)} instead of {rows_str(want)}")
                seen = True
        if seen:
            ctx.ok("result", con)
        else:
            ctx.und("result", con, None, "provenance of the result not known")


def returned(t):
    """The tuples a tuple of joins was made of."""
    n = max([len(a.args) for a in t.args if a.op == "phi"] or [1])
    if any(a.op == "phi" and len(a.args) != n for a in t.args) or len({a.val.id if a.val is not None else None for a in t.args if a.op == "phi"}) > 1:
        return []
    return [[a.args[i] if a.op == "phi" else a for a in t.args] for i in range(n)]


def entries(d):
    """Entries of a dict built step by step."""
    out = {}
    for _ in range(20):
        if d.op == "dict":
            return {**{k: v for k, v in d.val or [] if k != "**"}, **out}
        if d.op != "update":
            return out
        if d.val == "setitem" and d.args[1] is not None and d.args[1].op == "const":
            out.setdefault(d.args[1].val, d.args[2])
        d = d.args[0]
    return out


def agree(ctx, c, R):
    """What fit_transform returns together describes the same samples in the same order."""
    r = R.results.get(("fit_transform", "N"))
    fi = c.find("fit_transform")
    con = f"{c.full}.fit_transform"
    for t, args in [(t, g) for t in (flat_alts(r) if r is not None else []) if t.op == "tuple" and len(t.args) > 1 for g in returned(t)]:
        parts = []
        for a in args:
            for x in flat_alts(a):
                if x.op in ("dict", "update") and x.root.op == "dict":
                    parts += [(k, v) for k, v in entries(x).items() if k in ("sample_domain", "sample_weight")]
                else:
                    parts.append(("result", a))
                    break
        vals = [(k, decided(R.rows.get(v))) for k, v in parts]
        vals = [(k, v) for k, v in vals if v]
        bad = [(k, a, m, b) for i, (k, a) in enumerate(vals) for m, b in vals[i + 1 :] if all(x.rows[0] != "fresh" and y.rows[0] != "fresh" and differ(x.rows, y.rows) for x in a for y in b)]
        for k, a, m, b in bad[:1]:
            ctx.bad("agree", con, t.site or fi.qual, f"returns {k} of {rows_str(a[0].rows)} with {m} of {rows_str(b[0].rows)}")
        if len(vals) > 1 and not bad:
            ctx.ok("agree", con)


def containers(ctx):
    """Selectors given what an earlier step hands on: features, labels and metadata of the
    samples that step kept."""
    mc = ctx.p.cls("MetadataContainer")
    if mc is None:
        return
    K = ("all", "K")
    for c in ctx.scoped(selectors(ctx.p)):
        for m in ("fit", "fit_transform"):
            R = Run(ctx.p)
            e = R.e
            try:
                R.make(c)
                F, L, D, W = (e.param(k, nonnull=True, array=True, role="data") for k in ("kept features", "kept labels", "kept domains", "kept weights"))
                R.seeds.update({F.id: arr(K), L.id: arr(K), W.id: arr(K), D.id: RV("dom", K, None, None)})
                box, R.st = e.instance(mc, st=R.st, label="container")
                for k, v in (("_features", F), ("_labels", L), ("_metadata", e.mk("dict", (D, W), val=[("sample_domain", D), ("sample_weight", W)]))):
                    R.st.heap[(box.val, k)] = v
                R.call(m, "N", args={"X": box})
            except Exception as x:
                ctx.und("walk", f"{c.full}.{m}(container)", None, f"{type(x).__name__}: {x}")
                continue
            ctx.analysed(e)
            scan_events(ctx, R)


def expanded(ctx):
    """Arrays over pairs (a row and a class, say), made by repeating rows, tiling others and
    flattening a table of all pairs: those returned or used together enumerate the pairs in
    the same order, and are cut alike."""
    for f in ctx.scoped(list(ctx.p.functions())):
        if f.cls is not None or not {"repeat", "tile"} & {name_tail(x.func) for x in ast.walk(f.node) if isinstance(x, ast.Call)}:
            continue
        e = Engine(ctx.p)
        try:
            r, st = e.run(f, {q: e.param(q, nonnull=True, array=True) for q in f.all_params})
        except Exception as x:
            ctx.und("walk", f.full, None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(e)
        groups = [(a.args, a.site) for a in (flat_alts(r) if r is not None else []) if a.op == "tuple"]
        groups += [(ev.node.args[1:] + tuple(ev.node.kw.values()), ev.site) for ev in e.events if ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val in FIT_LIKE]
        for g, site in groups:
            known = [(x, *pairs_of(x)) for x in g if isinstance(x, Node)]
            known = [k for k in known if k[1] is not None]
            for i, (x, gx, cx) in enumerate(known):
                for y, gy, cy in known[:i]:
                    off = any(a is not None and b is not None and a[0] == b[0] and a[1] != b[1] for a, b in zip(gx, gy))
                    con = f"{f.full}: {i}"
                    if off:
                        ctx.bad("expanded", con, x.site or f.full, "arrays used together enumerate the pairs in different orders (repeated against tiled)")
                    elif len(cx) == len(cy) and any(counted(a, b) for a, b in list(zip(cx, cy)) + list(zip(cy, cx))):
                        ctx.bad("expanded", con, x.site or f.full, "one array keeps the first entries, as many as the mask of the other selects")
                    else:
                        ctx.ok("expanded", con)


def pairs_of(x):
    """(sizes of the outer and inner axis of the pairs an array enumerates, cuts made)."""
    cuts = []
    while x.op == "sub":
        cuts.append(x.args[1])
        x = x.args[0]
    if x.op != "call":
        return None, cuts
    tail = (callee_name(x) or "").split(".")[-1]
    meth = x.args[0].op == "attr"
    args = ((x.args[0].args[0],) if meth else ()) + x.args[1:]
    if tail == "repeat" and len(args) >= 2:
        n = x.kw.get("repeats", args[1])
        return (None, size_of(n)), cuts
    if tail == "tile" and len(args) >= 2:
        n = x.kw.get("reps", args[1])
        if n.op in ("tuple", "list") and n.args:
            if any(k.op != "const" or k.val != 1 for k in n.args[1:]):
                return None, cuts
            n = n.args[0]
        return (size_of(n), None), cuts
    if tail in ("flatten", "ravel") and args and len(x.args) == 1 + (not meth) and not x.kw:
        m, flip = args[0], False
        while m.op == "attr" and m.val == "T":
            m, flip = m.args[0], not flip
        return ((m.root.id, int(flip)), (m.root.id, 1 - int(flip))), cuts
    return None, cuts


def size_of(n):
    """(table, axis) when a number is the length of an axis of a table."""
    if n.op in ("sub", "item"):
        b, k = n.args[0], n.args[1].val if n.op == "sub" and n.args[1].op == "const" else n.val if n.op == "item" else None
        if b.op == "attr" and b.val == "shape" and k in (0, 1, -1, -2):
            return (b.args[0].root.id, k % 2)
    if n.op == "call" and callee_name(n) == "builtins.len" and len(n.args) == 2:
        return (n.args[1].root.id, 0)
    return None


def counted(a, b):
    """Whether b is a slice up to the number of entries that the mask a selects."""
    if b.op != "slice" or a.op == "slice":
        return False
    hi = b.args[1]
    nm = (callee_name(hi) or "").split(".")[-1] if hi.op == "call" else ""
    if nm not in ("sum", "count_nonzero"):
        return False
    of = hi.args[0].args[0] if hi.args[0].op == "attr" else hi.args[1] if len(hi.args) > 1 else None
    return of is a


def normalised(ctx):
    """Probabilities of a batch are normalised per sample: over the classes, not over the batch."""
    for f in ctx.scoped(list(ctx.p.functions())):
        if not f.module.name.startswith(("skada.deep", FIXTURE)):
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            tail = name_tail(x.func)
            if tail == "partial" and x.args:
                tail = name_tail(x.args[0])
            if tail not in ("softmax", "log_softmax", "Softmax", "LogSoftmax", "gumbel_softmax"):
                continue
            d = [k.value for k in x.keywords if k.arg in ("dim", "axis")]
            d = d or ([x.args[0]] if tail.startswith(("Soft", "Log")) and x.args else x.args[1:2])
            v = None
            try:
                v = ast.literal_eval(d[0]) if d else None
            except ValueError:
                pass
            if v is None:
                continue
            ctx.check(v not in (0, -2), "normalised", f"{f.full}({tail})", f"{f.module.rel}:{x.lineno} ({f.qual})", "the outputs are normalised over the samples of the batch instead of the classes")


def name_tail(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""


def relayed(ctx):
    """Selectors once more, with the entries of the metadata followed through routing: what
    they give to the estimators they hold describes the same samples."""
    for c in ctx.scoped(selectors(ctx.p)):
        for m in ("fit", "fit_transform", "predict", "score"):
            if c.find(m) is None:
                continue
            R = Run(ctx.p)
            R.e.relay = True
            try:
                R.make(c)
                if m in ("predict", "score"):
                    R.call("fit", "N")
                k = len(R.e.events)
                R.call(m, "N")
            except Exception as x:
                ctx.und("walk", f"{c.full}.{m}(relayed)", None, f"{type(x).__name__}: {x}")
                continue
            for ev in R.e.events[k:]:
                if ev.kind == "call":
                    paired(ctx, R, ev)
                    routed(ctx, c, R, ev)


def routed(ctx, c, R, ev):
    """Features and metadata of one call agree on every path that leads to it."""
    n = ev.node
    nm = callee_name(n) or ""
    if nm.split(".")[-1] not in FIT_LIKE or not nm.startswith(".") or len(n.args) < 2 or any(x.op == "star" for x in n.args):
        return
    con = f"{c.full}:{ev.site.func}"
    vals = [(k, v) for k, v in dict(n.kw).items() if k in ("sample_domain", "sample_weight")]
    if len(n.args) > 2:
        vals.append(("y", n.args[2]))
    for k, v in vals:
        bad = None
        for p, q in ((n.args[1], v), (v, n.args[1])):
            for a, asg in under(R, p, {}):
                for b, more in under(R, q, asg) if a is not None else ():
                    # no further condition: the one goes with the other whenever it comes about
                    if b is not None and more == asg and a[0] != "fresh" and b[0] != "fresh" and differ(a, b):
                        bad = bad or ((a, b) if p is not v else (b, a))
        if bad:
            ctx.bad("routed", con, ev.site, f"{nm.split('.')[-1]}(X= {rows_str(bad[0])}, {k}= {rows_str(bad[1])}) on a path")
        else:
            ctx.ok("routed", f"{con}:{k}")


def under(R, n, asg, depth=0):
    """The samples a value holds, for each way the conditions it was joined under turn out."""
    n = R.e.cur(n, R.st)
    if depth > 30:
        return [(None, asg)]
    if n.op == "phi" and isinstance(n.val, Node) and len(n.args) == 2:
        side = turns(R, n.val, asg, depth)
        if side == "?":
            return [(None, asg)]
        if side is not None:
            return under(R, n.args[side], asg, depth + 1)
        return [q for i in (0, 1) for q in under(R, n.args[i], {**asg, **supposed(R, n.val, i)}, depth + 1)][:128]
    if n.op == "phi":
        out = [q for a in n.args if a.op != "unbound" for q in under(R, a, asg, depth + 1)]
        return [(out[0][0] if len({q[0] for q in out}) == 1 else None, asg)] if out else [(None, asg)]
    if n.op == "sub":
        out = []
        for b, a1 in under(R, n.args[0], asg, depth + 1):
            for m, a2 in indices(R, n.args[1], a1):
                rv = R.rows.get(m) if m is not None else ()
                ms = [x for x in rv if x.kind in ("mask", "idx") and x.over is not None]
                if ms and all(x.kind == "idx" for x in rv) and all(not differ(x.over, b) for x in ms):
                    out += under(R, m, a2, depth + 1)
                    continue
                own = [x for x in ms if x.over == b] or (ms if len(ms) == 1 and not differ(ms[0].over, b) else [])
                got = {sel(x.over, x.pol) for x in own if x.kind == "mask"}
                out.append((next(iter(got)) if len(got) == 1 and b is not None and len(rv) == len(ms) else None, a2))
        return out[:128]
    got = [x for x in R.rows.get(n)]
    return [(got[0].rows if len({x.rows for x in got}) == 1 and got[0].kind in ("arr", "dom", "idx") else None, asg)]


def turns(R, cond, asg, depth):
    """The side taken where the condition is known to hold (0) or not (1)."""
    if cond.op == "unary" and cond.val == "Not":
        r = turns(R, cond.args[0], asg, depth)
        return 1 - r if r in (0, 1) else r
    got = asg.get(R.e.key(cond))
    if got is not None:
        return got
    if cond.op == "bool":
        parts = [turns(R, a, asg, depth) for a in cond.args]
        stop = 1 if cond.val == "And" else 0
        if stop in parts:
            return stop
        if all(x == 1 - stop for x in parts):
            return 1 - stop
    return lengths(R, cond, asg, depth)


def supposed(R, cond, side):
    """What holds with a condition on that side."""
    if cond.op == "unary" and cond.val == "Not":
        return supposed(R, cond.args[0], 1 - side)
    out = {R.e.key(cond): side}
    if cond.op == "bool" and side == (0 if cond.val == "And" else 1):
        for a in cond.args:
            out.update(supposed(R, a, side))
    return out


def indices(R, n, asg):
    n = R.e.cur(n, R.st)
    if n.op == "phi" and isinstance(n.val, Node) and len(n.args) == 2:
        side = turns(R, n.val, asg, 10)
        if side == "?":
            return [(None, asg)]
        if side is not None:
            return indices(R, n.args[side], asg)
        return [q for i in (0, 1) for q in indices(R, n.args[i], {**asg, **supposed(R, n.val, i)})]
    return [(n, asg)]


def sizes_of(R, n, asg, depth):
    n = R.e.cur(n, R.st)
    if n.op == "cmp" and any(x.kind == "mask" for x in R.rows.get(n)) or n.op == "unary" and n.val in ("Invert", "Not"):
        got = {r for q in n.args for r, _ in under(R, q, asg, depth + 1) if r is not None}
        return next(iter(got)) if len(got) == 1 else None
    for m, a in indices(R, n, asg)[:1] if n.op == "phi" else [(n, asg)]:
        ms = {x.over for x in R.rows.get(m) if x.kind == "mask"} if m is not None else ()
        if ms and len(ms) == 1:
            return next(iter(ms))
    got = {r for r, _ in under(R, n, asg, depth + 1)}
    return next(iter(got)) if len(got) == 1 else None


def lengths(R, cond, asg, depth):
    """Which way a comparison of the lengths of two arrays goes."""
    todo = [cond]
    while todo:
        q = todo.pop()
        if q.op == "cmp" and q.val == "Eq" and all(callee_name(a) == "builtins.len" and len(a.args) == 2 for a in q.args):
            a, b = (sizes_of(R, x.args[1], asg, depth) for x in q.args)
            return "?" if a is None or b is None else 0 if a == b else 1 if differ(a, b) else "?"
        if q.op in ("bool", "boolop", "phi"):
            todo += [a for a in q.args if isinstance(a, Node)]
    return None



def companions(ctx):
    """A function that selects samples of some arguments selects those of the metadata that
    it returns with them."""
    for f in ctx.p.functions():
        if not ctx.inscope(f) or not any(k in f.all_params for k in ("params", "routed_params", "metadata")):
            continue
        if len([k for k in f.all_params if k != "self"]) < 3:
            continue
        name = next(k for k in ("params", "routed_params", "metadata") if k in f.all_params)
        R = Run(ctx.p)
        e = R.e
        con = f"{f.full}"
        try:
            if f.cls is not None and "staticmethod" not in str(f.node.decorator_list):
                R.make(f.cls)
            P = {k: e.param(k, nonnull=True, array=k != name) for k in f.all_params if k != "self"}
            r, st = e.run(f, P, self_node=R.self_node, st=R.st)
        except Exception as x:
            ctx.und("companions", con, None, f"{type(x).__name__}: {x}")
            continue
        d = P[name]
        bad = False
        for t in flat_alts(r):
            if t.op != "tuple" or len(t.args) < 3:
                continue
            for args in returned(t):
                for combo in paths(args):
                    if any(a.root is d and a.op == "param" for a in combo) and any(a.op == "sub" and a.args[0].root.op == "param" and a.args[0].root is not d for a in combo):
                        bad = True
        if bad:
            ctx.bad("companions", con, f.full, f"samples are selected, and {name} is handed on with all of them")
        else:
            ctx.ok("companions", con)


def paths(args):
    """Combinations of the alternatives of values joined at the same places."""
    args = list(args)
    phis = [a for a in args if a.op == "phi"]
    if not phis:
        return [args]
    j = phis[0]
    n = len(j.args)
    same = lambda a: a.op == "phi" and len(a.args) == n and (a is j or a.val is j.val and a.val is not None)
    if not any(same(a) and a is not j for a in args):
        # alone: any of its alternatives
        return [q for i in range(n) for q in paths([a.args[i] if a is j else a for a in args])][:64]
    return [q for i in range(n) for q in paths([a.args[i] if same(a) else a for a in args])][:64]


def helpers(ctx):
    """The split and merge helpers that everything else is built on."""
    p = ctx.p
    S, T = ("sel", ALLN, "SRC"), ("sel", ALLN, "TGT")

    def want(fname, got, rows, what):
        v = decided(got)
        if v:
            if any(differ(x.rows, rows) for x in v):
                ctx.bad("helper", f"{fname}:{what}", fname, f"gives {rows_str(list(v)[0].rows)} instead of {rows_str(rows)}")
            else:
                ctx.ok("helper", f"{fname}:{what}")
        else:
            ctx.und("helper", f"{fname}:{what}", None, "provenance not known")

    R = Run(p)
    X, y = R.e.param("X", nonnull=True, array=True), R.e.param("y", nonnull=True, array=True)
    R.seeds[X.id] = R.seeds[y.id] = arr(ALLN)
    fi = p.func("source_target_split")
    d = R.data(fi, "N", given=("sample_domain",))
    d["arrays"] = R.e.mk("tuple", (X, y))
    r, st = R.e.run(fi, d)
    R.st = st
    R._rows = None
    parts = flat(R, r)
    if len(parts) == 4:
        for part, rows, what in zip(parts, (S, T, S, T), ("source of 1st", "target of 1st", "source of 2nd", "target of 2nd")):
            want("source_target_split", R.rows.get(part), rows, what)
    else:
        ctx.und("helper", "source_target_split", None, "result not resolved")
    scan_events(ctx, R)
    ctx.analysed(R.e)

    R = Run(p)
    a = [R.e.param(k, nonnull=True, array=True) for k in ("Xs", "Xt", "ys", "yt")]
    for n, rows in zip(a, (S, T, S, T)):
        R.seeds[n.id] = arr(rows)
    fi = p.func("source_target_merge")
    d = R.data(fi, "N", given=("sample_domain",))
    d["arrays"] = R.e.mk("tuple", a)
    r, st = R.e.run(fi, d)
    R.st = st
    R._rows = None
    parts = flat(R, r)
    for i, part in enumerate(parts):
        v = R.rows.get(part)
        k = kinds(v)
        if k and all(x.rows[0] != "fresh" for x in k):
            if any(differ(x.rows, ALLN) for x in k):
                ctx.bad("helper", f"source_target_merge:{i}", "source_target_merge", f"gives {rows_str(k[0].rows)} instead of {rows_str(ALLN)}")
            else:
                ctx.ok("helper", f"source_target_merge:{i}")
        else:
            ctx.und("helper", f"source_target_merge:{i}", None, "provenance not known")
    scan_events(ctx, R)
    ctx.analysed(R.e)

    # whatever is done to several arrays at once is done to all of them alike
    for fi in p.functions():
        if fi.vararg != "arrays" or fi.cls is not None:
            continue
        R = Run(p)
        a = [R.e.param(k, nonnull=True, array=True) for k in ("X", "y")]
        for n in a:
            R.seeds[n.id] = arr(ALLN)
        con = f"{fi.full}(*arrays)"
        try:
            d = R.data(fi, "N", given=("sample_domain",))
            d["arrays"] = R.e.mk("tuple", a)
            r, R.st = R.e.run(fi, d)
            R._rows = None
            parts = flat(R, r)
        except Exception as x:
            ctx.und("helper", con, None, f"{type(x).__name__}: {x}")
            continue
        k = len(parts) // 2
        if k == 1:
            got = [[x.rows for x in R.rows.get(q) if x.kind == "arr" and x.rows is not None] for q in parts]
            if all(len(g) == 1 for g in got):
                one, two = got[0][0], got[1][0]
                ctx.check(not (differ(one, two) or "take" in (one[0], two[0]) and one != two), "helper", con, fi.full, f"the arrays are not handled alike: {rows_str(one)}, {rows_str(two)}")
