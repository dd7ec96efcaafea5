"""Scenarios for the row facet, shared by the rules on alignment, roles and labels."""

import traceback

from .facets import RV, arr, base_of, count_equiv, role, rows_str
from .scenario import Run, adapters, estimators, scorers, selectors, splitters

ALLN, ALLM = ("all", "N"), ("all", "M")
PREDICT = ("transform", "predict", "predict_proba", "predict_log_proba", "decision_function")


def unknown_take(r):
    if r is None or r == ("?",):
        return True
    if r[0] in ("take", "sel"):
        return r[0] == "take" or unknown_take(r[1])
    if r[0] == "cat":
        return any(unknown_take(x) for x in r[1:])
    return False


def has_fresh(r):
    if r is None:
        return True
    if r[0] == "fresh":
        return True
    if r[0] in ("take", "sel"):
        return has_fresh(r[1])
    if r[0] == "cat":
        return any(has_fresh(x) for x in r[1:])
    return False


def strip(r):
    """fresh(count of R) stands for R when counted."""
    return r[1] if r is not None and r[0] == "fresh" else r


def differ(a, b):
    """Definitely different sample sets (or orders)."""
    a, b = strip(a), strip(b)
    if a is None or b is None or a == b:
        return False
    if has_fresh(a) or has_fresh(b):
        return False
    for x, y in ((a, b), (b, a)):
        if x[0] == "cat" and x[-1] == ("?",):
            return started(x[1:-1], y)
    if a[0] == b[0] == "cat" and len(a) == len(b) and (unknown_take(a) or unknown_take(b)):
        return any(differ(x, y) for x, y in zip(a[1:], b[1:]))
    if unknown_take(a) or unknown_take(b):
        if {role(a), role(b)} == {"SRC", "TGT"}:
            return True
        return bool(two_parts(a, b)) or moved(a, b) or moved(b, a)
    return True


def plain(r):
    """Samples in the order of the array they come from."""
    while r is not None and r[0] == "sel":
        r = r[1]
    return r is not None and r[0] == "all"


def moved(a, b):
    """a: samples at an end, or in another order, of an array with the samples b, or with
    those that b is selected from."""
    if a[0] != "take" or not isinstance(a[2], tuple) or a[2][0] not in ("end", "order") or not plain(a[1]):
        return False
    if b[0] == "take" and isinstance(b[2], tuple) and b[2][0] in ("part", "end", "order"):
        return b[2][0] == "part" and plain(b[1])
    if b[0] == "take" and isinstance(b[2], tuple) and b[2][0] == "draw":
        return plain(b[1])
    return plain(b)


def started(parts, y):
    """Whether an array that starts with these samples cannot hold the samples y in order."""
    if y[0] == "cat":
        if y[-1] == ("?",):
            return False
        return any(differ(p, q) for p, q in zip(parts, y[1:]))
    p = parts[0]
    return p[0] == "sel" and p[1] == y or differ(p, y) and base_of(p) != base_of(y)


def two_parts(a, b):
    """The two parts of one random split, or two random draws."""
    if a[0] == b[0] == "take" and a[1] == b[1] and isinstance(a[2], tuple) and isinstance(b[2], tuple) and a[2][0] == b[2][0] == "draw":
        return a[2] != b[2] and (a[2][1] == b[2][1] or not isinstance(a[2][1], tuple) and not isinstance(b[2][1], tuple))
    return a[0] == b[0] == "take" and isinstance(a[2], tuple) and isinstance(b[2], tuple) and a[2][:1] == b[2][:1] == ("part",) and a[2][1] == b[2][1] and a[2][2] != b[2][2]


def differ_len(a, b):
    """Definitely different numbers of samples (of an array whose order is open)."""
    return differ(a, b) and not count_equiv(strip(a), strip(b))


def safe_call(ctx, run, ci, m, b, **kw):
    try:
        return run.call(m, b, **kw)
    except Exception as e:  # an engine failure on one method is an undecided obligation
        ctx.und("walk", f"{ci.full}.{m}", None, f"{type(e).__name__}: {e}")
        if ctx.tier == "debug":
            traceback.print_exc()
        return None


def class_runs(ctx, which=("adapters", "estimators", "selectors", "scorers")):
    """(class, Run) with fit on sample set N and the other methods on sample set M."""
    lists = {"adapters": adapters, "estimators": estimators, "selectors": selectors, "scorers": scorers}
    cache = ctx.p.__dict__.setdefault("_class_runs", {})
    for w in which:
        for c in ctx.scoped(lists[w](ctx.p)):
            if c.full in cache:
                R = cache[c.full]
            else:
                try:
                    R = Run(ctx.p).make(c)
                except Exception as e:
                    ctx.und("walk", c.full, None, f"{type(e).__name__}: {e}")
                    continue
                if w == "scorers":
                    seq = [("_score", "M")]
                else:
                    seq = [("fit", "N"), ("fit_transform", "N")] + [(m, "M") for m in PREDICT] + [("score", "M")]
                for m, b in seq:
                    if c.find(m) is not None and not c.find(m).has_deco("abstractmethod"):
                        safe_call(ctx, R, c, m, b)
                cache[c.full] = R
            ctx.analysed(R.e)
            yield w, c, R


def kinds(v, ks=("arr", "dom", "mask", "idx")):
    return [x for x in v if x.kind in ks and x.rows is not None]


def decided(v):
    """The known alternatives of a value (constants and empty arrays aside), or []."""
    k = kinds(v)
    return k if k and all(x.kind == "neutral" or x in k for x in v) else []
