"""Scorers.  Each scorer's _score is walked with symbolic samples of both roles.  (sign) along
every way the score is returned the direction of the scorer enters as a factor exactly once,
and the constructor gives the base class +1 when greater is better and -1 otherwise.
(domain) the score of scorers documented for the target domain is computed from features of
target samples only, importance weighting scores source samples.  (labels) the labels given
with target samples (y, which is masked in practice) enter no score; the supervised scorer
takes labels from target_labels only.  (together) arrays given together to the estimator or
the scoring function hold the same samples.  (refit) an estimator that is refitted for the
score is a copy of the one under evaluation.  (given) the domain labels handed over with samples
say what the samples are, source samples are handed over as such, with the permission to use
them, and where the labels of source samples are masked for a refit the domain labels are
turned round too.  (used) what the estimator or a helper computes for the score enters it."""

from sa.facets import Facet, role
from sa.rowscan import class_runs, differ, kinds
from sa.taint import Labels
from sa.vf import callee_name, flat_alts

TECHNIQUE = "static label-taint, row-provenance and factor-multiplicity analyses of the scorers' value flow"
ASSUMPTIONS = ["scikit-learn's base scorer returns what _score returns", "samples are target exactly when their domain label is negative (C02)"]

BOTH = frozenset(["SRC", "TGT"])
TARGET_SCORERS = {"SupervisedScorer", "PredictionEntropyScorer", "SoftNeighborhoodDensity", "MixValScorer", "MaNoScorer"}
SOURCE_SCORERS = {"ImportanceWeightedScorer"}
LINEAR = {"mean", "sum", "nanmean", "nansum", "float", "asarray", "array", "average", "median", "item", "asscalar", "squeeze", "ravel", "copy"}
ROW_METHODS = {"predict", "predict_proba", "predict_log_proba", "decision_function", "score", "transform", "infer", "fit", "score_samples", "predict_features"}


class Times(Facet):
    """How many times the direction of the scorer is a factor of a value ('?': unknown)."""

    def t_default(self, n):
        for a in list(n.args) + list(n.kw.values()):
            if a is not None and self.get(a) - {0}:
                return frozenset(["?"])
        return frozenset([0])

    def t_attr0(self, n):
        return frozenset([1 if n.val == "_sign" else 0])

    def t_attr(self, n):
        if n.val == "_sign" and n.args[0].op == "inst":
            return frozenset([1])
        return frozenset(["?"]) if self.get(n.args[0]) - {0} else frozenset([0])

    def t_inst(self, n):
        return frozenset([0])

    def t_func(self, n):
        return frozenset([0])

    def add(self, a, b):
        return frozenset("?" if "?" in (x, y) else x + y for x in a for y in b)

    def t_bin(self, n):
        a, b = (self.get(x) for x in n.args[:2])
        if n.val in ("Mult", "Div", "MatMult"):
            return self.add(a, b)
        if n.val in ("Add", "Sub"):
            return a | b if a == b else frozenset(["?"])
        return self.t_default(n)

    t_aug = t_bin

    def t_unary(self, n):
        return self.get(n.args[0])

    def t_phi(self, n):
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        return r

    t_loop = t_phi

    def t_update(self, n):
        if n.val == "setitem":
            return self.get(n.args[0])
        return self.t_default(n)

    def t_call(self, n):
        t = (callee_name(n) or "").split(".")[-1]
        if t in ("multiply", "prod", "true_divide", "divide") and len(n.args) == 3:
            return self.add(self.get(n.args[1]), self.get(n.args[2]))
        if t in LINEAR:
            a = n.args[1] if len(n.args) > 1 and n.args[0].op != "attr" else n.args[0].args[0] if n.args[0].op == "attr" else None
            if a is not None and (n.args[0].op == "attr" or all(not self.get(x) - {0} for x in n.args[2:])):
                return self.get(a)
        if n.args[0].op == "attr" and n.args[0].val not in ("reshape", "astype") and n.args[0].args and n.args[0].args[0].op == "inst":
            return frozenset([0]) if all(not self.get(x) - {0} for x in n.args[1:]) else frozenset(["?"])
        return self.t_default(n)


class Seen(Labels):
    """Labels, with '?' where an index is not understood."""

    def t_sub(self, n):
        b = self.get(n.args[0])
        r = super().t_sub(n)
        i = self.rows.first_index(n.args[1])
        if BOTH <= b and BOTH <= r and i.op not in ("const", "slice"):
            ms = self.rows.get(i)
            if not ms or any(x.kind not in ("mask", "idx") for x in ms):
                r = r | {"?"}
            elif not all(isinstance(x.pol, str) or x.pol is None and x.kind == "mask" for x in ms):
                r = r | {"?"}
        return r

    def t_call(self, n):
        r = super().t_call(n)
        t = (callee_name(n) or "").split(".")[-1]
        if BOTH <= r and t in ("take", "compress", "extract", "delete", "split", "array_split", "_safe_indexing", "train_test_split"):
            r = r | {"?"}
        return r

    def t_attr0(self, n):
        return frozenset()

    def t_item(self, n):
        b = n.args[0]
        if b.op == "call" and (callee_name(b) or "").endswith("train_test_split") and isinstance(n.val, int) and n.val // 2 + 1 < len(b.args):
            return self.get(b.args[n.val // 2 + 1])
        return super().t_item(n)


def family(c, names):
    return any(k.name in names for k in c.project_mro())


def run(ctx):
    n = 0
    for _, c, R in class_runs(ctx, ("scorers",)):
        r = R.results.get(("_score", "M"))
        if r is None:
            continue
        n += 1
        con = f"{c.full}._score"
        sign(ctx, c, R, r, con)
        direction(ctx, c, R)
        domain(ctx, c, R, r, con)
        labels(ctx, c, R, r, con)
        together(ctx, c, R, con)
        refit(ctx, c, R, con)
        permitted(ctx, c, R, con)
        masked(ctx, c, R, con)
        used(ctx, c, R, r, con)
    ctx.need(n, 4, "scorers")


def sign(ctx, c, R, r, con):
    T = Times()
    for i, a in enumerate(flat_alts(r)):
        if a.op == "const":
            continue
        k = T.get(a)
        if "?" in k:
            ctx.und("sign", con, a.site, "the direction enters the score in an unknown way")
        elif k == {1}:
            ctx.ok("sign", f"{con}#{i}", a.site)
        elif 0 in k:
            ctx.bad("sign", con, a.site, "a score is returned without the direction of the scorer")
        else:
            ctx.bad("sign", con, a.site, f"the direction of the scorer is applied {max(k)} times to a returned score")


def direction(ctx, c, R):
    for ev in R.e.events:
        if ev.kind != "call" or ev.phase != "init":
            continue
        cal = ev.node.args[0]
        if not (cal.op == "attr" and cal.val == "__init__" and cal.args[0].op == "super"):
            continue
        s = ev.node.kw.get("sign") or (ev.node.args[2] if len(ev.node.args) > 2 else None)
        if s is None:
            continue
        con = f"{c.full}.__init__"
        if s.op == "phi" and isinstance(getattr(s.val, "op", None), str) and len(s.args) == 2 and all(a.op == "const" and isinstance(a.val, (int, float)) for a in s.args):
            cond, neg = s.val, False
            while cond.op == "unary" and cond.val == "Not":
                cond, neg = cond.args[0], not neg
            if cond.op == "param":
                hi, lo = (a.val for a in (reversed(s.args) if neg else s.args))
                ctx.check(hi == 1 and lo == -1, "direction", con, ev.site, f"the direction is {hi} when {cond.val} holds and {lo} otherwise")
                return
        ctx.und("direction", con, ev.site, "direction of unknown form")


def domain(ctx, c, R, r, con):
    X = R.args[("_score", "M")].get("X")
    if X is None:
        return
    L = Seen(R.rows, {X.id: BOTH})
    if family(c, TARGET_SCORERS):
        got = L.get(r)
        if "?" in got:
            ctx.und("domain", con, None, "selection of samples of unknown form")
        elif "SRC" in got:
            ctx.bad("domain", con, r.site or where(R, c), "the score of a scorer for the target domain is computed from source samples")
        elif got:
            ctx.ok("domain", con)
        else:
            ctx.und("domain", con, None, "the score does not visibly depend on the samples")
    elif family(c, SOURCE_SCORERS):
        for ev in scoring_calls(R):
            for a in list(ev.node.args[1:])[1:2]:
                got = L.get(a)
                if "?" in got:
                    ctx.und("domain", con, ev.site, "selection of samples of unknown form")
                elif "TGT" in got:
                    ctx.bad("domain", con, ev.site, "importance weighting scores target samples")
                elif got:
                    ctx.ok("domain", con, ev.site)


def where(R, c):
    f = c.find("_score")
    return f"{f.module.rel}:{f.node.lineno}"


def scoring_calls(R):
    """Calls of the scoring function: self._score_func, check_scoring(...)(...), a parameter."""
    for ev in R.e.events:
        if ev.kind != "call" or ev.phase != "_score":
            continue
        cal = ev.node.args[0]
        alts = flat_alts(cal)
        if any(a.op == "attr0" and a.val in ("_score_func", "_loss_func") or a.op == "call" and (callee_name(a) or "").endswith("check_scoring") or a.op == "param" and (a.val or "") in ("source_scorer", "scoring", "loss_func") for a in alts) or cal.op == "attr" and cal.val in ("_score_func",):
            yield ev


def labels(ctx, c, R, r, con):
    a = R.args[("_score", "M")]
    y = a.get("y")
    if y is None:
        return
    L = Seen(R.rows, {y.id: BOTH})
    probs = []
    watched = [("the returned score", r, r.site)]
    for ev in R.e.events:
        if ev.kind == "call" and ev.phase == "_score":
            cal = ev.node.args[0]
            if cal.op == "attr" and cal.val in ROW_METHODS:
                watched += [(f"{cal.val}()", x, ev.site) for x in list(ev.node.args[1:]) + list(ev.node.kw.values())]
    for ev in scoring_calls(R):
        watched += [("the scoring function", x, ev.site) for x in list(ev.node.args[1:]) + list(ev.node.kw.values())]
    und = False
    for what, x, site in watched:
        got = L.get(x)
        if "TGT" in got:
            if "?" in got:
                und = True
            else:
                probs.append((what, site))
    for what, site in probs:
        ctx.bad("labels", con, site or where(R, c), f"labels given with target samples reach {what}")
    if und and not probs:
        ctx.und("labels", con, None, "selection of labels of unknown form")
    elif not probs:
        ctx.ok("labels", con)
    t = a.get("target_labels")
    if t is not None:
        T = Seen(R.rows, {t.id: BOTH})
        hit = False
        for ev in scoring_calls(R):
            got = [T.get(x) for x in ev.node.args[1:]]
            hit = hit or any(got)
            if any("SRC" in g and "?" not in g for g in got):
                ctx.bad("labels", f"{con}(target_labels)", ev.site, "the score compares labels of source samples")
            elif not any(got):
                ctx.bad("labels", f"{con}(target_labels)", ev.site, "the true target labels are not what the score compares with")
        if hit:
            ctx.ok("labels", f"{con}(target_labels)")


def together(ctx, c, R, con):
    evs = list(scoring_calls(R))
    for ev in R.e.events:
        if ev.kind == "call" and ev.phase == "_score" and ev.node.args[0].op == "attr" and ev.node.args[0].val in ROW_METHODS:
            evs.append(ev)
    for ev in evs:
        args = [(x, kinds(R.rows.get(x))) for x in list(ev.node.args[1:]) + list(ev.node.kw.values())]
        args = [(x, k) for x, k in args if k and len(k) == len(R.rows.get(x))]
        bad = False
        for i, (x, kx) in enumerate(args):
            for z, kz in args[i + 1 :]:
                if all(differ(p.rows, q.rows) for p in kx for q in kz):
                    bad = True
        if bad:
            ctx.bad("together", con, ev.site, "arrays of different samples are given together")
        elif len(args) > 1:
            ctx.ok("together", f"{con}:{ev.site.line}", ev.site)


def refit(ctx, c, R, con):
    est = [v for k, v in R.args[("_score", "M")].items() if k == "estimator"]
    f = c.find("_score")
    for ev in R.e.events:
        if ev.kind == "call" and ev.phase == "_score" and ev.node.args[0].op == "attr" and ev.node.args[0].val in ("fit", "partial_fit", "fit_transform"):
            for o in flat_alts(ev.node.args[0].args[0]):
                if o.op == "param" and o.val == "estimator" and f is not None:
                    ctx.bad("refit", con, ev.site, "the estimator under evaluation is fitted by the scorer")
                else:
                    ctx.ok("refit", f"{con}:{ev.site.line}", ev.site)


def one_role(v):
    """Role of samples, when it is known."""
    k = kinds(v, ("arr", "dom"))
    rs = {role(x.rows) for x in k if x.rows[0] != "fresh"}
    return rs.pop() if k and len(k) == len(v) and len(rs) == 1 and None not in rs else None


def stamp(n):
    """Constant every element of a new array has."""
    if n.op == "call":
        t = (callee_name(n) or "").split(".")[-1]
        v = n.kw.get("fill_value") or (n.args[2] if len(n.args) > 2 else None)
        if t in ("full", "full_like") and v is not None and v.op == "const" and isinstance(v.val, (int, float)):
            return v.val
        if t in ("zeros", "zeros_like"):
            return 0
        if t in ("ones", "ones_like"):
            return 1
    if n.op == "unary" and n.val == "USub":
        k = stamp(n.args[0])
        return None if k is None else -k
    if n.op == "bin" and n.val == "Mult":
        for a, b in (n.args, n.args[::-1]):
            k = stamp(a)
            if k is not None and b.op == "const" and isinstance(b.val, (int, float)):
                return k * b.val
    return None


def permitted(ctx, c, R, con):
    evs = list(scoring_calls(R))
    for ev in R.e.events:
        if ev.kind == "call" and ev.phase == "_score" and ev.node.args[0].op == "attr" and ev.node.args[0].val in ROW_METHODS - {"fit"} and any(o.op == "param" for o in flat_alts(ev.node.args[0].args[0])):
            evs.append(ev)
    for ev in evs:
        kw = ev.node.kw
        X = next((a for a in ev.node.args[1:] if kinds(R.rows.get(a), ("arr",))), None)
        if X is None:
            continue
        side = one_role(R.rows.get(X))
        if side is None:
            continue
        k = f"{con}:{ev.site.line}"
        d, a = kw.get("sample_domain"), kw.get("allow_source")
        allowed = a is not None and not (a.op == "const" and not a.val)
        name = {"SRC": "source", "TGT": "target"}[side]
        if d is None or d.op == "const" and d.val is None:
            if side == "SRC" and a is not None and allowed and "**" not in kw:
                ctx.bad("given", con, ev.site, "source samples are handed over without their domain labels, as if they were target samples")
            continue
        n = stamp(d)
        if n is not None:
            ctx.check((n >= 0) == (side == "SRC"), "given", con, ev.site, f"{name} samples are handed over with the domain label {n}")
        elif side == "SRC" and d.op == "sub" and all(x.kind == "dom" for x in R.rows.get(d)) and one_role(R.rows.get(d)) == "SRC" and not allowed:
            ctx.bad("given", con, ev.site, "source samples are handed over without the permission to use them")
        else:
            ctx.ok("given", k, ev.site)


def masked(ctx, c, R, con):
    """A refit on labels with the source samples masked."""
    for ev in R.e.events:
        if not (ev.kind == "call" and ev.phase == "_score" and ev.node.args[0].op == "attr" and ev.node.args[0].val in ("fit", "fit_transform") and len(ev.node.args) > 2):
            continue
        pols, todo, seen = set(), [ev.node.args[2]], set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "phi":
                todo.extend(x.args)
            elif x.op == "update" and x.val == "setitem":
                todo.append(x.args[0])
                v = x.args[2]
                if v.op == "const" and v.val == -1 or v.op == "ext" and v.val.split(".")[-1].lower() == "nan":
                    pols |= {m.pol for m in R.rows.get(R.rows.first_index(x.args[1])) if m.kind == "mask" and m.pol in BOTH}
        d = ev.node.kw.get("sample_domain")
        if len(pols) != 1 or d is None:
            continue
        v = R.rows.get(d)
        plain = bool(v) and all(x.kind == "dom" for x in v)
        turned = bool(v) and all(x.kind == "arr" for x in v)
        if pols == {"SRC"} and plain:
            ctx.bad("given", con, ev.site, "the labels of source samples are masked for the refit, and the domain labels still call them source")
        elif pols == {"TGT"} and turned:
            ctx.bad("given", con, ev.site, "the domain labels are turned round for the refit, and the labels of target samples are masked")
        else:
            ctx.ok("given", f"{con}:{ev.site.line}", ev.site)


HELPERS = {"predict", "predict_proba", "predict_log_proba", "decision_function", "score_samples", "transform", "infer", "predict_features"}


def used(ctx, c, R, r, con):
    """What estimators and helpers compute is part of the score (or of a condition)."""
    fits, calls, roots = {}, [], [r]
    for ev in R.e.events:
        if ev.kind == "raise":
            roots += [g for g, _ in ev.guards]
        if ev.kind == "call" and ev.phase == "_score" and ev.node.args[0].op == "attr":
            if ev.node.args[0].val in ("fit", "partial_fit", "fit_transform"):
                fits.setdefault(ev.node.args[0].args[0].root.id, []).extend(list(ev.node.args[1:]) + list(ev.node.kw.values()))
            if ev.node.args[0].val in HELPERS and ev.node.args[0].args[0].op != "super":
                calls.append(ev)
    seen, todo = set(), roots
    while todo:
        x = todo.pop()
        if x is None or not hasattr(x, "op") or x.id in seen:
            continue
        seen.add(x.id)
        todo.extend(x.args)
        todo.extend(x.kw.values())
        if x.op == "phi":
            todo.append(x.val)
        if x.op == "func":
            todo.extend(x.val.captured.values())
        if x.op in ("dict", "list", "tuple") and isinstance(x.val, list):
            todo.extend(v for _, v in x.val)
        todo.append(x.root)
        todo.extend(fits.get(x.root.id, ()))
    for ev in calls:
        ctx.check(ev.node.id in seen, "used", f"{con}:{ev.node.args[0].val}", ev.site, f"what {ev.node.args[0].val}() computes here does not enter the score")
