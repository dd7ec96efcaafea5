"""Pipelines are their steps.  make_da_pipeline is walked on sequences of steps of known shape:
adapters of the package, some of them with a name of their own, a selector, and a pipeline
made before, in every position.  The list given to the pipeline is taken apart.  (order) its
steps are the given ones, one each, in the given order, those of the nested pipeline in their
place.  (wrapped) a step that is not a selector is held, as it was given, by one selector of the
kind asked for (the one a callable returns), a selector is left as it is.  (masks) a selector that is
added masks target labels as asked, up to the first step that predicts them.  (names) names given are
kept, no two steps have the same.  (final) the last step is marked final, no other is.
(handed on) memory and verbose go to the pipeline."""

import ast

from sa.ctx import FIXTURE
from sa.vf import Engine, callee_name, flat_alts

TECHNIQUE = "static value-flow analysis of the pipeline factory on symbolic steps"
ASSUMPTIONS = ["adapters of the package are not pipelines", "a Pipeline keeps the list of steps it is given"]

KINDS = {"shared": "Shared", "per_domain": "PerDomain"}


def marks(f):
    """Whether a method gives the instance the mark of steps that predict target labels."""
    return any(isinstance(x, ast.Attribute) and x.attr == "predicts_target_labels" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))


class Scene:
    """A run of the factory on steps written as letters: a, b, c adapters, d always the same kind, n an adapter with a
    name, s a selector, l an adapter that predicts target labels, p a pipeline of two steps."""

    def __init__(self, ctx, f, word, selector="shared"):
        p = ctx.p
        self.e = e = Engine(p)
        e.foreign = ("sklearn.pipeline.Pipeline",)
        adapters = [c for c in p.classes() if c.has_base_named("BaseAdapter") and not c.name.startswith("Base") and c.module.name != FIXTURE and c.find("fit_transform") is not None]
        e.spelled = True
        e.own_attrs = ("predicts_target_labels", "base_estimator")
        label = [c for c in adapters if any(marks(g) for k in c.project_mro() for g in k.methods.values()) or c.find_attr("predicts_target_labels") is not None]
        plain = [c for c in adapters if c not in label and c.module.name.endswith(("_mapping", "_subspace"))]
        shared = p.cls("Shared")
        self.want, given, st = [], [], None
        k = 0

        def new(c, **kw):
            nonlocal st
            n, st = e.instance(c, st=st, **kw) if st is not None else e.instance(c, **kw)
            return n

        def selected(k):
            inner = new(plain[k % len(plain)])
            return new(shared, ctor={"base_estimator": inner, "mask_target_labels": e.param(f"mask{k}")})

        self.ok = bool(plain) and (bool(label) or "l" not in word)
        if not self.ok:
            return
        masks = True
        for ch in word:
            k += 1
            if ch in "abcnd":
                n = new(plain[0 if ch == "d" else k % len(plain)])
            elif ch == "l":
                n = new(label[0])
                masks = False
            if ch == "n":
                given.append(e.mk("tuple", (e.const(f"own{k}"), n)))
                self.want.append(("wrap", n, f"own{k}", masks))
            elif ch in "abcdl":
                given.append(n)
                self.want.append(("wrap", n, None, masks))
            elif ch == "s":
                n = selected(k)
                given.append(n)
                self.want.append(("same", n, None, None))
            elif ch in "pq":
                parts = [selected(k), selected(k + 1)]
                st.heap[(parts[1].val, "_is_final")] = e.const(True)
                stub = [c for c in p.classes() if c.name == "Nested" and c.module.name == FIXTURE][0]
                seq = e.mk("list", [e.mk("tuple", (e.const(f"inner{k}{i}"), x)) for i, x in enumerate(parts)])
                n = new(stub, ctor={"steps": seq})
                given.append(n if ch == "p" else e.mk("tuple", (e.const("outer"), n)))
                self.want += [("same", x, ("" if ch == "p" else "outer__") + f"inner{k}{i}", None) for i, x in enumerate(parts)]
        self.mask = e.param("mask_target_labels")
        self.memory, self.verbose = e.param("memory"), e.param("verbose")
        self.selector = e.const(selector) if selector else e.param("default_selector", nonnull=True)
        e.callables = () if selector else (self.selector,)
        args = {"steps": e.mk("tuple", given), "memory": self.memory, "verbose": self.verbose, "default_selector": self.selector, "mask_target_labels": self.mask}
        self.r, self.st = e.run(f, {k: v for k, v in args.items() if k in f.all_params or k == f.vararg}, st=st)


def scene(ctx, f, word, kind="shared"):
    con = f"{f.full}({word}, {kind or 'callable'})"
    try:
        S = Scene(ctx, f, word, kind)
        if not S.ok:
            return 0
    except Exception as x:
        ctx.und("walk", con, None, f"{type(x).__name__}: {x}")
        return 0
    e, st = S.e, S.st
    ctx.analysed(e)
    made = [a for a in flat_alts(S.r) if a.op == "call" and (callee_name(a) or "").split(".")[-1] == "Pipeline"] if S.r is not None else []
    if len(made) != 1:
        ctx.und("order", con, None, "the pipeline made is not known")
        return 0
    n = made[0]
    kw = dict(n.kw)
    seq = kw.get("steps") or (n.args[1] if len(n.args) > 1 else None)
    got = e.known_elems(seq, st) if seq is not None else None
    if got is None:
        ctx.und("order", con, None, "the list of steps is not known")
        return 0
    site = n.site or f.full
    for key, v in (("memory", S.memory), ("verbose", S.verbose)):
        if v.val in f.all_params:
            w = kw.get(key)
            if w is not None and w.op not in ("param", "const"):
                ctx.und("handed on", f"{con}: {key}", site, "value of unknown form")
            else:
                ctx.check(w is v, "handed on", f"{con}: {key}", site, f"{key} does not reach the pipeline as it was given")
    ctx.check(len(got) == len(S.want), "order", f"{con}: number", site, f"{len(S.want)} steps given, {len(got)} in the pipeline")
    if len(got) != len(S.want):
        return 1
    names = []
    for i, (t, (how, est, name, masks)) in enumerate(zip(got, S.want)):
        c = f"{con}: step {i + 1}"
        t = e.cur(t, st)
        if t.op != "tuple" or len(t.args) != 2:
            ctx.und("order", c, site, "step of unknown form")
            continue
        nm, obj = e.cur(t.args[0], st), [x for x in flat_alts(e.cur(t.args[1], st))]
        if name is not None:
            if nm.op == "const":
                ctx.check(nm.val == name, "names", c, site, f"the step named {name!r} is called {nm.val!r}")
            elif any(x.op == "const" and x.val == name for x in flat_alts(nm)) or nm.op == "fstr":
                ctx.und("names", c, site, "name of unknown form")
            else:
                ctx.bad("names", c, site, f"the name {name!r} is not kept")
        if nm.op != "const":
            ctx.und("names", f"{c}: once", site, "name of unknown form")
        else:
            ctx.check(nm.val not in names, "names", f"{c}: once", site, f"two steps are called {nm.val!r}")
            names.append(nm.val)
            if name is None and est.op == "inst" and isinstance(nm.val, str):
                ctx.check(called(S, est) in nm.val.lower(), "names", f"{c}: own", site, f"{nm.val!r} does not tell the estimator held")
        if len(obj) != 1 or obj[0].op not in ("inst", "call"):
            ctx.und("order", c, site, "step of unknown form")
            continue
        o = obj[0]
        others = [x for j, (_, x, _, _) in enumerate(S.want) if j != i]
        if how == "same":
            ctx.check(o is est or o.val is est.val and o.op == "inst", "order", c, site, "is not the selector given in this place")
        elif o.op == "call":
            # what a callable selector returns
            if o.args[0] is S.selector:
                held = [e.cur(x, st) for x in [*o.args[1:2], *[v for k, v in o.kw.items() if k in ("base_estimator", "estimator")]]]
                ctx.check(any(x.op == "inst" and x.val is est.val for x in held), "order", c, site, "the selector is made for another step")
                m = dict(o.kw).get("mask_target_labels") or (o.args[2] if len(o.args) > 2 else None)
                if m is None and "**" not in o.kw and S.mask.val in f.all_params:
                    ctx.bad("masks", c, site, "the selector made is not told whether target labels are masked")
                mask(ctx, c, site, S, m, masks)
            else:
                ctx.und("order", c, site, "step of unknown form")
        else:
            if o.val is est.val:
                ctx.bad("wrapped", c, site, "an estimator that is not a selector is not wrapped")
                continue
            held = st.heap.get((o.val, "base_estimator"))
            held = [x for x in flat_alts(e.cur(held, st))] if held is not None else []
            if len(held) == 1 and held[0].op == "inst":
                ctx.check(held[0].val is est.val, "order", c, site, "holds another step" if any(held[0].val is x.val for x in others) else "does not hold the estimator as it was given")
            else:
                ctx.und("order", c, site, "the estimator held is not known")
            if kind in KINDS:
                ctx.check(o.val.cls.name == KINDS[kind], "wrapped", c, site, f"wrapped by {o.val.cls.name} where {kind!r} is asked for")
            mask(ctx, c, site, S, st.heap.get((o.val, "mask_target_labels")), masks)
        if o.op == "inst":
            fin = st.heap.get((o.val, "_is_final"))
            fin = e.cur(fin, st) if fin is not None else None
            last = i == len(got) - 1
            if fin is not None and fin.op == "const":
                ctx.check(bool(fin.val) == last, "final", c, site, "the last step is not marked as such" if last else "a step before the last is marked final")
            else:
                ctx.und("final", c, site, "mark of unknown form")
    return 1


def called(S, est):
    """The name of the class of an estimator, of the one held by a selector."""
    held = S.st.heap.get((est.val, "base_estimator"))
    held = S.e.cur(held, S.st) if held is not None else None
    return (held if held is not None and held.op == "inst" else est).val.cls.name.lower()


def mask(ctx, c, site, S, m, masks):
    m = S.e.cur(m, S.st) if m is not None else None
    if m is None or "mask_target_labels" != S.mask.val:
        return
    if m is S.mask:
        ctx.check(masks, "masks", c, site, "labels predicted by an earlier step are masked")
    elif m.op == "const":
        ctx.check(not masks and m.val is False, "masks", c, site, f"mask_target_labels is {m.val} whatever is asked for")
    else:
        ctx.und("masks", c, site, "value of unknown form")


WORDS = ("a", "ab", "anb", "nsa", "sab", "abs", "pab", "apb", "abp", "qa", "aqn", "alb", "lab", "ala", "spn", "dd", "dad", "ndd", "sdd", "al", "lp")


def run(ctx):
    n = 0
    for f in ctx.p.functions():
        if not ctx.inscope(f) or f.cls is not None or f.vararg != "steps":
            continue
        for w in WORDS:
            n += scene(ctx, f, w)
        for w in ("ab", "nsa"):
            n += scene(ctx, f, w, "per_domain")
            n += scene(ctx, f, w, None)
    ctx.need(n, 5, "runs of the pipeline factory with a known result")
