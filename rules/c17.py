"""Deep datasets.  Each operation is walked on a dataset whose features, labels, domain
labels, weights and sample ids are symbols.  What it returns, or leaves behind when it works
in place, is taken apart into these slots.  (slots) each slot is filled from the same slot
of the datasets involved.  (together) all slots hold the same samples in the same order: same
selection, same index, same order of concatenation.  (selection) sources, targets, one
domain or labelled samples are what select_* selects.  (weights) weights that exist are kept
when they are asked for.  (ids) sample ids
count the samples of one domain.  (unchanged) an operation that does not work in place sets nothing
on the dataset and modifies none of its arrays."""

from sa.facets import RV, Facet, arr, role
from sa.rowscan import differ, differ_len, kinds
from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static slot-provenance and row-provenance analysis of the dataset operations, effects on the receiver"
ASSUMPTIONS = ["torch.cat keeps the order of its parts", "check_array and to_tensor keep the samples"]

SLOTS = ("X", "y", "sample_domain", "sample_weight", "sample_idx")
NAME = {"X": "features", "y": "labels", "sample_domain": "domain labels", "sample_weight": "weights", "sample_idx": "sample ids", "has_y": "marks of labelled samples"}
KEEP = {"asarray", "array", "as_tensor", "tensor", "check_array", "to_tensor", "from_numpy", "ascontiguousarray", "to_device", "atleast_1d", "deepcopy", "copy"}
METH = {"astype", "copy", "clone", "to", "long", "float", "double", "int", "cpu", "cuda", "detach", "contiguous", "type", "numpy", "flatten", "reshape", "view", "ravel", "squeeze", "index_select", "take", "masked_select", "type_as"}
CAT = {"cat", "concatenate", "concat", "hstack", "vstack"}


def tail(n):
    return (callee_name(n) or "").split(".")[-1]


class Slot(Facet):
    """{(slot, dataset)}: the slots whose values a value holds; '?' when not known."""

    def __init__(self, seeds):
        super().__init__()
        self.seeds = seeds

    def get(self, n):
        if n is not None and n.id in self.seeds:
            return frozenset([self.seeds[n.id]])
        return super().get(n)

    def t_default(self, n):
        return frozenset(["?"])

    def t_phi(self, n):
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        return r

    t_loop = t_phi

    def t_sub(self, n):
        return self.get(n.args[0])

    def t_update(self, n):
        return self.get(n.args[0]) | (self.get(n.args[2]) if n.val == "setitem" and n.args[2] is not None else frozenset())

    def t_call(self, n):
        t, c = tail(n), n.args[0]
        if c.op == "attr" and c.args[0].op != "ext" and t in METH:
            return self.get(c.args[0])
        if t in CAT and len(n.args) > 1 and n.args[1].op in ("list", "tuple"):
            r = frozenset()
            for a in n.args[1].args:
                r |= self.get(a)
            return r
        if t in KEEP and len(n.args) > 1:
            return self.get(n.args[1])
        if t in ("where", "index_select", "take", "masked_select") and len(n.args) > 1:
            return self.get(n.args[1]) if t != "where" else frozenset(["?"])
        return frozenset(["?"])


def order(S, n, d=0):
    """Datasets in the order in which they are concatenated, or None."""
    if n is None or d > 20:
        return None
    if n.id in S.seeds:
        return (S.seeds[n.id][1],)
    if n.op == "call":
        t, c = tail(n), n.args[0]
        if t in CAT and len(n.args) > 1 and n.args[1].op in ("list", "tuple"):
            ps = [order(S, a, d + 1) for a in n.args[1].args]
            return None if any(p is None for p in ps) else tuple(x for p in ps for x in p)
        if c.op == "attr" and c.args[0].op != "ext" and t in METH - {"take", "index_select", "masked_select"}:
            return order(S, c.args[0], d + 1)
        if t in KEEP and len(n.args) > 1:
            return order(S, n.args[1], d + 1)
    if n.op == "phi":
        ps = {order(S, a, d + 1) for a in flat_alts(n)}
        return ps.pop() if len(ps) == 1 else None
    return None


class Case:
    """A dataset of symbols (and another one)."""

    def __init__(self, ctx, c, weights=True):
        self.ctx, self.c = ctx, c
        self.R = Run(ctx.p)
        self.e = self.R.e
        self.seeds = {}
        self.a = self.dataset("self", "N", weights)
        self.R.self_node = self.a

    def dataset(self, which, base, weights=True):
        ins, _ = self.e.instance(self.c, run_init=False)
        st, obj = self.R.st, ins.val
        for s in SLOTS:
            if s == "sample_weight" and not weights:
                continue
            n = self.e.param(f"{s}<{which}>", nonnull=True, array=True, role="data")
            self.seeds[n.id] = (s, which)
            self.R.seeds[n.id] = RV("dom", ("all", base), None, None) if s == "sample_domain" else arr(("all", base))
            st.heap[(obj, s if s != "sample_idx" else "_sample_idx")] = n
            if s == "sample_idx":
                st.heap[(obj, "sample_idx")] = n
        h = self.e.param(f"has_y<{which}>", nonnull=True, array=True, role="data")
        self.R.seeds[h.id] = RV("mask", ("all", base), ("k", "labelled"), ("all", base))
        st.heap[(obj, "has_y")] = h
        st.heap[(obj, "has_weights")] = self.e.const(weights)
        self.seeds[h.id] = ("has_y", which)
        if not weights:
            n = self.e.mk("call", (self.e.mk("ext", (), val="torch.Tensor"),))
            st.heap[(obj, "sample_weight")] = n
        st.heap[(obj, "device")] = self.e.const("cpu")
        st.heap[(obj, "allow_label_masks")] = self.e.const(True)
        return ins

    def run(self, m, **a):
        fi = self.c.find(m)
        a = {k: v for k, v in a.items() if k in fi.all_params}
        before = dict(self.R.st.heap), dict(self.R.st.ver)
        mark = len(self.e.events)
        r, st = self.e.run(fi, a, self_node=self.a, st=self.R.st, phase=m)
        if st.dead:
            st.dead = None
        self.R.st = st
        self.R._rows = None
        self.events = self.e.events[mark:]
        self.before = before
        self.ctx.analysed(self.e)
        return r

    def attrs(self, obj):
        return {k[1]: self.e.cur(v, self.R.st) for k, v in self.R.st.heap.items() if k[0] is obj}

    def bundle(self, n):
        """{slot: value} of a dataset, tuple or dictionary."""
        if n.op == "inst" and n.val is self.a.val:
            at = self.attrs(n.val)
            return {s: at[k] for s, k in zip(SLOTS, ("X", "y", "sample_domain", "sample_weight", "_sample_idx")) if k in at}
        if n.op == "inst":
            init, x = n.val.cls.find("__init__"), n.extra or {}
            names = [p for p in init.all_params if p != "self"] if init is not None else []
            pos = list(x.get("pos", ()))
            if any(not isinstance(p, Node) for p in pos) or x.get("kwstar") is not None:
                return None
            at = dict(zip(names, pos))
            at.update(x.get("kw", {}))
            if "X" in at and at["X"].op in ("dict", "update"):
                items, unk = self.e.dict_items(at["X"], self.R.st)
                if unk is not None:
                    return None
                at = {**{s: v for s, v in at.items() if s != "X"}, **{k: v for k, v in items.items() if k in SLOTS}}
            elif "X" in at and at["X"].op in ("phi", "loop", "dictcomp"):
                return None
            return {s: v for s, v in at.items() if s in SLOTS and not (v.op == "const" and v.val is None)}
        if n.op == "tuple" and 3 <= len(n.args) <= 4:
            return dict(zip(SLOTS, n.args))
        if n.op == "tuple" and len(n.args) == 2:
            d = self.bundle(n.args[0])
            return {**d, "y": n.args[1]} if d is not None else None
        if n.op in ("dict", "update"):
            items, unk = self.e.dict_items(n, self.R.st)
            return {k: v for k, v in items.items() if k in SLOTS} if unk is None else None
        return None


def plain_index(n):
    """What a value is indexed with, without conversions."""
    while n.op == "call" and len(n.args) > 1 and tail(n) in KEEP or n.op == "call" and n.args[0].op == "attr" and n.args[0].args[0].op != "ext" and tail(n) in METH:
        n = n.args[1] if tail(n) in KEEP and len(n.args) > 1 else n.args[0].args[0]
    return n


def judge(ctx, k, b, con, site, ids=False):
    """One bundle: slots and togetherness."""
    S = Slot(k.seeds)
    R = k.R.rows
    good = True
    for s, v in b.items():
        got = S.get(v)
        known = {x for x in got if x != "?"}
        if known and all(x[0] != s for x in known) or any(x[0] != s for x in known) and "?" not in got:
            ctx.bad("slots", con, v.site or site, f"the {NAME[s]} are taken from the {', '.join(sorted(NAME[x[0]] for x in known if x[0] != s))}")
            good = False
    if good:
        ctx.ok("slots", con, site)
    orders = {s: order(S, v) for s, v in b.items()}
    os = {o for o in orders.values() if o is not None and len(o) > 1}
    if len(os) > 1:
        ctx.bad("together", con, site, "concatenated in different orders: " + ", ".join(f"{NAME[s]} {'+'.join(o)}" for s, o in orders.items() if o))
        return
    one = {s: o for s, o in orders.items() if o is not None and len(o) == 1}
    if os and one:
        for s in one:
            ctx.bad("together", con, site, f"the {NAME[s]} are those of one dataset only")
        return
    idx = {}
    for s, v in b.items():
        for a in flat_alts(v):
            a = plain_index(a)
            if a.id in k.seeds:
                idx.setdefault(s, set()).add("whole")
            if a.op == "sub" and a.args[0].id in k.seeds and a.args[1].op not in ("slice", "tuple"):
                idx.setdefault(s, set()).add(k.e.key(plain_index(a.args[1])))
    if len({frozenset(v) for v in idx.values()}) > 1 and all(len(v) == 1 for v in idx.values()):
        ctx.bad("together", con, site, "the slots are not indexed in the same way: " + ", ".join(sorted(idx)))
        return
    vals = {s: [x for x in R.get(v) if x.kind in ("arr", "dom", "idx") and x.rows is not None] for s, v in b.items()}
    for s, xs in vals.items():
        for t, ys in vals.items():
            if s < t and any(differ(x.rows, y.rows) or differ_len(x.rows, y.rows) for x in xs for y in ys):
                ctx.bad("together", con, site, f"the {NAME[s]} and the {NAME[t]} are those of different samples")
                return
    if all(vals.values()):
        ctx.ok("together", con, site)
    else:
        ctx.und("together", con, site, "samples not known: " + ", ".join(sorted(s for s, x in vals.items() if not x)))


def effects(ctx, k, con, site):
    """The receiver is left as it was."""
    hb, vb = k.before
    obj = k.a.val
    for (o, name), v in k.R.st.heap.items():
        if o is obj and hb.get((o, name)) is not v and name in ("X", "y", "sample_domain", "sample_weight", "_sample_idx", "has_y", "has_weights"):
            ctx.bad("unchanged", con, v.site or site, f"sets {name} of the dataset itself")
            return
    mine = {v.root.id: n for (o, n), v in hb.items() if o is obj}
    for rid, v in k.R.st.ver.items():
        if rid in mine and vb.get(rid) is not v:
            ctx.bad("unchanged", con, v.site or site, f"modifies {mine[rid]} of the dataset itself")
            return
    ctx.ok("unchanged", con, site)


def run(ctx):
    cs = [c for c in ctx.classes() if c.name == "DeepDADataset" or c.has_base_named("DeepDADataset")]
    for c in cs:
        for m, args, want in operations():
            if c.find(m) is None:
                continue
            try:
                operation(ctx, c, m, args, want)
            except Exception as x:
                if ctx.tier == "debug":
                    raise
                ctx.und("walk", f"{c.full}.{m}", None, f"{type(x).__name__}: {x}")
        for f in (constructor, merging, weighting, splitting, made_elsewhere):
            try:
                f(ctx, c)
            except Exception as x:
                if ctx.tier == "debug":
                    raise
                ctx.und("walk", f"{c.full}: {f.__name__}", None, f"{type(x).__name__}: {x}")
    ctx.need(len(cs), 1, "deep datasets")


def operations():
    p = lambda n: (lambda k: k.e.param(n, nonnull=True))
    v = lambda x: (lambda k: k.e.const(x))
    out = [("as_arrays", {"return_weights": v(w)}, {"weights": w}) for w in (True, False)]
    out += [("as_dict", {"sample_indices": v(w)}, {"weights": True, "ids": w}) for w in (True, False)]
    out += [("__getitem__", {"index": p("index")}, {"weights": True, "ids": True})]
    for w in (True, False):
        out += [("select_source", {"return_weights": v(w)}, {"weights": w, "role": "SRC"}), ("select_target", {"return_weights": v(w)}, {"weights": w, "role": "TGT"})]
        out += [("select_domain", {"return_weights": v(w), "domain_id": p("domain_id")}, {"weights": w, "domain": True})]
        out += [("select_with_labels", {"return_weights": v(w)}, {"weights": w, "labelled": True})]
        out += [("select", {"condition": p("condition"), "on": v(on), "return_weights": v(w)}, {"weights": w}) for on in ("X", "y", "sample_domain", "sample_weight")]
    return out


def operation(ctx, c, m, args, want):
    k = Case(ctx, c)
    made = {n: f(k) for n, f in args.items()}
    r = k.run(m, **made)
    fi = c.find(m)
    con = f"{c.full}.{m}(" + ", ".join(f"{n}={v.val}" for n, v in made.items() if v.op == "const") + ")"
    effects(ctx, k, con, fi.full)
    got = False
    for a in flat_alts(r):
        b = k.bundle(a)
        if not b:
            continue
        got = True
        judge(ctx, k, b, con, a.site or fi.full)
        if "X" not in b or "y" not in b or "sample_domain" not in b:
            ctx.bad("together", con, a.site or fi.full, "features, labels or domain labels are missing")
        if want["weights"] and "sample_weight" not in b:
            ctx.bad("weights", con, a.site or fi.full, "the weights of the samples are lost")
        elif not want["weights"] and "sample_weight" in b and Slot(k.seeds).get(b["sample_weight"]) - {"?"}:
            ctx.bad("weights", con, a.site or fi.full, "weights are returned although they are not asked for")
        else:
            ctx.ok("weights", con)
        for s, v in b.items():
            if v.op == "param" and v in made.values():
                ctx.bad("slots", con, a.site or fi.full, f"the {NAME[s]} are the {v.val} asked for")
        if want.get("ids") and "sample_idx" not in b:
            ctx.bad("together", con, a.site or fi.full, "the sample ids are lost")
        rows = [x.rows for s, v in b.items() for x in k.R.rows.get(v) if x.rows is not None]
        if want.get("role"):
            got_role = {role(x) for x in rows}
            if want["role"] in got_role and len(got_role) == 1:
                ctx.ok("selection", con)
            elif any(x[0] == "sel" and isinstance(x[2], tuple) and x[2][:1] == ("badsign",) for x in rows):
                ctx.bad("selection", con, a.site or fi.full, "does not separate sources (label >= 0) from targets (label < 0)")
            elif {"SRC": "TGT", "TGT": "SRC"}[want["role"]] in got_role or ("all", "N") in rows:
                ctx.bad("selection", con, a.site or fi.full, f"selects {'target' if want['role'] == 'SRC' else 'source'} or all samples")
            else:
                ctx.und("selection", con, None, "selection not decided")
        if want.get("domain") or want.get("labelled"):
            pols = {x[2] for x in rows if x[0] == "sel"}
            neg = {q for q in pols if isinstance(q, tuple) and q[:1] == ("not",)}
            if ("all", "N") in rows or neg and neg == pols:
                ctx.bad("selection", con, a.site or fi.full, "selects all samples" if ("all", "N") in rows else "selects the samples that are not asked for")
            elif pols and not neg:
                want_key = k.e.key(made["domain_id"]) if want.get("domain") else None
                if want_key is not None and not all(about(x, want_key) for x in pols):
                    ctx.bad("selection", con, a.site or fi.full, "selects by something other than the domain asked for")
                else:
                    ctx.ok("selection", con)
            else:
                ctx.und("selection", con, None, "selection not decided")
        marks(ctx, k, b, con, a.site or fi.full, made, want)
    if "condition" in made:
        S = Slot(k.seeds)
        on = made["on"].val
        calls = [n for n in reach(r) if n.op == "call" and n.args[0] is made["condition"]]
        if not calls and not any(n is made["condition"] or n.op == "unknown" for n in reach(r)):
            ctx.bad("selection", con, fi.full, "the selection does not depend on the condition")
        elif not calls:
            ctx.und("selection", con, None, "condition not found")
        for n in calls:
            got_on = {x[0] for x in S.get(n.args[1]) if x != "?"} if len(n.args) > 1 else set()
            if got_on and on not in got_on:
                ctx.bad("selection", con, n.site or fi.full, f"the condition on the {NAME[on]} is applied to the {NAME[got_on.pop()]}")
            else:
                ctx.ok("selection", con)
    if not got:
        ctx.und("together", con, None, "result of unknown form")


ORDER = {"Lt", "LtE", "Gt", "GtE"}


def seed_of(k, n):
    """Slot a value is, conversions aside."""
    got = {x[0] for x in Slot(k.seeds).get(n) if x != "?"}
    return got.pop() if len(got) == 1 else None


def ordered(k, n, slot, other=None):
    """Comparisons of order between a slot and another value."""
    out = []
    for m in reach(n):
        if m.op != "cmp" or m.val not in ORDER or len(m.args) != 2:
            continue
        for x, y in (m.args, m.args[::-1]):
            y = plain_index(y)
            if seed_of(k, x) == slot and (y is other if other is not None else y.op in ("const", "unary")):
                out.append(m)
    return out


def marks(ctx, k, b, con, site, made, want):
    """Labels and domain labels are names: samples are selected by equality, and a condition on
    the labels selects among the samples that have one."""
    for v in b.values():
        for a in flat_alts(v):
            a = plain_index(a)
            if a.op != "sub" or a.args[0].id not in k.seeds or a.args[1].op in ("slice", "tuple"):
                continue
            i = a.args[1]
            if want.get("domain"):
                found = ordered(k, i, "sample_domain", made["domain_id"])
                if len(found) == 1:
                    ctx.bad("selection", con, found[0].site or site, "selects more than the domain asked for: domain labels are compared by order")
                    return
            if want.get("labelled"):
                found = ordered(k, i, "y")
                if found:
                    ctx.bad("selection", con, found[0].site or site, "samples with a label are told by the order of the labels")
                    return
            if "condition" in made and made["on"].val == "y":
                ns = reach(i)
                calls = [n for n in ns if n.op == "call" and n.args[0] is made["condition"]]
                has = [n for n in ns if k.seeds.get(n.id, (0,))[0] == "has_y" or n.op == "cmp" and any(seed_of(k, x) == "y" for x in n.args)]
                if calls and not has and not any(n.op == "unknown" for n in ns):
                    ctx.bad("selection", con, site, "a condition on the labels selects samples without a label")
                    return
                for n in ns:
                    if n.op == "bin" and n.val == "BitOr" or n.op == "call" and tail(n) == "logical_or":
                        sides = [set(m.id for m in reach(x)) for x in n.args]
                        if any(c.id in s for c in calls for s in sides) and any(h.id in s for h in has for s in sides):
                            ctx.bad("selection", con, n.site or site, "a condition on the labels selects all samples with a label")
                            return


def about(pol, key):
    """The selection compares with the value of that key."""
    if not isinstance(pol, tuple) or pol[:1] != ("k",):
        return True
    return not isinstance(pol[1], tuple) or key in pol[1] or pol[1][:1] == ("c",)


def reach(n):
    """Nodes a value is made from, through the fields of new objects."""
    seen, todo = {}, [n]
    while todo:
        m = todo.pop()
        if not isinstance(m, Node) or m.id in seen:
            continue
        seen[m.id] = m
        todo.extend(m.args)
        todo.extend(m.kw.values())
        if m.op == "inst":
            x = m.extra or {}
            todo.extend(x.get("pos", ()))
            todo.extend((x.get("kw") or {}).values())
    return list(seen.values())


def constructor(ctx, c):
    for form in ("arrays", "dictionary", "features"):
        k = Case(ctx, c)
        k.seeds = {}
        given = {}
        for s in SLOTS[:4]:
            n = k.e.param(f"given {s}", nonnull=True, array=True, role="data")
            k.seeds[n.id] = (s, "given")
            k.R.seeds[n.id] = RV("dom", ("all", "N"), None, None) if s == "sample_domain" else arr(("all", "N"))
            given[s] = n
        if form == "features":
            args = {"X": given["X"]}
        elif form == "dictionary":
            args = {"X": k.e.mk("dict", tuple(given.values()), val=list(given.items()))}
        else:
            args = dict(given)
        ins, st = k.e.instance(c, {**{p: k.e.const(None) for p in ("y", "sample_domain", "sample_weight")}, **args, "device": k.e.const("cpu"), "allow_label_masks": k.e.const(True)})
        con = f"{c.full}({form})"
        k.R._rows = None
        S = Slot(k.seeds)
        if form == "features":
            made_up(ctx, k, con, {s: st.heap.get((ins.val, s)) for s in (*SLOTS[:4], "has_y")})
            ctx.analysed(k.e)
            continue
        if form == "arrays" and st.heap.get((ins.val, "has_y")) is not None:
            found = ordered(k, st.heap[(ins.val, "has_y")], "y")
            ctx.check(not found, "labelled", con, found[0].site if found else None, "samples with a label are told by the order of the labels")
        for s in SLOTS[:4]:
            v = st.heap.get((ins.val, s))
            if v is None:
                ctx.und("slots", f"{con}.{s}", None, "attribute not found")
                continue
            ns = reach(v)
            if form == "dictionary" and given[s] not in ns and not any(n.op == "unknown" for n in ns):
                ctx.bad("slots", f"{con}.{s}", v.site, f"the {NAME[s]} given are not kept")
                continue
            got = {x for x in S.get(v) if x != "?"}
            if got and any(x[0] != s for x in got):
                ctx.bad("slots", f"{con}.{s}", v.site, f"the {NAME[s]} are taken from the {', '.join(sorted(NAME[x[0]] for x in got if x[0] != s))}")
            elif got:
                ctx.ok("slots", f"{con}.{s}")
                vals = [x for x in k.R.rows.get(v) if x.kind in ("arr", "dom") and x.rows is not None]
                ctx.check(not any(differ(x.rows, ("all", "N")) for x in vals), "together", f"{con}.{s}", v.site, f"the {NAME[s]} are not those of the samples given")
            else:
                ctx.bad("slots", f"{con}.{s}", v.site, f"the {NAME[s]} given are not kept") if "?" not in S.get(v) else ctx.und("slots", f"{con}.{s}", None, "not decided")
        ids(ctx, k, con, st.heap.get((ins.val, "_sample_idx")))
        ctx.analysed(k.e)


def made_up(ctx, k, con, at):
    """Samples given without anything else are sources, without label and without weight."""
    for s, want, what in (
        ("sample_domain", lambda x: x >= 0, "samples given without domain labels are not sources"),
        ("y", lambda x: x == -1, "samples given without labels get a label"),
        ("has_y", lambda x: not x, "samples given without labels are taken for labelled ones"),
    ):
        v = at.get(s)
        got = [fill(b) for a in flat_alts(v) for b in flat_alts(plain_index(a))] if v is not None else []
        vals = [x for x in got if x is not None]
        if not vals:
            ctx.und("made up", f"{con}.{s}", None, "value not known")
        else:
            ctx.check(all(want(x) for x in vals), "made up", f"{con}.{s}", v.site, what)


def fill(n):
    """The value a whole array is filled with."""
    n = plain_index(n)
    t = tail(n) if n.op == "call" else None
    pos = {"full": 2, "full_like": 2}.get(t)
    if t in ("zeros", "zeros_like"):
        return 0
    if t in ("ones", "ones_like"):
        return 1
    if pos is None:
        return None
    v = n.kw.get("fill_value", n.args[pos] if len(n.args) > pos else None)
    if v is None:
        return None
    if v.op == "unary" and v.val == "USub" and v.args[0].op == "const" and isinstance(v.args[0].val, (int, float)):
        return -v.args[0].val
    return v.val if v.op == "const" and isinstance(v.val, (int, float, bool)) else None


def made_elsewhere(ctx, c):
    """Where an input is turned into a dataset, everything given for it goes along."""
    for d in ctx.scoped(list(ctx.p.classes())):
        fi = d.methods.get("_prepare_input")
        if fi is None:
            continue
        R = Run(ctx.p)
        e = R.e
        ins, st = e.instance(d)
        V = {n: e.param(n, nonnull=n == "X") for n in fi.all_params if n != "self"}
        e.run(fi, V, self_node=ins, st=st, phase="prepare")
        ctx.analysed(e)
        con = f"{fi.full}"
        names = [p for p in c.find("__init__").all_params if p != "self"]
        for ev in e.events:
            if ev.kind != "new" or ev.node.val.cls is not c or ev.site.func != fi.qual:
                continue
            x = ev.node.extra or {}
            at = {**dict(zip(names, x.get("pos", ()))), **(x.get("kw") or {})}
            if x.get("kwstar") is not None or any(not isinstance(q, Node) for q in at.values()):
                ctx.und("slots", con, ev.site, "arguments not known")
                continue
            read = set()
            for v in at.values():
                read |= {n.args[1].val for n in reach(v) if n.op == "sub" and n.args[1].op == "const" and n.args[0].op not in ("param", "inst") and any(m.op == "elem" for m in reach(n.args[0]))}
            if "X" in read and not any(n.op == "unknown" for v in at.values() for n in reach(v)):
                for s in ("sample_domain", "sample_weight"):
                    ctx.check(s in read, "slots", con + ": samples", ev.site, f"the {NAME[s]} the samples come with are not kept")
                if at.get("y") is not None and at["y"].op == "param":
                    ctx.bad("slots", con + ": samples", ev.site, "the labels the samples come with are not kept")
            for s in ("y", "sample_domain", "sample_weight"):
                if s not in V:
                    continue
                v = at.get(s)
                if v is None or v.op == "const" and v.val is None:
                    ctx.bad("slots", con, ev.site, f"the {NAME[s]} given are not kept")
                elif v.op == "param" and v.val in SLOTS and v.val != s:
                    ctx.bad("slots", con, ev.site, f"the {NAME[s]} are taken from the {NAME[v.val]}")
                else:
                    ctx.ok("slots", con)
        grown(ctx, e, con)


def grown(ctx, e, con):
    """Lists of features and domain labels, one entry per sample, grow under the same conditions."""
    per = {}
    for ev in e.events:
        if ev.kind == "mutcall" and ev.name == "append" and ev.base is not None and isinstance(ev.value, Node) and ev.value.op == "sub":
            i = ev.value.args[1]
            if i.op == "const" and i.val in ("X", "sample_domain"):
                per.setdefault(i.val, []).append((frozenset((g[0].id, g[1]) for g in ev.guards), ev))
    if len(per) == 2 and all(len(v) == 1 for v in per.values()):
        (a, _), (b, ev) = per["X"][0], per["sample_domain"][0]
        ctx.check(a == b, "together", con + ": lists", ev.site, "features and domain labels of a sample are not always kept both")


def ids(ctx, k, con, n):
    """Ids count the samples of their own domain."""
    if n is None:
        return
    for m in reach(n):
        if m.op != "update" or m.val != "setitem" or m.args[1] is None:
            continue
        v = plain_index(m.args[2])
        if v.op == "call" and tail(v) in ("arange", "range") and len(v.args) > 2 and v.args[1].op == "const" and v.args[1].val != 0:
            ctx.bad("ids", con, m.site, f"the ids of a domain start at {v.args[1].val}")
            continue
        masks = [x for x in k.R.rows.get(m.args[1]) if x.kind == "mask"]
        vals = [x for x in k.R.rows.get(m.args[2]) if x.kind == "idx"]
        if not masks or not vals:
            ctx.und("ids", con, None, "ids not decided")
            continue
        for x in vals:
            if x.over == ("all", "N"):
                ctx.bad("ids", con, m.site, "a sample id is the position in the whole dataset, not in its domain")
            elif any(differ(x.over, ("sel", ("all", "N"), q.pol)) for q in masks):
                ctx.bad("ids", con, m.site, "the ids given to a domain count the samples of another one")
            else:
                ctx.ok("ids", con)


def merging(ctx, c):
    if c.find("merge") is None:
        return
    fi = c.find("merge")
    for out in (True, False):
        for keep in (True, False):
            k = Case(ctx, c)
            other = k.dataset("other", "M")
            r = k.run("merge", dataset=other, keep_weights=k.e.const(keep), out=k.e.const(out))
            con = f"{c.full}.merge(out={out}, keep_weights={keep})"
            if out:
                effects(ctx, k, con, fi.full)
                bs = [b for b in (k.bundle(a) for a in flat_alts(r)) if b]
            else:
                b = k.bundle(k.a)
                if not keep:
                    S = Slot(k.seeds)
                    if any(x != "?" for x in S.get(b.get("sample_weight"))):
                        ctx.bad("weights", con, fi.full, "weights of one of the datasets are kept without those of the other")
                    b.pop("sample_weight", None)
                at = k.attrs(k.a.val)
                for name in ("_sample_idx", "has_y"):
                    if name in at and at[name] is k.before[0].get((k.a.val, name)) and at.get("X") is not k.before[0].get((k.a.val, "X")):
                        ctx.bad("together", f"{con}: {name}", fi.full, f"{name} is left as it was for the samples before merging")
                b.pop("sample_idx", None)
                if "has_y" in at and order(Slot(k.seeds), at["has_y"]) is not None:
                    b["has_y"] = at["has_y"]
                if not keep and at.get("has_weights") is not None and at["has_weights"].op == "const" and at["has_weights"].val is True:
                    ctx.bad("weights", con, fi.full, "the merged dataset claims to have weights it has not")
                bs = [b]
            for b in bs:
                judge(ctx, k, b, con, fi.full)
                if keep and "sample_weight" not in b:
                    ctx.bad("weights", con, fi.full, "the weights of the samples are lost")
                S = Slot(k.seeds)
                for s in ("X", "y", "sample_domain"):
                    if s not in b:
                        ctx.bad("together", con, fi.full, f"the {NAME[s]} are missing")
                        continue
                    got = {x[1] for x in S.get(b[s]) if x != "?"}
                    if "?" not in S.get(b[s]) and got != {"self", "other"}:
                        ctx.bad("together", con, fi.full, f"the {NAME[s]} of one of the datasets are missing")
            if not bs:
                ctx.und("together", con, None, "result of unknown form")
    if c.find("add_domain") is not None:
        k = Case(ctx, c)
        other = k.dataset("other", "M")
        r = k.run("add_domain", dataset=other)
        con = f"{c.full}.add_domain"
        effects(ctx, k, con, c.find("add_domain").full)
        for a in flat_alts(r):
            b = k.bundle(a)
            if b:
                b.pop("sample_weight", None)
                judge(ctx, k, b, con, c.find("add_domain").full)


def weighting(ctx, c):
    for m in ("add_weights", "remove_weights"):
        fi = c.find(m)
        if fi is None:
            continue
        k = Case(ctx, c, weights=m == "remove_weights")
        w = k.e.param("weights", nonnull=True, array=True, role="data")
        k.seeds[w.id] = ("sample_weight", "given")
        k.R.seeds[w.id] = arr(("all", "N"))
        k.run(m, **{p: w for p in fi.all_params if p != "self"})
        con = f"{c.full}.{m}"
        at = k.attrs(k.a.val)
        hb = k.before[0]
        for name in ("X", "y", "sample_domain", "_sample_idx", "has_y"):
            ctx.check(at.get(name) is hb.get((k.a.val, name)), "unchanged", f"{con}: {name}", fi.full, f"sets {name} of the dataset")
        S = Slot(k.seeds)
        if m == "add_weights":
            got = S.get(at.get("sample_weight"))
            hw = at.get("has_weights")
            if hw is not None and hw.op == "const" and hw.val is False:
                ctx.bad("weights", con, fi.full, "the dataset claims to have no weights although some were added")
            if ("sample_weight", "given") in got:
                ctx.ok("weights", con)
                judge(ctx, k, k.bundle(k.a), con, fi.full)
            elif "?" in got:
                ctx.und("weights", con, None, "weights not decided")
            else:
                ctx.bad("weights", con, fi.full, "the weights given are not kept")
        else:
            hw = at.get("has_weights")
            left = {x for x in S.get(at.get("sample_weight")) if x != "?"}
            if left:
                ctx.bad("weights", con, fi.full, "the weights are still there")
            elif hw is not None and hw.op == "const" and hw.val is True:
                ctx.bad("weights", con, fi.full, "the dataset still claims to have weights")
            else:
                ctx.ok("weights", con)


def splitting(ctx, c):
    fi = c.find("per_domain_split")
    if fi is None:
        return
    for w in (True, False):
        split_once(ctx, c, fi, w)


def split_once(ctx, c, fi, weights):
    k = Case(ctx, c)
    r = k.run("per_domain_split", **({"return_weights": k.e.const(weights)} if "return_weights" in fi.all_params else {}))
    con = f"{c.full}.per_domain_split(return_weights={weights})"
    effects(ctx, k, con, fi.full)
    n = 0
    for ev in k.events:
        if ev.kind == "new" and ev.node.val.cls in c.project_mro():
            b = k.bundle(ev.node)
            if b:
                n += 1
                judge(ctx, k, b, con, ev.site)
                if "return_weights" not in fi.all_params:
                    continue
                if weights and "sample_weight" not in b:
                    ctx.bad("weights", con, ev.site, "the weights of the samples are lost")
                elif not weights and "sample_weight" in b and Slot(k.seeds).get(b["sample_weight"]) - {"?"}:
                    ctx.bad("weights", con, ev.site, "weights are returned although they are not asked for")
    if not n:
        ctx.und("together", con, None, "parts not recognised")
    pairs = []
    for m in reach(r):
        if m.op == "update" and m.val == "setitem" and m.args[1] is not None:
            pairs.append((m.args[1], m.args[2]))
        elif m.op == "dictcomp":
            pairs.append((m.args[0], m.args[1]))
    for key, part in pairs:
        if part.op != "inst":
            continue
        b = k.bundle(part)
        pols = {x.rows[2] for v in (b or {}).values() for x in k.R.rows.get(v) if x.rows is not None and x.rows[0] == "sel"}
        if pols and not all(about(q, k.e.key(key)) for q in pols):
            ctx.bad("selection", f"{con}: parts", part.site or fi.full, "a part is stored under the label of another domain")
        elif pols:
            ctx.ok("selection", f"{con}: parts")
