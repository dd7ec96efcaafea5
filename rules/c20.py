"""Domain identifiers.  Sequences of operations on a dataset (domains added one after the
other, given to the constructor as list or dictionary, merged from another dataset) are
evaluated on symbolic features and labels with the names and identifiers propagated as
constants; then every choice of sources and targets is packed.  In the packed lists the
features, the labels and the domain labels at one position come from the domain that was
asked for (pack); the domain label is one number per sample, positive and the same for every
packing of that domain as source, its negative as target, and different from the other
domains' (identity); what is reported under a name is that number (names); get_domain returns
the features and labels of the name (lookup); select_domain compares with the identifiers of
the names it was given (select).  A domain that is given no name never gets one in use."""

import itertools

from sa.scenario import Run
from sa.vf import Node, callee_name, flat_alts

TECHNIQUE = "static constant propagation of names and identifiers through sequences of dataset operations, with provenance of the packed arrays"
ASSUMPTIONS = ["concatenation keeps the order of its parts", "ones_like and full_like give one value per sample"]

WRAP = {"asarray", "array", "as_tensor", "tensor", "atleast_1d", "ascontiguousarray", "from_numpy"}
METH = {"astype", "copy", "ravel", "to", "long", "clone", "flatten", "int", "cpu", "type", "detach"}
CAT = {"concatenate", "hstack", "vstack", "cat"}


def tail(n):
    return (callee_name(n) or "").split(".")[-1]


def num(n):
    if n is None or not isinstance(n, Node):
        return None
    if n.op == "const" and isinstance(n.val, (int, float)) and not isinstance(n.val, bool):
        return n.val
    if n.op == "unary" and n.val == "USub":
        v = num(n.args[0])
        return None if v is None else -v
    return None


def fill(n, d=0):
    """The one number all elements of an array are, or None."""
    if n is None or d > 30:
        return None
    v = num(n)
    if v is not None:
        return v
    if n.op in ("phi", "ite"):
        vs = {fill(a, d + 1) for a in flat_alts(n)} if n.op == "phi" else {None}
        return vs.pop() if len(vs) == 1 else None
    if n.op == "unary" and n.val in ("USub", "UAdd"):
        v = fill(n.args[0], d + 1)
        return None if v is None else -v if n.val == "USub" else v
    if n.op in ("bin", "aug"):
        if n.val == "Mult":
            for a, b in (n.args[:2], n.args[1::-1]):
                if a.op in ("list", "tuple") and len(a.args) == 1:
                    return fill(a.args[0], d + 1)
        a, b = fill(n.args[0], d + 1), fill(n.args[1], d + 1)
        if a is None or b is None:
            return None
        return {"Mult": a * b, "Add": a + b, "Sub": a - b}.get(n.val)
    if n.op == "update" and n.val == "setitem":
        i = n.args[1]
        if i.op == "slice" and all(a.op == "const" and a.val is None for a in i.args) or i.op == "const" and i.val is Ellipsis:
            return fill(n.args[2], d + 1)
        return None
    if n.op == "comp" and n.args and not (n.extra or {}).get("parts"):
        return None
    if n.op == "call":
        t, c = tail(n), n.args[0]
        if c.op == "attr" and c.args[0].op != "ext" and t in METH:
            return fill(c.args[0], d + 1)
        if t in ("ones", "ones_like"):
            return 1
        if t in ("zeros", "zeros_like"):
            return 0
        if t in ("full", "full_like"):
            v = n.args[2] if len(n.args) > 2 else n.kw.get("fill_value")
            return fill(v, d + 1)
        if t in ("repeat", "tile") and len(n.args) > 1:
            return fill(n.args[1], d + 1)
        if t in ("negative", "neg") and len(n.args) > 1:
            v = fill(n.args[1], d + 1)
            return None if v is None else -v
        if t in ("multiply", "mul") and len(n.args) > 2:
            a, b = fill(n.args[1], d + 1), fill(n.args[2], d + 1)
            return None if a is None or b is None else a * b
        if t in WRAP and len(n.args) > 1:
            return fill(n.args[1], d + 1)
    return None


def leaves(n, marks):
    """Marked leaves (symbolic features and labels of the domains) a value is made of."""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.id in marks:
            out.add(marks[x.id])
            continue
        stack.extend(x.args)
        stack.extend(x.kw.values())
        if x.op == "dict":
            stack.extend(v for _, v in x.val)
    return out


def chunks(n, d=0):
    """Parts of a concatenated array."""
    if n is None or d > 10:
        return None
    if n.op == "call":
        t, c = tail(n), n.args[0]
        if c.op == "attr" and c.args[0].op != "ext" and t in METH:
            return chunks(c.args[0], d + 1)
        if t in CAT:
            a = n.args[1] if len(n.args) > 1 else n.kw.get("tensors") or n.kw.get("arrays")
            return list(a.args) if a is not None and a.op in ("list", "tuple") else None
        if t in WRAP and len(n.args) > 1:
            return chunks(n.args[1], d + 1)
    return None


# ------------------------------------------------------------------ histories
class History:
    """One dataset built by a sequence of operations."""

    def __init__(self, ctx, cls):
        self.ctx, self.c = ctx, cls
        self.R = Run(ctx.p)
        self.e = self.R.e
        self.marks = {}
        self.names = []
        self.count = 0

    def data(self, labelled=True):
        self.count += 1
        k = self.count
        X = self.e.param(f"X{k}", nonnull=True, array=True)
        self.marks[X.id] = ("X", k)
        y = self.e.const(None)
        if labelled:
            y = self.e.param(f"y{k}", nonnull=True, array=True)
            self.marks[y.id] = ("y", k)
        return k, X, y

    def make(self, domains=None):
        self.R.make(self.c, {"domains": domains if domains is not None else self.e.const(None)})
        return self

    def run(self, m, node=None, **a):
        r, st = self.e.run(self.c.find(m), a, self_node=node or self.R.self_node, st=self.R.st)
        if st.dead:
            st.dead = None
        self.R.st = st
        return r

    def add(self, name, labelled=True):
        k, X, y = self.data(labelled)
        a = dict(X=X, domain_name=self.e.const(name))
        a["y"] = y
        self.run("add_domain", **a)
        self.names.append((name, k, labelled))
        return self

    def lst(self, names):
        return self.e.mk("list", [self.e.const(n) for n in names])


def histories(ctx, c):
    def plain(names, flags):
        def f():
            h = History(ctx, c).make()
            for n, l in zip(names, flags):
                h.add(n, l)
            return h
        return f

    def from_list():
        h = History(ctx, c)
        items = []
        for n in ("a", "b"):
            k, X, y = h.data()
            items.append(h.e.mk("tuple", (X, y, h.e.const(n))))
            h.names.append((n, k, True))
        h.make(h.e.mk("list", items))
        return h

    def from_dict():
        h = History(ctx, c)
        items = []
        for n, lab in (("a", True), ("b", False)):
            k, X, y = h.data(lab)
            items.append((n, h.e.mk("tuple", (X, y) if lab else (X,))))
            h.names.append((n, k, lab))
        h.make(h.e.mk("dict", tuple(v for _, v in items), val=items))
        return h

    def merged(mapping):
        def f():
            h = History(ctx, c).make()
            h.add("a")
            first, st = h.R.self_node, h.R.st
            second, st2 = h.e.instance(c, {"domains": h.e.const(None)})
            h.R.st = join_heaps(st, st2)
            h.R.self_node = second
            h.add("b")
            h.add("c", False)
            h.R.self_node = first
            nm = h.e.const(None)
            if mapping:
                nm = h.e.mk("dict", (h.e.const("z"),), val=[("b", h.e.const("z"))])
                h.names = [("z" if n == "b" else n, k, l) for n, k, l in h.names]
            h.run("merge", dataset=second, names_mapping=nm)
            return h
        return f

    out = [("add a, b, c", plain("abc", (1, 1, 1))), ("add c, a (unlabelled), b", plain("cab", (1, 0, 1))), ("constructor with a list", from_list), ("constructor with a dictionary", from_dict)]
    if c.find("merge") is not None:
        out += [("merge", merged(False)), ("merge with renaming", merged(True))]
    if ctx.tier == "thorough":
        out += [(f"add {', '.join(n)}", plain(n, f)) for n in itertools.permutations("abcd") for f in ((1, 1, 1, 1), (0, 1, 0, 1))]
    return out


def join_heaps(a, b):
    s = a.copy()
    for k, v in b.heap.items():
        s.heap.setdefault(k, v)
    for k, v in b.ver.items():
        s.ver[k] = max(s.ver.get(k, 0), v) if isinstance(v, int) else s.ver.get(k, v)
    return s


def packed(h, r):
    """[(X, y, sample_domain, names or None)] of a packing result."""
    out = []
    for a in flat_alts(r):
        if a.op in ("tuple", "list") and len(a.args) == 3:
            out.append((*a.args, None))
        elif a.op == "call" and tail(a) == "Bunch":
            out.append((a.kw.get("X"), a.kw.get("y"), a.kw.get("sample_domain"), a.kw.get("domain_names")))
        elif a.op == "inst":
            # a deep dataset made of the packed arrays: what it is given is looked at
            init, x = a.val.cls.find("__init__"), a.extra or {}
            names = [p for p in init.all_params if p != "self"] if init is not None else []
            at = dict(zip(names, [v for v in x.get("pos", ()) if isinstance(v, Node)]))
            at.update(x.get("kw", {}))
            out.append((at.get(names[0]) if names else None, at.get("y"), at.get("sample_domain"), None))
        else:
            out.append((None, None, None, None))
    return out


def absent(h, r):
    """A known name is looked up in a dictionary of known names that lacks it."""
    seen, stack = set(), [r]
    while stack:
        x = stack.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].val, str):
            nd = names_of(h, x.args[0])
            if nd and x.args[1].val not in nd:
                return True
        stack.extend(x.args)
    return False


def names_of(h, n):
    """{key: value} of a dictionary with known keys, or None."""
    if not isinstance(n, Node) or n.op not in ("dict", "update"):
        return None
    items, unk = h.e.dict_items(n, h.R.st)
    return items if unk is None and not (n.extra or {}).get("maybe") else None


def run(ctx):
    cs = [c for c in ctx.classes() if c.name == "DomainAwareDataset" or c.has_base_named("DomainAwareDataset")]
    for c in cs:
        if any(c.find(m) is None for m in ("add_domain", "pack", "get_domain")):
            ctx.und("pack", c.full, None, "operations not found")
            continue
        for what, build in histories(ctx, c):
            try:
                one(ctx, c, what, build)
            except Exception as x:  # the engine failed: nothing is claimed about this history
                ctx.und("walk", f"{c.full}: {what}", None, f"{type(x).__name__}: {x}")
                if ctx.tier == "debug":
                    raise
        for what, names in (("_1", ["_1", None]), ("_2", ["_2", None]), ("unnamed, _2, unnamed", [None, "_2", None]), ("_3", ["x", "_3", None])):
            try:
                h = History(ctx, c).make()
                for n in names:
                    h.add(n)
                unnamed(ctx, c, h, what)
            except Exception as x:
                ctx.und("walk", f"{c.full}: names {what}", None, f"{type(x).__name__}: {x}")
    ctx.need(len(cs), 1, "dataset classes")


def unnamed(ctx, c, h, what):
    con = f"{c.full}.add_domain: no name after {what}"
    for (o, name), v in h.R.st.heap.items():
        cur, keys, n = h.e.cur(v, h.R.st), [], 0
        while cur is not None and cur.op == "update" and cur.val == "setitem" and n < 20:
            keys.append(cur.args[1])
            cur, n = cur.args[0], n + 1
        if len(keys) == len(h.names):
            known = [k.val for k in keys if k.op == "const"]
            if len(known) != len(set(known)):
                ctx.bad("names", con, c.find("add_domain").full, "a domain without a name takes the name of another domain")
            elif len(known) == len(keys):
                ctx.ok("names", con)
            else:
                ctx.und("names", con, None, "name of the domain not known")


def one(ctx, c, what, build):
    h = build()
    fi = c.find("pack")
    ids = {}
    short = [n for n, _, _ in h.names]
    byname = {n: (k, l) for n, k, l in h.names}
    for n in short:
        r = h.run("get_domain", domain_name=h.e.const(n))
        con = f"{c.full}.get_domain({n}) after {what}"
        got = leaves(r, h.marks)
        k = byname[n][0]
        if absent(h, r):
            ctx.bad("lookup", con, c.find("get_domain").full, f"the domain given under the name '{n}' is not known under that name")
        elif not got:
            ctx.und("lookup", con, None, "domain not recognised")
        else:
            wrong = {g for g in got if g[1] != k}
            want = {("X", k), ("y", k)} if byname[n][1] else {("X", k)}
            if wrong and not (want & got):
                ctx.bad("lookup", con, c.find("get_domain").full, f"features or labels of another domain are returned for '{n}'")
            elif wrong or got != want:
                ctx.und("lookup", con, None, "domain not decided")
            else:
                ctx.ok("lookup", con)
    choices = [((short[0],), (short[1],)), ((short[1],), (short[0],)), ((), (short[-1],)), ((short[-1],), ()), (tuple(short), tuple(short)), (tuple(short[:-1]), (short[-1],)), ((short[-1],), tuple(short[:-1]))]
    kinds = ("array", "Bunch", "tensor", "DeepDADataset")
    for src, tgt in dict.fromkeys(choices):
        for kind in kinds:
            for masked in (False, True) if kind == "array" else (False,):
                con = f"{c.full}.pack({','.join(src)} to {','.join(tgt)}, {kind}{', masked' if masked else ''}) after {what}"
                a = dict(as_sources=h.lst(src), as_targets=h.lst(tgt), mask_target_labels=h.e.const(masked), return_type=h.e.const(kind))
                a["return_X_y"] = a["train"] = a["mask"] = h.e.const(None)
                r = h.run("pack", **a)
                for X, y, dom, names in packed(h, r):
                    positions(ctx, h, con, fi.full, [(n, "s") for n in src] + [(n, "t") for n in tgt], X, y, dom, names, ids, byname, masked)
    ctx.analysed(h.e)
    # identity: one positive number per domain, used by every packing, and of its own
    con = f"{c.full}: identifiers after {what}"
    if len(ids) == len(short):
        flat = {n: {(v if side == "s" else -v) for side, v in vs} for n, vs in ids.items()}
        for n, v in flat.items():
            if len(v) != 1:
                ctx.bad("identity", con, fi.full, f"domain '{n}' is packed under the identifiers {sorted(v)}")
            elif min(v) <= 0:
                ctx.bad("identity", con, fi.full, f"domain '{n}' has the identifier {min(v)}: its samples as source are not told from targets by the sign")
        firsts = [tuple(sorted(v)) for v in flat.values()]
        if len(set(firsts)) != len(firsts):
            ctx.bad("identity", con, fi.full, f"domains share an identifier: {flat}")
        ctx.ok("identity", con)
    else:
        ctx.und("identity", con, None, f"identifiers known for {sorted(ids)} only")
    if c.find("select_domain") is not None:
        for asked in ((short[0],), (short[1],), tuple(short[:2])):
            select(ctx, c, h, what, asked, ids)


def positions(ctx, h, con, site, asked, X, y, dom, names, ids, byname, masked):
    xs, ys, ds = chunks(X), chunks(y), chunks(dom)
    if xs is None or ys is None or ds is None:
        ctx.und("pack", con, None, "packed arrays of unknown form")
        return
    # the parts must be those asked for, once each: a further part is a domain nobody asked for
    if not (len(xs) == len(ys) == len(ds)):
        ctx.bad("pack", con, site, f"{len(xs)} parts of features, {len(ys)} of labels, {len(ds)} of domain labels")
        return
    want = sorted((byname[n][0], side) for n, side in asked)
    got, ok = [], True
    for x, lab, d in zip(xs, ys, ds):
        k = {m[1] for m in leaves(x, h.marks)}
        v = fill(d)
        if len(k) != 1 or v is None:
            ctx.und("pack", con, None, "part of unknown domain")
            return
        k = k.pop()
        name = next(n for n, q in byname.items() if q[0] == k)
        for part, nm in ((lab, "labels"), (d, "domain labels")):
            m = {q[1] for q in leaves(part, h.marks)}
            if m and k not in m:
                ctx.bad("pack", con, site, f"the features of domain '{name}' are packed with the {nm} of another domain")
                ok = False
        if v == 0:
            ctx.bad("identity", con, site, f"domain '{name}' has the domain label 0")
            return
        got.append((k, "s" if v > 0 else "t"))
        ids.setdefault(name, set()).add(("s" if v > 0 else "t", v))
        if names is not None:
            nd = names_of(h, names)
            if nd is None or name not in nd:
                if nd is not None and all(num(z) is not None for z in nd.values()):
                    ctx.bad("names", con, site, f"domain '{name}' is missing from the reported names")
                    ok = False
                else:
                    ctx.und("names", con, None, "reported names not decided")
            else:
                w = num(nd[name])
                if w is None:
                    w = fill(nd[name])
                sides = {s for n, s in asked if n == name}
                if w is not None and w != v and not (len(sides) == 2 and w == -v):
                    ctx.bad("names", con, site, f"domain '{name}' is reported as {w} and packed as {v}")
                    ok = False
                elif w is not None:
                    ctx.ok("names", con)
    if sorted(got) != want:
        back = {q[0]: n for n, q in byname.items()}
        ctx.bad("pack", con, site, "packed: " + ", ".join(f"'{back[k]}' as {'source' if s == 's' else 'target'}" for k, s in got))
    elif ok:
        ctx.ok("pack", con)


def select(ctx, c, h, what, asked, ids):
    con = f"{c.full}.select_domain({','.join(asked)}) after {what}"
    dom = h.e.param("sample_domain", nonnull=True, array=True)
    arg = h.lst(asked) if len(asked) > 1 else h.e.const(asked[0])
    r = h.run("select_domain", sample_domain=dom, domains=arg)
    got, seen, stack, other = set(), set(), [r], False
    while stack:
        x = stack.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "cmp" and x.val in ("Eq", ("Eq",), "=="):
            a, b = x.args[:2]
            for p, q in ((a, b), (b, a)):
                if p is dom:
                    v = num(q)
                    if v is None:
                        other = True
                    else:
                        got.add(v)
            continue
        if x.op == "call" and tail(x) in ("isin", "in1d") and len(x.args) > 2 and x.args[2].op in ("list", "tuple"):
            for q in x.args[2].args:
                v = num(q)
                other |= v is None
                got.add(v)
            continue
        if x.op == "cmp" or x is dom:
            other = True
        if x.op == "call" and tail(x) in ("len", "zeros", "zeros_like", "ones_like", "_num_samples", "full", "shape"):
            continue
        stack.extend(x.args)
        stack.extend(x.kw.values())
    want = set()
    for n in asked:
        vs = {v if s == "s" else -v for s, v in ids.get(n, ())}
        if len(vs) != 1:
            other = True
        want |= vs
    if other or not got:
        ctx.und("select", con, None, "comparison of unknown form")
    else:
        ctx.check(got == want, "select", con, c.find("select_domain").full, f"selects the samples of {sorted(got)} for domains with the identifiers {sorted(want)}")
