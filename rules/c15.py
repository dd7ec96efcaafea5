"""Restrictions of the validation helpers.  Each helper with allow_* options is walked; every
raise on its paths is described by the literals of the conditions that lead to it: options
(with polarity) and counts of distinct domains (with role, source or target, found by the row
analysis, and the least number that triggers).  Reported: an option whose raise fires for the
count of another role or another number, with the option's polarity inverted, or without the
option; an option that reaches no raise and no call; lengths that are not compared although
the helper promises it; helpers with and without labels that restrict different things."""

import ast
import math

from rules.c03 import at
from sa.facets import role
from sa.scenario import Run
from sa.vf import callee_name, flat_alts, show

TECHNIQUE = "static analysis of guard conditions (roles and thresholds of the counts that lead to each raise)"
ASSUMPTIONS = ["check_array and check_consistent_length of scikit-learn do what they document"]

WANT = {"allow_source": ("SRC", 1), "allow_multi_source": ("SRC", 2), "allow_target": ("TGT", 1), "allow_multi_target": ("TGT", 2)}
ROLE = {"SRC": "source", "TGT": "target"}


def helpers(ctx):
    out = []
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        for f in m.functions.values():
            if not f.name.startswith("_") and any(q in WANT for q in f.all_params):
                out.append(f)
    return out


def run(ctx):
    fs = helpers(ctx)
    kinds = {}
    for f in fs:
        R = Run(ctx.p)
        try:
            R.func(f, "N", given=("sample_domain", "y"))
        except Exception as x:
            ctx.und("walk", f.full, None, f"{type(x).__name__}: {x}")
            continue
        ctx.analysed(R.e)
        S = Run(ctx.p)
        try:
            S.func(f, "N", given=("y",))
        except Exception as x:
            ctx.und("walk", f.full, None, f"{type(x).__name__}: {x}")
            S = None
        kinds[f.full] = restrictions(ctx, f, R, S)
        lengths(ctx, f, R)
        inferred(ctx, f)
    siblings(ctx, fs, kinds)
    spread(ctx)
    ctx.need(len(fs), 2, "validation helpers with allow_* options")


# ------------------------------------------------------------------ conditions as literals
def lits(n, pol):
    """Literals that certainly hold when the condition has the value `pol`."""
    if n.op == "unary" and n.val == "Not":
        return lits(n.args[0], not pol)
    if n.op == "call" and callee_name(n) == "builtins.bool" and len(n.args) == 2:
        return lits(n.args[1], pol)
    if n.op == "bool" and (n.val == "And" and pol or n.val == "Or" and not pol):
        out = []
        for a in n.args:
            out += lits(a, pol)
        return out
    return [(n, pol)]


FLIP = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE", "Eq": "Eq", "NotEq": "NotEq"}
NEG = {"Gt": "LtE", "LtE": "Gt", "Lt": "GtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}


def count_of(n):
    """The array whose distinct values (or members) the number counts, or None."""
    if n.op == "sub" and n.args[1].op == "const" and n.args[1].val == 0:
        n = n.args[0]
    if n.op == "item" and n.val == 0:
        n = n.args[0]
    if n.op == "attr" and n.val in ("shape", "size"):
        return n.args[0]
    if n.op == "call" and (callee_name(n) or "") in ("builtins.len", "numpy.size", "numpy.count_nonzero", "numpy.any", "builtins.any", "builtins.bool") and len(n.args) == 2:
        return n.args[1]
    if n.op == "call" and n.args[0].op == "attr" and n.args[0].val in ("any", "sum") and len(n.args) == 1:
        return n.args[0].args[0]
    return None


def domains_in(R, n):
    """Role of the domain labels an array of distinct labels (or a mask) is about."""
    while True:
        if n.op == "call" and (callee_name(n) or "").split(".")[-1] in ("unique", "set", "sorted", "list", "unique_values", "frozenset", "flatnonzero") and len(n.args) > 1:
            n = n.args[1]
        elif n.op == "phi" and len(n.args) == 1:
            n = n.args[0]
        else:
            break
    rs = set()
    for v in R.rows.get(n):
        if v.kind == "mask":
            rs.add(v.pol if v.pol in ("SRC", "TGT") else None)
        elif v.kind in ("dom", "arr", "idx"):
            rs.add(role(v.rows))
        elif v.kind != "neutral":
            rs.add(None)
    return rs.pop() if len(rs) == 1 else None


def count_literal(R, n, pol):
    """(role, least number of domains for which the literal holds) or None."""
    if n.op != "cmp":
        c = count_of(n)
        r = domains_in(R, c) if c is not None else None
        return (r, 1) if r is not None and pol else None
    if len(n.args) != 2:
        return None
    a, b, op = n.args[0], n.args[1], n.val
    if a.op == "const":
        a, b, op = b, a, FLIP.get(op)
    if op is None or b.op != "const" or not isinstance(b.val, (int, float)) or isinstance(b.val, bool):
        return None
    if not pol:
        op = NEG.get(op)
    c = count_of(a)
    r = domains_in(R, c) if c is not None else None
    if r is None:
        return None
    if op == "Gt":
        return (r, int(b.val) + 1)
    if op == "GtE":
        return (r, int(b.val))
    if op == "NotEq" and b.val == 0:
        return (r, 1)
    if op in ("Lt", "LtE", "Eq", "NotEq"):
        return (r, f"{op} {b.val}")
    return None


def flag_literal(n, pol):
    """(option, truth value it needs) for a literal on an option."""
    if n.op == "param" and n.val.startswith("allow_"):
        return n.val, pol
    if n.op == "cmp" and len(n.args) == 2 and n.args[0].op == "param" and n.args[0].val.startswith("allow_") and n.args[1].op == "const":
        c = n.args[1].val
        if c is None:
            return n.args[0].val, pol if n.val in ("IsNot", "NotEq") else not pol
        if isinstance(c, bool):
            same = n.val in ("Is", "Eq")
            return n.args[0].val, c if same == pol else not c
    return None


def reach(n, want, seen=None):
    """Names of options a value depends on."""
    seen = seen if seen is not None else set()
    if not hasattr(n, "op") or n.id in seen:
        return
    seen.add(n.id)
    if n.op == "param" and n.val.startswith("allow_"):
        want.add(n.val)
    for a in list(n.args) + list(n.kw.values()):
        if hasattr(a, "op"):
            reach(a, want, seen)


def restrictions(ctx, f, R, S):
    flags = [q for q in f.all_params if q.startswith("allow_")]
    used, done = set(), {}
    for ev in S.e.events if S is not None else ():
        if ev.kind == "call":
            reach(ev.node, used)
        for g, _ in ev.guards:
            if g.op != "iter":
                reach(g, used)
        if ev.kind == "raise" and not any(p and g.op == "iter" for g, p in ev.guards):
            L = [l for g, pol in ev.guards if g.op != "iter" for l in lits(g, pol)]
            missing = [pol for n, pol in L if n.op == "cmp" and len(n.args) == 2 and n.args[0].op == "param" and n.args[0].val == "sample_domain" and n.args[1].op == "const" and n.args[1].val is None and n.val in ("Is", "Eq")]
            for q, truth in (x for x in (flag_literal(n, p) for n, p in L) if x):
                if q == "allow_auto_sample_domain" and q in innermost(ev) and (truth or missing and not missing[0]):
                    ctx.bad("polarity", f"{f.full}({q})", ev.site, "missing domain labels are refused although they may be made up" if truth else "domain labels that were given are refused")
    for ev in R.e.events:
        if ev.kind == "call":
            reach(ev.node, used)
        for g, _ in ev.guards:
            if g.op != "iter":
                reach(g, used)
        if ev.kind != "raise":
            continue
        L = []
        for g, pol in ev.guards:
            if g.op != "iter":
                L += lits(g, pol)
        fl = [x for x in (flag_literal(n, p) for n, p in L) if x]
        cl = [x for x in (count_literal(R, n, p) for n, p in L) if x]
        samples(ctx, f, R, ev, L, fl)
        pos = set()
        for g, pol in ev.guards:
            if g.op != "iter" and pol:
                reach(g, pos)
        members(ctx, f, R, ev, L)
        for q, truth in fl:
            want = q == "allow_domains"
            if truth != want:
                if q not in innermost(ev) and not cl:
                    continue  # an error about something else on that branch
                ok = False
                ctx.bad("polarity", f"{f.full}({q})", ev.site, f"an error is raised when {q} is {'given' if q == 'allow_domains' else 'true'}" if truth else f"an error is raised when {q} is not given")
                continue
            if q in WANT:
                for c in cl:
                    if c != WANT[q]:
                        ok = False
                        ctx.bad("quantity", f"{f.full}({q})", ev.site, f"{q} rejects on {text(c)} instead of {text(WANT[q])}")
                    else:
                        done[q] = c
            elif q == "allow_common_domain_idx":
                common(ctx, f, R, ev, L)
        if cl and not any(q in WANT for q, _ in fl) and not (pos & set(WANT)) and f.name.startswith("check_") or cl and not fl and not pos:
            ok = False
            ctx.bad("unasked", f"{f.full}", ev.site, f"an error is raised on {text(cl[0])} whatever the options")
    for q in flags:
        if q not in used:
            ok = False
            ctx.bad("ignored", f"{f.full}({q})", f"{f.module.rel}:{f.node.lineno}", f"{q} has no effect")
        else:
            ctx.ok("option", f"{f.full}({q})", None, text(done[q]) if q in done else "")
    nd(ctx, f, R)
    return done


def samples(ctx, f, R, ev, L, fl):
    """Several domains are told apart by their labels: counting samples is something else."""
    for n, p in L:
        c = count_literal(R, n, p)
        if c is None or c[1] != 2 or not any(WANT.get(q) == c for q, t in fl if not t):
            continue
        a = next((x for x in (n.args if n.op == "cmp" else ()) if x.op != "const"), None)
        a = count_of(a) if a is not None else None
        if a is None:
            continue
        vs = [R.rows.get(x) for x in flat_alts(a)]
        con = f"{f.full}({text(c)})"
        if all(v and all(x.kind in ("arr", "mask", "dom") for x in v) for v in vs) and not any(t.op == "call" for x in flat_alts(a) for t in [x] if "unique" in (callee_name(t) or "")):
            ctx.bad("quantity", con, ev.site, "the number of samples is compared where domains are to be counted")
        else:
            ctx.ok("quantity", con)


def innermost(ev):
    """Options in the condition closest to the raise."""
    gs = [(g, p) for g, p in ev.guards if g.op != "iter"]
    if not gs:
        return set()
    return {x[0] for x in (flag_literal(n, p) for n, p in lits(*gs[-1])) if x}


def nd(ctx, f, R):
    """allow_nd and allow_label_masks reach check_array with their own sense."""
    for ev in R.e.events:
        if ev.kind != "call" or (callee_name(ev.node) or "").split(".")[-1] != "check_array":
            continue
        for k, want, inv in (("allow_nd", "allow_nd", False), ("ensure_all_finite", "allow_label_masks", True), ("force_all_finite", "allow_label_masks", True)):
            v = ev.node.kw.get(k)
            if v is None:
                continue
            L = lits(v, True)
            for n, p in L:
                x = flag_literal(n, p)
                if x and (x[0] != want or x[1] == inv):
                    ctx.bad("quantity", f"{f.full}({x[0]})", ev.site, f"{k} of check_array gets {show(v, 3)}")


def members(ctx, f, R, ev, L):
    """Known domains: not listed itself and not covered by the wildcard of its own role."""

    def listed(n):
        return n.op == "cmp" and len(n.args) == 2 and n.val in ("In", "NotIn") and any(a.op == "param" and a.val == "allow_domains" for a in flat_alts(n.args[1]))

    for n, pol in L:
        if listed(n):
            if (n.val == "NotIn") != pol:
                ctx.bad("polarity", f"{f.full}(allow_domains)", ev.site, "a domain is refused for being among the known ones")
            w = n.args[0]
            if w.op == "phi" and w.val is not None and len(w.args) == 2:
                s, t = infinity(w.args[0]), infinity(w.args[1])
                c = sign_test(w.val)
                if s and t and c and (s, t) != (c, -c):
                    ctx.bad("quantity", f"{f.full}(allow_domains)", ev.site, "the wildcard for source domains and the one for targets are exchanged")
            elif infinity(w) and n.val == "NotIn" and pol and not any(signed(g) for g, _ in ev.guards if g.op != "iter"):
                ctx.bad("quantity", f"{f.full}(allow_domains)", ev.site, "one wildcard lets domains of both roles pass")
        elif n.op == "bool" and len(n.args) > 1 and all(listed(a) for a in n.args) and {a.val for a in n.args} == {"NotIn"} and n.val == "Or" and pol:
            ctx.bad("quantity", f"{f.full}(allow_domains)", ev.site, "a known domain is refused unless its wildcard is listed too")


def signed(n, d=0):
    """Whether a condition has a test of a sign in it."""
    if not hasattr(n, "op") or d > 8:
        return False
    return bool(sign_test(n)) or any(signed(a, d + 1) for a in n.args)


def infinity(n):
    if n.op == "ext" and n.val.split(".")[-1] in ("inf", "Inf", "infty"):
        return 1
    if n.op == "const" and n.val in (float("inf"), float("-inf")):
        return 1 if n.val > 0 else -1
    if n.op == "unary" and n.val in ("USub", "-"):
        return -infinity(n.args[0]) if infinity(n.args[0]) else None
    return None


def sign_test(n):
    if n.op == "cmp" and len(n.args) == 2 and n.args[1].op == "const" and n.args[1].val == 0:
        return {"GtE": 1, "Gt": 1, "Lt": -1, "LtE": -1}.get(n.val)
    if n.op == "unary" and n.val == "Not":
        s = sign_test(n.args[0])
        return -s if s else None
    return None


def common(ctx, f, R, ev, L):
    """Indices shared by source and target: fewer absolute values than values."""
    for n, pol in L:
        if n.op != "cmp" or len(n.args) != 2:
            continue
        a, b = n.args
        ca, cb = count_of(a), count_of(b)
        if ca is None or cb is None:
            continue
        xa, xb = has_abs(ca), has_abs(cb)
        if xa == xb:
            if not xa and distinct(ca) is distinct(cb):
                ctx.bad("quantity", f"{f.full}(allow_common_domain_idx)", ev.site, "the domain labels are compared with themselves, not with their absolute values")
                return
            continue
        op = n.val if pol else NEG.get(n.val)
        if xa:
            op = FLIP.get(op)
        if op in ("Eq", "Lt", "LtE", "GtE"):
            ctx.bad("quantity", f"{f.full}(allow_common_domain_idx)", ev.site, "the error is raised when source and target share no index")
            return


def distinct(n):
    """The labels whose distinct values an array holds."""
    while n.op == "call" and (callee_name(n) or "").split(".")[-1] in ("unique", "set", "sorted", "list", "frozenset") and len(n.args) > 1 or n.op == "phi" and len(n.args) == 1:
        n = n.args[1] if n.op == "call" else n.args[0]
    return n


def has_abs(n, d=0):
    if not hasattr(n, "op") or d > 5:
        return False
    if n.op == "call" and (callee_name(n) or "").split(".")[-1] in ("abs", "absolute"):
        return True
    return any(has_abs(a, d + 1) for a in n.args)


def text(c):
    r, k = c
    if isinstance(k, int):
        return f"{k} {ROLE.get(r, r)} domain{'s' if k > 1 else ''} or more"
    return f"a number of {ROLE.get(r, r)} domains {k}"


# ------------------------------------------------------------------ lengths
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like", "zeros", "ones", "full", "empty"}


def origins(n, d=0):
    """Parameters a value has its samples from (not those it only takes the size of)."""
    out = set()
    if not hasattr(n, "op") or d > 12:
        return out
    if n.op == "param":
        return {n.val}
    if n.op == "call" and n.args[0].op != "attr":
        if (callee_name(n) or "").split(".")[-1] in LIKE:
            return out
        for a in n.args[1:2]:
            out |= origins(a, d + 1)
        return out
    for a in n.args:
        out |= origins(a, d + 1)
    return out


def lengths(ctx, f, R):
    need = [q for q in ("X", "y", "sample_domain") if q in f.all_params]
    linked = []
    for ev in R.e.events:
        if ev.kind == "call" and (callee_name(ev.node) or "").split(".")[-1] == "check_consistent_length" and len(ev.node.args) > 2 and not any(flag_dependent(g) for g, p in ev.guards if p and g.op != "iter"):
            linked.append(set().union(*(origins(a) for a in ev.node.args[1:])))
        elif ev.kind == "raise":
            for g, _ in ev.guards:
                if g.op != "iter":
                    for n, p in lits(g, _):
                        if n.op == "cmp" and any(count_of(a) is not None for a in n.args) and not any(a.op == "const" for a in n.args):
                            linked.append(origins(n))
    known = {need[0]}
    while True:
        more = known.union(*(g for g in linked if g & known))
        if more == known:
            break
        known = more
    miss = [q for q in need if q not in known]
    if miss:
        ctx.bad("lengths", f.full, f"{f.module.rel}:{f.node.lineno}", f"the length of {miss[0]} is not compared with that of {need[0]}")
    else:
        ctx.ok("lengths", f.full)


# ------------------------------------------------------------------ domains that are made up
def inferred(ctx, f):
    """Domain labels that are not given: target labels, or with labels at hand target for
    what is masked and source for the rest."""
    if "sample_domain" not in f.all_params:
        return
    R = Run(ctx.p)
    try:
        r = R.func(f, "N", none=("sample_domain",), given=("y",))
    except Exception as x:
        ctx.und("inferred", f.full, None, f"{type(x).__name__}: {x}")
        return
    if r is None or r.op != "tuple" or not r.args:
        ctx.und("inferred", f.full, None, "result not resolved")
        return
    site = f"{f.module.rel}:{f.node.lineno}"
    for masked, want, what in ((True, -1, "samples with masked labels"), (False, 1, "samples with labels")) if "y" in f.all_params else ((None, -1, "samples"),):
        got = fill_sign(r.args[-1], masked)
        if -want in got:
            ctx.bad("inferred", f.full, site, f"{what} without domain labels are taken as {'source' if want < 0 else 'target'}")
        elif want in got:
            ctx.ok("inferred", f"{f.full}({what})")
        else:
            ctx.und("inferred", f"{f.full}({what})", None, "made-up labels not resolved")


def fill_sign(n, masked, d=0):
    """Signs (1 is also zero) the array can have for samples that are masked or not."""
    if not hasattr(n, "op") or d > 25:
        return {None}
    t = (callee_name(n) or "").split(".")[-1] if n.op == "call" else ""
    if n.op == "const":
        if n.val is None:
            return set()
        return {1 if n.val >= 0 else -1} if isinstance(n.val, (int, float)) and not isinstance(n.val, bool) else {None}
    if n.op in ("phi", "loop"):
        return set().union(*(fill_sign(a, masked, d + 1) for a in n.args))
    if n.op == "unary" and n.val in ("USub", "-"):
        return {None if x is None else -x for x in fill_sign(n.args[0], masked, d + 1)}
    if n.op == "bin" and n.val in ("Mult", "*"):
        a, b = (fill_sign(x, masked, d + 1) for x in n.args)
        return {None if x is None or y is None else x * y for x in a for y in b}
    if t in ("ones", "ones_like"):
        return {1}
    if t in ("full", "full_like"):
        v = n.kw.get("fill_value") or (n.args[2] if len(n.args) > 2 else None)
        return fill_sign(v, masked, d + 1)
    if t in ("asarray", "array", "astype") or n.op == "call" and n.args[0].op == "attr" and n.args[0].val in ("astype", "copy"):
        return fill_sign(n.args[0].args[0] if n.args[0].op == "attr" else n.args[1], masked, d + 1)
    if n.op == "update" and n.val == "setitem" or t == "where" and len(n.args) == 4:
        base, m, v = n.args if n.op == "update" else (n.args[3], n.args[1], n.args[2])
        if masked is None:
            return {None}
        out = set()
        for a in flat_alts(m):
            p = masks(a)
            out |= {None} if p is None else fill_sign(v if p == masked else base, masked, d + 1)
        return out
    return {None}


def masks(n, d=0):
    """True for a mask of masked samples, False for one of the others."""
    if not hasattr(n, "op") or d > 8:
        return None
    t = (callee_name(n) or "").split(".")[-1] if n.op == "call" else ""
    plain, marked = [at(n, v) for v in (0, 3, 2.5)], [at(n, v) for v in (-1, math.nan)]
    if None not in plain + marked and len(set(map(bool, plain))) == 1:
        return not plain[0] if any(bool(m) != bool(plain[0]) for m in marked) else None
    if n.op == "cmp" and len(n.args) == 2 and n.val in ("Eq", "NotEq"):
        return n.val == "Eq" if any(a.op == "const" and a.val == -1 for a in n.args) else None
    if t == "isnan":
        return True
    if t == "isfinite":
        return False
    if n.op == "unary" and n.val in ("Not", "Invert", "~") or t in ("logical_not", "invert"):
        p = masks(n.args[-1], d + 1)
        return None if p is None else not p
    if n.op == "phi":
        ps = {masks(a, d + 1) for a in n.args}
        return ps.pop() if len(ps) == 1 else None
    return None


def flag_dependent(g):
    s = set()
    reach(g, s)
    return bool(s)


def spread(ctx):
    """Helpers taking *arrays and picking rows by position must compare lengths first."""
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        for f in m.functions.values():
            if f.name.startswith("_") or not f.vararg or "sample_domain" not in f.all_params:
                continue
            R = Run(ctx.p)
            try:
                R.func(f, "N", given=("sample_domain",))
            except Exception as x:
                ctx.und("walk", f.full, None, f"{type(x).__name__}: {x}")
                continue
            ctx.analysed(R.e)
            calls = [ev for ev in R.e.events if ev.kind == "call" and (callee_name(ev.node) or "").split(".")[-1] == "check_consistent_length"]
            own = [ev for ev in R.e.events if ev.kind == "raise" and any(g.op != "iter" and "len" in show(g, 6) and "Eq 0" not in show(g, 6) and "shape" in show(g, 8) for g, _ in ev.guards)]
            picks = positional(ctx, f, R)
            vacuous = bool(calls) and all(len(ev.node.args) == 2 and ev.node.args[1].op != "star" for ev in calls)
            if f.name == "source_target_merge":
                parts(ctx, f, R, bool(calls))
            if picks and not own and (vacuous or not calls):
                ctx.bad("lengths", f.full, calls[0].site if calls else f"{f.module.rel}:{f.node.lineno}", "rows are picked by position from arrays whose lengths were never compared")
            else:
                ctx.ok("lengths", f.full)


def parts(ctx, f, R, calls):
    """Merging: the rows of both parts are compared with the samples counted for their role."""
    got, sized = set(), False
    for ev in R.e.events:
        if ev.kind != "raise":
            continue
        need = set()
        for g, pol in ev.guards:
            if g.op == "iter":
                continue
            atoms, both = unequal(g, pol)
            rs = [(r, n) for n in atoms for r in [counted(R, n)]]
            sized |= about(R, g)
            rs = {r for r, _ in rs if r in ("SRC", "TGT")}
            if both and len(rs) == 2 or len(rs) == 1 and need - rs:
                ctx.bad("lengths", f"{f.full}(parts)", ev.site, "a wrong number of rows is refused only when source and target part are both wrong")
                return
            need |= rs if len(rs) == 1 else set()
            got |= rs
    if got == {"SRC", "TGT"}:
        ctx.ok("lengths", f"{f.full}(parts)")
    elif got:
        ctx.bad("lengths", f"{f.full}(parts)", f"{f.module.rel}:{f.node.lineno}", f"the rows of the {ROLE['TGT' if 'SRC' in got else 'SRC']} part are not compared with the samples of its domains")
    elif not sized and not calls:
        ctx.bad("lengths", f"{f.full}(parts)", f"{f.module.rel}:{f.node.lineno}", "the rows of the parts are not compared with the domain labels")
    else:
        ctx.und("lengths", f"{f.full}(parts)", None, "comparison of the lengths not resolved")


def about(R, n, seen=None):
    """A condition with samples of a role counted somewhere in it."""
    seen = set() if seen is None else seen
    if not hasattr(n, "op") or n.id in seen:
        return False
    seen.add(n.id)
    if n.op == "call" and count_of(n) is not None and any(v.kind == "mask" and v.pol in ("SRC", "TGT") for v in R.rows.get(count_of(n))):
        return True
    return any(about(R, a, seen) for a in list(n.args) + list(n.kw.values()))


def unequal(n, pol):
    """Comparisons of which one (or, second value, all) must tell a difference."""
    if n.op == "unary" and n.val == "Not":
        return unequal(n.args[0], not pol)
    if n.op == "bool":
        out = []
        for a in n.args:
            out += unequal(a, pol)[0]
        return out, (n.val == "And") == pol
    if n.op == "cmp" and len(n.args) == 2 and not any(a.op == "const" for a in n.args) and n.val == ("NotEq" if pol else "Eq"):
        return [n], False
    return [], False


def counted(R, n):
    """Role of the samples one side of the comparison counts; None when it compares something else."""
    for a in n.args:
        c = count_of(a)
        vs = [v for v in R.rows.get(c) if v.kind in ("mask", "arr", "idx")] if c is not None else []
        rs = {(v.pol if v.kind == "mask" else role(v.rows)) for v in vs}
        if len(rs) == 1 and rs <= {"SRC", "TGT"}:
            return rs.pop()
    return None


def positional(ctx, f, R):
    for ev in R.e.events:
        if ev.kind == "call" and (callee_name(ev.node) or "").split(".")[-1] in ("flatnonzero", "where", "nonzero", "argwhere"):
            return True
    return False


def siblings(ctx, fs, kinds):
    """Every option shared by two helpers restricts the same quantity in both."""
    fs = [f for f in fs if f.full in kinds]
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            if f.module is not g.module:
                continue
            for q in WANT:
                if q in f.all_params and q in g.all_params:
                    a, b = kinds[f.full].get(q), kinds[g.full].get(q)
                    if a and b and a != b:
                        ctx.bad("siblings", f"{f.name}/{g.name}({q})", None, f"{text(a)} against {text(b)}")
                    else:
                        ctx.ok("siblings", f"{f.name}/{g.name}({q})")
                    da, db = default(f, q), default(g, q)
                    if da is not None and db is not None and da != db:
                        ctx.bad("siblings", f"{f.name}/{g.name}({q}) default", None, f"default {da} against {db}")


def default(f, q):
    a = f.node.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for x, d in pairs:
        if x.arg == q and isinstance(d, ast.Constant):
            return repr(d.value)
    return None
