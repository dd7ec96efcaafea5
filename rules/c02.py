"""Sign convention and role provenance.  Every comparison of domain labels (traced through
copies, unique values, dictionary keys and loops, in every adapter, estimator, selector,
scorer, splitter and public helper) with 0, 1 or -1 must split at zero: label >= 0 is
source, label < 0 is target.  Every value whose samples are known to be source, target or
all samples must not reach a slot of the other role: parameters, keywords (Xs/Xt) and
attributes named for source or target, the split helpers' outputs, and the entries of
per-domain dictionaries."""

import ast

from sa.facets import RV, arr, role, rows_str
from sa.rowscan import ALLM, ALLN, class_runs, decided, kinds, safe_call
from sa.scenario import Run, splitters
from sa.vf import callee_name

ASSUMPTIONS = ["slots are recognised by the words source/target (or Xs, ys, Xt, yt) in their names"]

SRC_EXACT = {"Xs", "ys", "Ys", "ws"}
TGT_EXACT = {"Xt", "yt", "Yt", "wt"}
SHORT = SRC_EXACT | TGT_EXACT


def name_role(nm):
    if nm in SRC_EXACT:
        return "SRC"
    if nm in TGT_EXACT:
        return "TGT"
    toks = nm.lower().strip("_").split("_")
    if {"labels", "all", "full", "mask", "flag", "flags"} & set(toks):
        return None  # target_labels: labels of all samples, given for their target part
    s, t = bool({"source", "sources", "src"} & set(toks)), bool({"target", "targets", "tgt"} & set(toks))
    if s == t:
        return None
    return "SRC" if s else "TGT"


def run(ctx):
    runs = 0
    for w, c, R in class_runs(ctx):
        runs += 1
        scan(ctx, R, c)
    for c in ctx.scoped(splitters(ctx.p)):
        R = Run(ctx.p).make(c)
        safe_call(ctx, R, c, "split", "N")
        ctx.analysed(R.e)
        scan(ctx, R, c)
        runs += 1
    ctx.need(runs, 34, "classes handling domain labels")
    n = 0
    for fi in function_entries(ctx):
        R = Run(ctx.p)
        try:
            R.func(fi, "N", given=("sample_domain",))
        except Exception as e:
            ctx.und("walk", fi.full, None, f"{type(e).__name__}: {e}")
            continue
        ctx.analysed(R.e)
        scan(ctx, R, fi)
        n += 1
    ctx.need(n, 6, "public functions taking sample_domain")
    done = {c.full for c in ctx.p.classes() if c.full in ctx.p.__dict__.get("_class_runs", {})}
    k = 0
    for c in ctx.classes():
        if c.full in done or c in splitters(ctx.p):
            continue
        ms = [f for nme, f in c.methods.items() if nme != "__init__" and ({"sample_domain", "sample_domains"} & set(f.all_params) or mentions_domain(f))]
        if not ms:
            continue
        try:
            R = Run(ctx.p).make(c)
        except Exception as e:
            ctx.und("walk", c.full, None, f"{type(e).__name__}: {e}")
            continue
        for f in ms:
            safe_call(ctx, R, c, f.name, "N", keep=False, given=("sample_domain",))
        ctx.analysed(R.e)
        scan(ctx, R, c)
        k += 1
    ctx.need(k, 3, "other classes handling domain labels")
    if not ctx.fixture:
        contracts(ctx)


def function_entries(ctx):
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        for fi in m.functions.values():
            if {"sample_domain", "sample_domains"} & set(fi.all_params):
                yield fi


def mentions_domain(fi):
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Attribute) and x.attr == "sample_domain" or isinstance(x, ast.Constant) and x.value == "sample_domain":
            return True
    return False


def scan(ctx, R, owner):
    rows = R.rows
    for ev in R.e.events:
        if ev.kind == "cmp":
            rows.get(ev.node)
            l, r = ev.node.args
            if any(x.kind in ("dom", "domval") for a in (l, r) for x in rows.get(a)):
                k = f"{ev.site.file}:{ev.site.func}"
                b = rows.badsign.get(ev.node.id)
                if b is not None:
                    ctx.bad("sign", k, ev.site, f"domain labels compared by {b[1]} {b[2]}: label 0 is source, -1 is target")
                else:
                    ctx.ok("sign", f"{k}:{ev.site.line}")
        elif ev.kind == "enter":
            for nm, v in (ev.value or {}).items():
                if nm in SHORT and not paired(ev.value):
                    continue
                slot(ctx, R, ev, nm, v, f"{ev.name}({nm})")
        elif ev.kind == "call":
            for nm, v in ev.node.kw.items():
                if nm in SHORT and not paired(ev.node.kw):
                    continue
                slot(ctx, R, ev, nm, v, f"{(callee_name(ev.node) or '').split('.')[-1]}({nm}=)")
            receiver(ctx, R, ev)
        elif ev.kind == "setattr" and ev.name not in SHORT:
            slot(ctx, R, ev, ev.name or "", ev.value, f"attribute {ev.name}")


def paired(names):
    """Short names (Xs, Xt) tell the role only beside the other domain's data."""
    return bool({"Xs"} & set(names)) and bool({"Xt"} & set(names))


def receiver(ctx, R, ev):
    """something_source_.fit(X): what is fitted as the source part."""
    c = ev.node.args[0]
    if c.op != "attr" or c.val not in ("fit", "partial_fit", "fit_transform") or len(ev.node.args) < 2:
        return


def slot(ctx, R, ev, nm, v, what):
    if nm in ("sample_domain", "sample_domains") and v is not None and hasattr(v, "op"):
        con = f"{ev.site.file}:{ev.site.func}:{what}"
        if any(x.kind == "arr" and x.pol == ("negdom",) for x in R.rows.get(v)):
            ctx.bad("negated", con, ev.site, f"{what} gets domain labels with the sign flipped: label 0 stays source")
    want = name_role(nm)
    if want is None or v is None or not hasattr(v, "op"):
        return
    vals = [x for x in decided(R.rows.get(v)) if x.rows[0] != "fresh" and x.kind in ("arr", "dom")]
    if not vals:
        return
    con = f"{ev.site.file}:{ev.site.func}:{what}"
    other = "TGT" if want == "SRC" else "SRC"
    if all(role(x.rows) == other or x.rows[0] == "all" for x in vals):
        ctx.bad("role", con, ev.site, f"{what} is meant for {'source' if want == 'SRC' else 'target'} samples and gets {rows_str(vals[0].rows)}")
    else:
        ctx.ok("role", con)


def contracts(ctx):
    """extract_source_indices is the mask of the source samples."""
    p = ctx.p
    fi = p.func("extract_source_indices")
    R = Run(p)
    r = R.func(fi, "N", given=("sample_domain",))
    v = R.rows.get(r)
    m = [x for x in v if x.kind == "mask"]
    if m and all(x.pol == "SRC" and x.over == ALLN for x in m):
        ctx.ok("contract", "extract_source_indices")
    elif m and any(x.pol in ("TGT",) or isinstance(x.pol, tuple) and x.pol[0] == "badsign" for x in m):
        ctx.bad("contract", "extract_source_indices", fi.qual, "does not give the mask of the samples with non-negative labels")
    else:
        ctx.und("contract", "extract_source_indices", None, "result not resolved")
    ctx.analysed(R.e)
