"""Sources of randomness.  Syntax: no function of the package names a global generator (the
functions of numpy.random, random, torch's seeding functions, operating system entropy).
Value flow: in every public function and method each generator that is made, and each
external object or function that takes a random state, must get one that depends on the
random state parameter of the function or class at hand; none is made without a seed."""

import ast

from rules.c08 import Deps
from sa.entries import function_runs, method_runs
from sa.vf import Node, callee_name, show

TECHNIQUE = "static call-site scan for global generators, and value flow from the random state parameter to every generator"
ASSUMPTIONS = ["external components with a random_state argument draw from it alone", "a random state of None means the default generator, as in scikit-learn"]

NAMES = {"random_state", "seed", "rng", "generator", "gen", "random_state_", "rng_"}
NUMPY_OK = {"RandomState", "default_rng", "Generator", "SeedSequence", "BitGenerator", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "mtrand"}
TORCH_BAD = {"torch.manual_seed", "torch.seed", "torch.random.manual_seed", "torch.random.seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.cuda.seed", "torch.set_rng_state", "torch.random.set_rng_state", "torch.random.fork_rng", "torch.default_generator", "torch.mps.manual_seed"}
TORCH_DRAW = {"rand", "randn", "randint", "randperm", "normal", "bernoulli", "multinomial", "poisson"}
OS_BAD = {"os.urandom", "uuid.uuid1", "uuid.uuid4", "time.time_ns", "random.SystemRandom"}
MAKERS = {"numpy.random.RandomState", "numpy.random.default_rng", "sklearn.utils.check_random_state", "sklearn.utils.validation.check_random_state", "random.Random", "numpy.random.mtrand.RandomState"}
# external callables that shuffle, sample or initialise at random
STRONG = {"train_test_split", "ShuffleSplit", "StratifiedShuffleSplit", "GroupShuffleSplit", "RepeatedKFold", "RepeatedStratifiedKFold", "KMeans", "MiniBatchKMeans", "BisectingKMeans", "GaussianMixture", "BayesianGaussianMixture", "make_blobs", "make_classification", "make_moons", "make_circles", "make_regression", "make_gaussian_quantiles", "shuffle", "resample", "RandomizedSearchCV", "RBFSampler", "Nystroem", "GaussianRandomProjection", "randomized_svd", "TSNE", "SpectralClustering", "MDS"}
WEAK = {"RandomForestClassifier", "RandomForestRegressor", "ExtraTreesClassifier", "MLPClassifier", "MLPRegressor", "PCA", "TruncatedSVD", "KernelPCA", "FastICA", "SGDClassifier", "SGDRegressor", "KFold", "StratifiedKFold"}


def run(ctx):
    scan(ctx)
    n = 0
    for f, R in function_runs(ctx):
        n += flow(ctx, f.full, R, f)
    for c, m, R in method_runs(ctx, ctx.classes()):
        n += flow(ctx, f"{c.full}.{m}", R, c.find(m), c)
    ctx.need(n, 20, "generators and components with a random state")


# ------------------------------------------------------------------ global generators
def scan(ctx):
    for m in ctx.p.modules.values():
        if not ctx.inscope(m):
            continue
        bodies = [(f.full, f.node) for f in m.all_functions()]
        inner = {id(x) for _, n in bodies for x in ast.walk(n)}
        loose = [st for st in m.tree.body if not isinstance(st, (ast.FunctionDef, ast.ClassDef))]
        for con, node in bodies + [(m.name, ast.Module(body=loose, type_ignores=[]))]:
            local = {}
            for x in ast.walk(node):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        local[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                    for a in x.names:
                        local[a.asname or a.name] = f"{x.module}.{a.name}"
            bad = False
            stop = {id(y.value) for y in ast.walk(node) if isinstance(y, ast.Attribute)}
            stop |= {id(y) for c in ast.walk(node) if isinstance(c, ast.Compare) for y in c.comparators if forbidden_module(dotted(m, y, local))}
            for x in ast.walk(node):
                if isinstance(x, (ast.Attribute, ast.Name)) and id(x) not in stop and isinstance(x.ctx, ast.Load):
                    d = dotted(m, x, local)
                    why = forbidden(d)
                    if why:
                        bad = True
                        ctx.bad("global", f"{con}({d})", f"{m.rel}:{x.lineno}", why)
            if not bad:
                ctx.ok("global", con)
        del inner


def dotted(m, x, local):
    parts = []
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    if x.id in local:
        base = local[x.id]
    else:
        r = m.resolve(x.id)
        if not (isinstance(r, tuple) and r[0] == "ext"):
            return None
        base = r[1]
    return ".".join([base] + parts[::-1])


def forbidden_module(d):
    """Compared with, not drawn from."""
    return d in ("numpy.random", "torch.random")


def forbidden(d):
    if d is None:
        return None
    p = d.split(".")
    if p[:2] == ["numpy", "random"] and (len(p) < 3 or p[2] not in NUMPY_OK):
        return f"{d} is numpy's global generator"
    if p[0] == "random" and len(p) == 2 and p[1] not in ("Random",) and p[1][:1].islower():
        return f"{d} is Python's global generator"
    if d in TORCH_BAD:
        return f"{d} changes torch's global generator"
    if d in OS_BAD or p[0] == "secrets":
        return f"{d} cannot be reproduced"
    return None


# ------------------------------------------------------------------ value flow
def sources(R, f, c):
    """Parameter nodes that stand for the random state of the entry: {id: name}."""
    out = {}
    for ev in R.e.events:
        if ev.kind != "enter" or not isinstance(ev.value, dict):
            continue
        own = ev.phase == "init" and ev.base is R.self_node or ev.name == f.full and ev.depth == 0
        if own:
            for q, v in ev.value.items():
                if q in NAMES and v is not None and v.op == "param":
                    out[v.id] = q
    return out


def attributes(D, n):
    """Names of attributes and unresolved values a node depends on."""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("attr", "attr0", "param", "kwget"):
            out.add(str(x.val))
        if x.op in ("unknown", "loop", "missing"):
            out.add("?")
        stack.extend(x.args)
        stack.extend(x.kw.values())
    return out


def flow(ctx, con, R, f, c=None):
    own = sources(R, f, c)
    D = Deps()
    n = 0
    for ev in R.e.events:
        if ev.kind != "call" or ev.node.args[0].op != "ext":
            continue
        nm = callee_name(ev.node)
        tail = nm.split(".")[-1]
        kw, pos = ev.node.kw, ev.node.args[1:]
        where = f"{con}({tail} in {ev.site.func})"
        if nm in MAKERS:
            n += 1
            a = pos[0] if pos else kw.get("seed") or kw.get("x")
            judge(ctx, "generator", where, ev, a, own, D, nm, must=True)
        elif tail in STRONG | WEAK and not nm.startswith("numpy.") and not nm.startswith("random."):
            if off(kw):
                continue
            a = kw.get("random_state")
            if a is None and ("**" in kw or any(p.op == "star" for p in pos)):
                continue
            if tail in WEAK and a is None and (not own or tail in ("KFold", "StratifiedKFold") and "shuffle" not in kw):
                continue
            n += 1
            judge(ctx, "component", where, ev, a, own, D, nm, must=tail in STRONG)
        elif nm.startswith("torch.") and nm.count(".") == 1 and tail in TORCH_DRAW and own:
            n += 1
            judge(ctx, "component", where, ev, kw.get("generator"), own, D, nm, must=True)
        elif nm.startswith("scipy.stats.") and tail == "rvs":
            n += 1
            judge(ctx, "component", where, ev, kw.get("random_state"), own, D, nm, must=True)
    for ev in R.e.events:
        if ev.kind == "call" and ev.node.args[0].op == "attr" and ev.node.args[0].val == "rvs" and "random_state" not in ev.node.kw and own:
            ctx.bad("component", f"{con}(rvs)", ev.site, "a distribution is sampled without the random state")
    return n


def off(kw):
    s = kw.get("shuffle")
    return s is not None and s.op == "const" and s.val is False


def judge(ctx, rule, con, ev, a, own, D, nm, must):
    if a is None:
        if own:
            ctx.bad(rule, con, ev.site, f"{nm} does not get the random state")
        elif must:
            ctx.bad(rule, con, ev.site, f"{nm} draws from the global generator")
        return
    deps = D.of(a)
    if deps & set(own):
        ctx.ok(rule, con, ev.site)
        return
    if a.op == "ext" and a.val in ("numpy.random", "numpy.random.mtrand._rand"):
        ctx.bad(rule, con, ev.site, f"{nm} gets numpy's global generator")
    elif a.op == "const" and a.val is None:
        ctx.bad(rule, con, ev.site, f"{nm} gets no seed")
    elif own and not attributes(D, a) - {"shape", "size"}:
        ctx.bad(rule, con, ev.site, f"{nm} gets {show(a, 3)} instead of the random state")
    elif own and not attributes(D, a) & NAMES and "?" not in attributes(D, a) and a.op == "const":
        ctx.bad(rule, con, ev.site, f"{nm} gets {show(a, 3)} instead of the random state")
    else:
        ctx.und(rule, con, ev.site, f"{nm} gets {show(a, 3)}")
