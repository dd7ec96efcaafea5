"""Downloads.  Every file effect reached from a fetcher (folders made, files fetched,
archives extracted, paths renamed, written or removed) is resolved to a path: a root (the
data folder, a fresh staging folder) and the components below it.  The path whose existence
makes a fetcher skip the download may appear only by one rename, from a staging folder of
the same data folder, that follows every fetch and extraction and is not reached when one of
them fails.  No effect falls outside the data folder; nothing is fetched unless the
existence test failed and download_if_missing is true; what is fetched has a checksum."""

from sa.scenario import Run
from sa.vf import callee_name, flat_alts
from sa.vf import walk as nodes

TECHNIQUE = "static typestate analysis of the file effects over the value-flow graph, with path provenance and exceptional edges"
ASSUMPTIONS = ["os.rename within one folder is atomic", "_fetch_remote verifies the checksum it is given", "an archive extracts below the folder it is given"]

EXISTS = {"exists", "isdir", "isfile", "is_dir", "is_file"}
FETCH = {"_fetch_remote", "urlretrieve", "fetch_remote"}
STAGE = {"mkdtemp", "TemporaryDirectory"}
MOVE = {"os.rename", "os.replace", "shutil.move", "os.renames"}
COPY = {"shutil.copytree", "shutil.copy", "shutil.copy2", "shutil.copyfile"}
MAKE = {"os.makedirs", "os.mkdir"}
DROP = {"os.remove", "os.unlink", "os.rmdir", "shutil.rmtree"}
SAME_PATH = {"str", "fspath", "abspath", "realpath", "normpath", "Path", "PurePath", "expanduser", "resolve", "absolute", "as_posix"}


def tail(n):
    return (callee_name(n) or "").split(".")[-1].split(":")[-1]


class P:
    """A path: a root node and components (constant strings or nodes)."""

    def __init__(self, root, parts=()):
        self.root, self.parts, self.open = root, tuple(parts), False

    def __truediv__(self, x):
        return P(self.root, self.parts + tuple(x))

    def key(self):
        return (self.root.id, tuple(p if isinstance(p, str) else p.id for p in self.parts))

    def below(self, o):
        a, b = self.key(), o.key()
        return a[0] == b[0] and a[1][: len(b[1])] == b[1]

    def __eq__(self, o):
        return self.key() == o.key()

    def apart(self, o):
        """Certainly neither contains the other."""
        if self.root.id != o.root.id:
            return True
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, str) and isinstance(b, str):
                if a != b:
                    return True
            elif isinstance(a, str) or isinstance(b, str) or a.id != b.id:
                return False
        return False


def comps(n):
    """Components a value adds to a path."""
    if n.op == "const" and isinstance(n.val, str):
        return [x for x in n.val.split("/") if x]
    return [n]


class Paths:
    def __init__(self, R):
        self.e = R.e

    def of(self, n, depth=0):
        """The paths a value may denote."""
        if depth > 30:
            return [P(n)]
        d = depth + 1
        alts = flat_alts(n)
        if len(alts) > 1:
            out = []
            for a in alts:
                out += self.of(a, d)
            # one root that is a join (the data folder given or the default) stays one root
            if all(not p.parts and not self.stage(p.root) for p in out):
                return [P(n)]
            return out
        n = alts[0]
        if n.op == "call":
            t = tail(n)
            f, A = n.args[0], n.args[1:]
            if t == "join" and A and (callee_name(n) or "").endswith("path.join"):
                return self.extend(A[0], A[1:], d)
            if t == "joinpath" and f.op == "attr":
                return self.extend(f.args[0], A, d)
            if t in SAME_PATH:
                if A:
                    return self.extend(A[0], A[1:], d)
                if f.op == "attr":
                    return self.of(f.args[0], d)
            if t == "dirname" and A:
                return self.up(self.of(A[0], d), n)
            if t in FETCH:
                # the path of the fetched file, in the folder it was fetched to
                w = n.kw.get("dirname") or (A[1] if len(A) > 1 else None)
                if w is not None:
                    return [p / [n] for p in self.of(w, d)]
            return [P(n)]
        if n.op == "bin" and n.val == "Div":
            return self.extend(n.args[0], n.args[1:], d)
        if n.op == "bin" and n.val == "Add":
            r = n.args[1]
            out = []
            for p in self.of(n.args[0], d):
                if not (r.op == "const" and isinstance(r.val, str)):
                    q = p / [r]
                elif p.open or r.val.startswith("/"):
                    q = p / comps(r)
                elif p.parts and isinstance(p.parts[-1], str):
                    q = P(p.root, p.parts[:-1] + (p.parts[-1] + r.val,))
                elif p.parts:
                    # another name beside the last component
                    q = P(p.root, p.parts[:-1] + (n,))
                else:
                    q = P(n)
                q.open = r.op == "const" and str(r.val).endswith("/")
                out.append(q)
            return out
        if n.op == "attr" and n.val == "parent":
            return self.up(self.of(n.args[0], d), n)
        if n.op == "attr" and n.val == "name" and self.stage(n.args[0]):
            return [P(n.args[0])]
        if n.op == "entered" and self.stage(n.args[0]):
            return [P(n.args[0])]
        if n.op == "fstr" and n.args:
            return [self.of(n.args[0], d)[0] / [n]]
        return [P(n)]

    def extend(self, base, more, d):
        out = self.of(base, d)
        for m in more:
            out = [p / comps(m) for p in out]
        return out

    @staticmethod
    def up(ps, n):
        return [P(p.root, p.parts[:-1]) if p.parts else P(n) for p in ps]

    @staticmethod
    def stage(n):
        return n.op == "call" and tail(n) in STAGE

    def home_of(self, root):
        """The folder a staging folder was made in, or None (the system's)."""
        d = root.kw.get("dir")
        if d is None and len(root.args) > 3:
            d = root.args[3]
        return d if d is not None and not (d.op == "const" and d.val is None) else None


class Effect:
    def __init__(self, kind, ev, paths, src=None):
        self.kind, self.ev, self.paths, self.src = kind, ev, paths, src


def effects(R, ps):
    out = []
    for ev in R.e.events:
        if ev.kind != "call" or ev.node is None:
            continue
        n = ev.node
        nm, t = callee_name(n) or "", tail(n)
        f, A = n.args[0], n.args[1:]

        def at(i, *kw):
            for k in kw:
                if k in n.kw:
                    return n.kw[k]
            return A[i] if len(A) > i else None

        def add(kind, w, src=None):
            if w is not None:
                out.append(Effect(kind, ev, ps.of(w), ps.of(src) if src is not None else None))
            else:
                out.append(Effect(kind, ev, []))

        if nm in MAKE:
            add("make", at(0, "name", "path"))
        elif t in FETCH:
            add("fetch", at(1, "dirname", "filename"))
        elif t == "unpack_archive":
            add("extract", at(1, "extract_dir"))
        elif nm in MOVE:
            add("move" if nm != "shutil.move" else "copy", at(1, "dst"), at(0, "src"))
        elif nm in COPY:
            add("copy", at(1, "dst"))
        elif nm in DROP:
            add("drop", at(0, "path"))
        elif nm == "builtins.open" or t == "open" and nm.split(".")[0] in ("io", "gzip", "codecs"):
            m = at(1, "mode")
            if m is not None and m.op == "const" and isinstance(m.val, str) and set(m.val) & set("wax+"):
                add("write", at(0, "file"))
        elif f.op == "attr":
            recv = f.args[0]
            if t == "extractall":
                add("extract", at(0, "path"))
            elif t == "extract" and len(A) + len(n.kw) >= 1 and ("path" in n.kw or len(A) >= 2):
                add("extract", at(1, "path"))
            elif t in ("mkdir", "touch", "write_text", "write_bytes") and ispath(recv):
                add("make" if t == "mkdir" else "write", recv)
            elif t in ("rename", "replace") and len(A) == 1 and ispath(recv):
                add("move", A[0], recv)
            elif t in ("unlink", "rmdir") and ispath(recv):
                add("drop", recv)
    return out


def ispath(n):
    return any(tail(x) in ("Path", "PurePath") for x in nodes(n) if x.op == "call")


def tests(ev, ps):
    """The paths whose absence guards an event."""
    out = []
    for g, pos in ev.guards:
        while g.op in ("unary", "un") and str(g.val) in ("Not", "not"):
            g, pos = g.args[0], not pos
        xs = g.args if g.op == "bool" and str(g.val) in ("And" if pos else "Or",) else [g]
        for x in xs:
            p2 = pos
            while x.op in ("unary", "un") and str(x.val) in ("Not", "not"):
                x, p2 = x.args[0], not p2
            if x.op == "call" and tail(x) in EXISTS and not p2:
                w = x.args[1] if len(x.args) > 1 else (x.args[0].args[0] if x.args[0].op == "attr" else None)
                if w is not None:
                    out += ps.of(w)
    return out


def depends(n, name):
    return any(x.op == "param" and x.val == name for x in nodes(n))


def analyse(ctx, f):
    con = f.full
    R = Run(ctx.p)
    try:
        R.func(f)
    except Exception as x:
        ctx.und("walk", con, f"{f.module.rel}:{f.node.lineno}", f"{type(x).__name__}: {x}")
        return 0
    ctx.analysed(R.e)
    ps = Paths(R)
    E = effects(R, ps)
    gets = [x for x in E if x.kind in ("fetch", "extract")]
    if not gets:
        return 0
    order = {id(ev): i for i, ev in enumerate(R.e.events)}

    # the test
    T = []
    for x in gets:
        for p in tests(x.ev, ps):
            if p not in T:
                T.append(p)
    if not T:
        ctx.und("test", con, gets[0].ev.site, "no existence test guards the download")
        return 0
    ctx.ok("test", con)
    for p in T:
        if not depends(p.root, "data_home"):
            ctx.bad("home", con, gets[0].ev.site, "the dataset is not looked for in the data folder given")
        else:
            ctx.ok("home", con)
    roots = {p.root.id for p in T}

    # nothing but under the data folder
    for x in E:
        for p in x.paths:
            if x.kind == "drop":
                if p.root.id in roots and not p.parts:
                    ctx.bad("outside", con, x.ev.site, "the data folder itself is removed")
                continue
            r = p.root
            if ps.stage(r):
                h = ps.home_of(r)
                if h is None:
                    ctx.bad("outside", con, x.ev.site, "the download is staged outside the data folder")
                elif {q.root.id for q in ps.of(h)} & roots:
                    ctx.ok("outside", con)
                else:
                    ctx.und("outside", con, x.ev.site, "the folder of the staging folder is not resolved")
            elif r.id in roots or depends(r, "data_home"):
                ctx.ok("outside", con)
            elif r.op == "const" or r.op == "call" and tail(r) in ("getcwd", "gettempdir", "cwd", "home"):
                ctx.bad("outside", con, x.ev.site, "a file is written outside the data folder")
            else:
                ctx.und("outside", con, x.ev.site, "the path is not resolved")

    # disabled downloads
    if "download_if_missing" in f.all_params:
        for x in gets:
            if x.kind == "fetch":
                if any(depends(g, "download_if_missing") for g, _ in x.ev.guards):
                    ctx.ok("disabled", con)
                else:
                    ctx.bad("disabled", con, x.ev.site, "files are fetched whatever download_if_missing")

    # checksum
    for x in gets:
        if x.kind == "fetch":
            spec = x.ev.node.args[1] if len(x.ev.node.args) > 1 else None
            found = [n for n in nodes(spec) if n.op == "call" and tail(n) == "RemoteFileMetadata"] if spec is not None else []
            for n in found:
                c = n.kw.get("checksum") or (n.args[3] if len(n.args) > 3 else None)
                if c is None or c.op == "const" and not c.val:
                    ctx.bad("checksum", con, x.ev.site, "the fetched file has no checksum: a truncated file is taken for the dataset")
                else:
                    ctx.ok("checksum", con)

    # appearance of the tested path
    for t in T:
        publish = []
        for x in E:
            for p in x.paths:
                if x.kind == "drop":
                    continue
                if x.kind in ("move", "write") and p == t:
                    publish.append(x)
                elif p.below(t):
                    what = {"make": "made", "fetch": "fetched into", "extract": "extracted into", "copy": "copied into", "move": "moved into", "write": "written into"}[x.kind]
                    ctx.bad("staged", con, x.ev.site, f"the tested folder is {what} directly: a failure leaves it incomplete")
                else:
                    ctx.ok("staged", con)
        if not publish:
            away = [x for x in E if x.kind == "move" and any(s == t for s in x.src)]
            if away:
                ctx.bad("published", con, away[0].ev.site, "the tested folder, which is not there yet, is renamed instead of the one that was prepared")
                continue
            hit = [x for x in gets if x.kind == "extract" and any(t.below(p) for p in x.paths)]
            if hit:
                ctx.bad("published", con, hit[0].ev.site, "the archive is extracted over the tested folder: a failure leaves it incomplete")
            else:
                ctx.und("published", con, gets[0].ev.site, "how the tested folder appears is not resolved")
            continue
        if all(x.kind == "move" for x in publish):
            for g in gets:
                if g.kind == "extract" and any(t.below(p) and not any(s.below(p) for x in publish for s in x.src) for p in g.paths):
                    ctx.bad("staged", con, g.ev.site, "the archive is extracted over the tested folder: a failure leaves it incomplete")
        for x in publish:
            late = [g for g in gets if order[id(g.ev)] > order[id(x.ev)] and not exclusive(g.ev, x.ev)]
            if late:
                ctx.bad("published", con, x.ev.site, "the tested folder appears before everything is fetched and extracted")
                continue
            if x.kind == "move":
                bad = [s for s in x.src if ps.stage(s.root) and ps.home_of(s.root) is None]
                if bad:
                    ctx.bad("atomic", con, x.ev.site, "the folder is renamed from outside the data folder")
                else:
                    ctx.ok("atomic", con)
                xs = [p for g in gets if g.kind == "extract" for p in g.paths]
                if xs and x.src and all(s.apart(p) and known(s, ps) and known(p, ps) for s in x.src for p in xs):
                    ctx.bad("content", con, x.ev.site, "the folder that is renamed is not one the archive is extracted to")
                else:
                    ctx.ok("content", con)
            st = "ok"
            for g in gets:
                st = max(st, survives(g.ev, x.ev), key=["ok", "und", "bad"].index)
            if st == "bad":
                ctx.bad("published", con, x.ev.site, "the tested folder appears although fetching or extracting failed")
            elif st == "und":
                ctx.und("published", con, x.ev.site, "whether a failure keeps the folder from appearing is not resolved")
            else:
                ctx.ok("published", con)
    return len(gets)


def known(p, ps):
    return ps.stage(p.root) or depends(p.root, "data_home")


def exclusive(a, b):
    ga = {g.id: p for g, p in a.guards}
    return any(g.id in ga and ga[g.id] != p for g, p in b.guards)


def survives(g, p):
    """Is p reached when g fails?  g comes before p."""
    pt = {id(i): part for i, part in p.tries}
    for i, part in reversed(g.tries):
        if part != "body":
            continue
        at = pt.get(id(i))
        if at in ("body", "else"):
            return "ok"
        if at == "finally":
            return "bad"
        if at == "handler":
            return "und"
        if i["falls"]:
            extra = [x for x, _ in p.guards if x.id not in {y.id for y, _ in g.guards}]
            loop = [y for y, _ in g.guards if y.op in ("iter", "loop") and y.id not in {x.id for x, _ in p.guards}]
            return "und" if extra or loop else "bad"
    return "ok"


def run(ctx):
    n = 0
    for f in ctx.p.functions():
        if f.cls is None and f.parent is None and ctx.inscope(f) and not f.name.startswith("_") and "data_home" in f.all_params:
            n += analyse(ctx, f)
    ctx.notes["fetch and extraction calls"] = n
    ctx.need(n, 4, "fetch and extraction calls")
