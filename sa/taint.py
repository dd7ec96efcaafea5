"""Which samples' labels a value may carry."""

from .facets import Facet, role
from .vf import callee_name

NEUTRAL_CALLS = {"len", "isinstance", "type", "hasattr", "callable", "check_consistent_length", "is_scalar", "zeros_like", "ones_like", "empty_like", "full_like", "shape", "ndim", "result_type", "promote_types", "type_of_target", "issubdtype"}


class Labels(Facet):
    """Subsets of {'SRC', 'TGT'}: true labels of source / target samples."""

    cap = 10

    def __init__(self, rows, seeds):
        super().__init__()
        self.rows, self.seeds = rows, seeds

    def top(self):
        return frozenset(["SRC", "TGT"])

    def t_param(self, n):
        return self.seeds.get(n.id, frozenset())

    def t_attr(self, n):
        if n.val in ("shape", "dtype", "ndim", "size", "device", "is_cuda"):
            return frozenset()
        return self.get(n.args[0])

    def t_sub(self, n):
        b = self.get(n.args[0])
        i = n.args[1]
        fi = self.rows.first_index(i)
        drop = set()
        ms = [x for x in self.rows.get(fi) if x.kind in ("mask", "idx")]
        if ms and len(ms) == len(self.rows.get(fi)):
            rs = set()
            for m in ms:
                rr = m.rows if m.kind == "idx" else None
                pol = role(rr) if rr is not None else (m.pol if m.pol in ("SRC", "TGT") else role(m.over) if m.over is not None else None)
                if m.kind == "mask" and isinstance(m.pol, tuple) and m.pol and m.pol[0] == "and":
                    pol = "SRC" if "SRC" in m.pol[1:] else "TGT" if "TGT" in m.pol[1:] else pol
                rs.add(pol)
            if rs == {"SRC"}:
                drop = {"TGT"}
            elif rs == {"TGT"}:
                drop = {"SRC"}
        if not drop:
            g = self.guarded_role(n)
            if g is not None:
                drop = {"TGT"} if g == "SRC" else {"SRC"}
        it = frozenset() if i.op in ("const", "slice") else self.get(i)
        return frozenset(b - drop) | it

    def t_item(self, n):
        r = self.position(n.args[0], n.val, set())
        return r if r is not None else self.get(n.args[0])

    def position(self, n, i, seen):
        """Labels carried by element i of a value, where its elements are known."""
        if n is None or n.id in seen:
            return frozenset()
        seen.add(n.id)
        if n.op in ("tuple", "list"):
            return self.get(n.args[i]) if -len(n.args) <= i < len(n.args) else frozenset()
        if n.op in ("phi", "loop"):
            r = frozenset()
            for a in n.args:
                q = self.position(a, i, seen)
                if q is None:
                    return None
                r |= q
            return r
        if n.op in ("dval", "elem"):
            return self.entry(n.args[0], i, seen)
        return None

    def entry(self, d, i, seen):
        """Element i of any entry of a dictionary (or list) filled by stores."""
        if d.id in seen:
            return frozenset()
        seen.add(d.id)
        if d.op == "update" and d.val in ("setitem", "append"):
            a, b = self.entry(d.args[0], i, seen), self.position(d.args[2], i, seen)
            return None if a is None or b is None else a | b
        if d.op in ("phi", "loop"):
            r = frozenset()
            for a in d.args:
                q = self.entry(a, i, seen)
                if q is None:
                    return None
                r |= q
            return r
        if d.op == "dict" and not d.val or d.op == "list" and not d.args:
            return frozenset()
        if d.op == "dict" and all(k != "**" for k, _ in d.val):
            r = frozenset()
            for _, v in d.val:
                q = self.position(v, i, seen)
                if q is None:
                    return None
                r |= q
            return r
        if d.op == "dictcomp":
            return self.position(d.args[1], i, seen)
        if d.op == "comp":
            return self.position(d.args[0], i, seen)
        return None

    def t_comp(self, n):
        return self.get(n.args[0])

    def t_dictcomp(self, n):
        return self.get(n.args[1])

    def t_dkey(self, n):
        return frozenset()

    def t_elem(self, n):
        return self.get(n.args[0])

    def guarded_role(self, n):
        """Role of a domain's samples, from a test of its label on the way to n."""
        for c, pol in n.guards or ():
            if c.op == "cmp":
                op, l, r = c.val, c.args[0], c.args[1]
                if any(x.kind in ("dom", "domval") for x in self.rows.get(l)) and r.op == "const":
                    src = {("GtE", 0): True, ("Gt", -1): True, ("Lt", 0): False, ("LtE", -1): False}.get((op, r.val))
                    if src is not None:
                        return "SRC" if src == pol else "TGT"
        return None

    def t_update(self, n):
        base, idx, val = n.args
        b = self.get(base)
        v = self.get(val) if val is not None else frozenset()
        if n.val == "setitem" and idx is not None:
            fi = self.rows.first_index(idx)
            ms = self.rows.get(fi)
            if ms and all(x.kind == "mask" and x.pol in ("SRC", "TGT") for x in ms):
                pols = {x.pol for x in ms}
                if len(pols) == 1:
                    b = b - pols
        return b | v

    def t_call(self, n):
        nm = (callee_name(n) or "").split(".")[-1]
        if nm in NEUTRAL_CALLS:
            return frozenset()
        r = frozenset()
        for a in n.args:
            r |= self.get(a)
        for a in n.kw.values():
            r |= self.get(a)
        return r

    def t_func(self, n):
        return frozenset()

    def t_inst(self, n):
        return frozenset()

    def t_cmp(self, n):
        if n.val in ("Is", "IsNot"):
            return frozenset()
        return self.t_default(n)

    def t_dict(self, n):
        r = frozenset()
        for _, v in n.val:
            r |= self.get(v)
        return r
