"""Joins states by the affine equalities their integer values satisfy (Karr's domain)."""
from fractions import Fraction
from .engine import *
from .norm import Norm, poly_dict, poly_node


def skeleton(n, leaves):
    """the shape of a value, its linear integers taken out"""
    if n.op == "int" and not isinstance(n.a[0], bool):
        leaves.append({(): n.a[0]})
        return "#"
    if n.op in ("sym", "poly") or (n.op == "app" and n.a[0] in ("add", "sub")):
        d = poly_dict(Norm()(n)) if n.op != "sym" else {(n,): 1}
        if all(len(m) < 2 and (not m or m[0].op == "sym" and str(m[0].a[0]).startswith("affine")) for m in d):
            leaves.append(d)
            return "#"
        return n
    if n.op in ("arr", "adt", "tup"):
        return (n.op,) + tuple(skeleton(x, leaves) if isinstance(x, Node) else x for x in n.a)
    return n


def rebuild(sk, it):
    if sk == "#":
        return next(it)
    if isinstance(sk, tuple):
        return N(sk[0], *[rebuild(x, it) if x == "#" or isinstance(x, tuple) else x for x in sk[1:]])
    return sk


class Join:
    """keeps one state per shape: the affine hull of all states of that shape"""

    def __init__(self):
        self.n = 0

    def __call__(self, E, states):
        groups = {}
        for s in states:
            leaves, sk = [], []
            for k in sorted(s.st, key=repr):
                sk.append((k, skeleton(s.st[k], leaves)))
            groups.setdefault((s.ev, tuple(sk)), []).append((s, leaves))
        out = []
        for (ev, sk), g in groups.items():
            if len(g) == 1:
                out.append(g[0][0])
                continue
            h = self.hull([l for _, l in g])
            if h is None:
                out += [s for s, _ in g]
                continue
            it = iter(h)
            facts = g[0][0].facts
            for s, _ in g[1:]:
                facts = facts & s.facts
            out.append(State({k: rebuild(x, it) for k, x in sk}, facts, ev))
        return out

    def hull(self, vectors):
        m = len(vectors[0])
        base = [v.get((), 0) for v in vectors[0]]
        rows = []
        for v in vectors:
            for sym in {k for d in v for k in d if k}:
                rows.append([Fraction(d.get(sym, 0)) for d in v])
            rows.append([Fraction(d.get((), 0) - b) for d, b in zip(v, base)])
        basis = []      # reduced echelon rows
        for r in rows:
            for p, b in basis:
                if r[p]:
                    c = r[p]
                    r = [x - c * y for x, y in zip(r, b)]
            p = next((i for i in range(m) if r[i]), None)
            if p is None:
                continue
            c = r[p]
            r = [x / c for x in r]
            basis = [(q, [x - b[p] * y for x, y in zip(b, r)]) for q, b in basis] + [(p, r)]
        if any(x.denominator != 1 for _, b in basis for x in b):
            return None
        out = [{(): b} if b else {} for b in base]
        for p, b in basis:
            self.n += 1
            s = N("sym", "affine%d" % self.n)
            for i in range(m):
                if b[i]:
                    out[i][(s,)] = int(b[i])
        return [poly_node(d) for d in out]
