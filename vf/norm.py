"""Canonical forms of dataflow terms: linear/polynomial arithmetic, rebuilt constructors."""
from .engine import *
from .engine import mk_and, mk_not, mk_eq, mk_lt, mk_is, mk_as, mk_fld, mk_idx, mk_bin

ARITH = ("add", "sub", "mul")


def poly_dict(n):
    """node (already normalised) -> {tuple(atoms): coeff}"""
    if n.op == "int":
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == "poly":
        return {tuple(m.a[1:]): m.a[0] for m in n.a}
    return {(n,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for q, d in b.items():
            k = tuple(sorted(m + q, key=lambda n: n.id))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def remainders(d):
    """x - c*(x/c) is the remainder"""
    for m in list(d):
        if len(m) == 1 and m[0].op == "app" and m[0].a[0] == "div" and m[0].a[2].op == "int":
            x, c = m[0].a[1], m[0].a[2].a[0]
            k = d.get(m, 0)
            if c > 1 and k and k % c == 0:
                d = dict(d)
                del d[m]
                q = k // c
                d = padd(d, poly_dict(x), q)
                d = padd(d, poly_dict(mk_bin("rem", x, m[0].a[2], None)), -q)
    return d


def poly_node(d):
    d = remainders(d)
    if not d:
        return Int(0)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return Int(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return N("poly", *[N("mono", d[m], *m) for m in sorted(d, key=lambda m: (len(m), [x.id for x in m]))])


class Norm:
    """rewrites terms bottom-up under a set of equalities"""

    def __init__(self, subst=None, eng=None):
        self.subst = subst or {}
        self.memo = {}
        self.eng = eng

    def __call__(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._n(n)
            x = self.subst.get(r)
            k = 0
            while x is not None and k < 20:
                r = x
                x = self.subst.get(r)
                k += 1
            self.memo[n] = r
            self.memo[r] = r
        return r

    def _n(self, n):
        op = n.op
        if op in ("int", "str", "bytes", "sym", "static", "const"):
            return n
        a = [self(x) if isinstance(x, Node) else x for x in n.a]
        if op == "app":
            f = a[0]
            if f in ARITH and len(a) == 3:
                x, y = poly_dict(a[1]), poly_dict(a[2])
                if f == "add":
                    return poly_node(padd(x, y))
                if f == "sub":
                    return poly_node(padd(x, y, -1))
                return poly_node(pmul(x, y))
            if f in ("div", "rem", "pow", "shl", "shr") and len(a) == 3:
                return mk_bin(f, a[1], a[2], None)
            if f in ("min", "max") and len(a) == 3:
                x, y = a[1], a[2]
                if x.op == "int" and y.op == "int":
                    return Int((min if f == "min" else max)(x.a[0], y.a[0]))
                if x.id > y.id:
                    x, y = y, x
                return N("app", f, x, y)
            return N("app", *a)
        if op == "eq":
            return self.eq(a[0], a[1])
        if op == "lt":
            return mk_lt(a[0], a[1])
        if op == "not":
            return mk_not(a[0])
        if op == "and":
            return mk_and(a[0], a[1])
        if op == "is":
            return mk_is(a[0], a[1])
        if op == "as":
            return mk_as(a[0], a[1])
        if op == "idx":
            return mk_idx(a[0], a[1])
        if op == "fld":
            if self.eng is not None:
                return self.eng._fld_named(a[0], a[1])
            return N("fld", *a)
        if op == "poly":
            d = {}
            for m in n.a:
                t = {(): m.a[0]}
                for x in m.a[1:]:
                    t = pmul(t, poly_dict(self(x)))
                d = padd(d, t)
            return poly_node(d)
        if op == "forall" or op == "exists":
            return N(op, a[0], *sorted(a[1:], key=lambda x: x.id))
        return N(op, *a)

    def eq(self, x, y):
        if x.op == "poly" or y.op == "poly":
            d = padd(poly_dict(x), poly_dict(y), -1)
            c = d.pop((), 0)
            if not d:
                return TRUE if c == 0 else FALSE
            lead = d[sorted(d, key=lambda m: (len(m), [q.id for q in m]))[0]]
            if lead < 0:
                d = {m: -v for m, v in d.items()}
                c = -c
            return mk_eq(poly_node(d), Int(-c))
        return mk_eq(x, y)


def size(n):
    return sum(1 for _ in walk(n))


def is_const(n):
    if n.op in ("int", "bytes", "str", "static", "const"):
        return True
    if n.op in ("adt", "arr", "tup"):
        return all(is_const(x) for x in n.a if isinstance(x, Node))
    return False


def equalities(facts):
    """substitution closed under the equality facts (constants first, then the smaller term)"""
    parent = {}

    def find(x):
        while x in parent:
            x = parent[x]
        return x

    def better(a, b):
        ca, cb = is_const(a), is_const(b)
        if ca != cb:
            return ca
        ka, kb = (size(a), a.id), (size(b), b.id)
        return ka <= kb
    for (f, p) in sorted(facts, key=lambda t: t[0].id):
        if p and f.op == "eq":
            a, b = find(f.a[0]), find(f.a[1])
            if a is b:
                continue
            if a.op in ("is", "lt", "eq", "not", "and") or b.op in ("is", "lt", "eq", "not", "and"):
                continue
            if is_const(a) and is_const(b):
                continue
            if not better(a, b):
                a, b = b, a
            # a never contains b (no cyclic rewriting)
            if any(x is b for x in walk(a)):
                continue
            parent[b] = a
    return {x: find(x) for x in parent}
