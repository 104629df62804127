"""Interprocedural guard/provenance dataflow over the dumped (monomorphic) MIR.

The engine walks the control-flow graph of an entry function, inlining workspace
callees, and computes for every way of leaving the entry function the conditions
that must have held (facts), the effects performed (events) and where every value
came from (provenance terms).  There is no solver: branches are only pruned when the
opposite of a condition is syntactically already a fact; loops are closed by a
join/fix-point; unknown library calls become uninterpreted terms.
"""
import heapq
import json
import re
import sys
from .nodes import *

sys.setrecursionlimit(200000)

INTBITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16,
           "i32": 32, "i64": 64, "isize": 64, "i128": 128, "bool": 1}


class AnalysisError(Exception):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.roots = d["roots"]
        self.adts = d["adts"]
        self.consts = d["consts"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.byname = {}
        for f in d["fns"]:
            self.byname.setdefault(f["name"], []).append(f)
        self.byinst = {f["inst"]: f for f in d["fns"]}
        for name, a in self.adts.items():
            a["bydiscr"] = {str(v[1]): v[0] for v in a["variants"]}
            a["todiscr"] = {v[0]: int(v[1]) for v in a["variants"]}

    def fn(self, name):
        l = self.byname.get(name) or ([self.byinst[name]] if name in self.byinst else [])
        if not l:
            raise AnalysisError("function not found: " + name)
        return l[0]


# ---------------------------------------------------------------- node builders
CANON_VARIANT = {"None": ("Some", False), "Err": ("Ok", False), "Break": ("Continue", False)}


def mk_not(x):
    if x.op == "int":
        return Int(1 - x.a[0])
    if x.op == "not":
        return x.a[0]
    return N("not", x)


def mk_is(x, v):
    if x.op == "adt":
        return TRUE if x.a[1] == v else FALSE
    if x.op == "upd":
        return mk_is(x.a[0], v)
    if v in CANON_VARIANT:
        return N("not", N("is", x, CANON_VARIANT[v][0]))
    return N("is", x, v)


def mk_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return N("and", a, b)


def mk_or(a, b):
    return mk_not(mk_and(mk_not(a), mk_not(b)))


def key_bytes(a):
    if a.op == "adt" and len(a.a) == 3:
        return a.a[2]
    if a.op == "app" and a.a[0] == "pubkey":
        return a.a[1]
    return app("bytes_of", a)


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op in ("str", "bytes") and b.op == a.op:
        return FALSE
    # keys are compared as their bytes
    for x, y in ((a, b), (b, a)):
        if x.op == "app" and x.a[0] == "pubkey" and len(x.a) == 2:
            return mk_eq(x.a[1], key_bytes(y))
    if b.op == "adt" and a.op != "adt":
        a, b = b, a
    if a.op == "adt":
        if b.op == "adt":
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = mk_and(r, mk_eq(x, y))
            return r
        if a.a[1] is not None:
            r = mk_is(b, a.a[1])
            bb = mk_as(b, a.a[1])
            for i, x in enumerate(a.a[2:]):
                r = mk_and(r, mk_eq(x, mk_fld(bb, i, str(i))))
            return r
    if a.op in ("tup", "arr") and b.op == a.op and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = mk_and(r, mk_eq(x, y))
        return r
    # x == x+1 style and bool comparisons
    if a.op == "int" and b.op in ("is", "eq", "lt", "not", "and"):
        return b if a.a[0] else mk_not(b)
    if b.op == "int" and a.op in ("is", "eq", "lt", "not", "and"):
        return a if b.a[0] else mk_not(a)
    # parity
    for x, y in ((a, b), (b, a)):
        if x is Int(1) and y.op == "app" and y.a[0] == "rem" and len(y.a) == 3 and y.a[2] is Int(2):
            return mk_not(N("eq", *sorted((Int(0), y), key=lambda n: n.id)))
    if a.id > b.id:
        a, b = b, a
    return N("eq", a, b)


def mk_lt(a, b, signed=False):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if signed:
        return N("lt", a, b)
    if b.op == "int" and b.a[0] == 0:
        return FALSE
    if b.op == "int" and b.a[0] == 1:
        return mk_eq(a, Int(0))
    if a.op == "int" and a.a[0] == 0:
        return mk_not(mk_eq(b, Int(0)))
    return N("lt", a, b)


def mk_as(x, v):
    if x.op == "adt":
        return x if x.a[1] == v else N("bottom")
    return N("as", x, v)


def mk_fld(x, i, name):
    op = x.op
    if op == "adt":
        try:
            return x.a[2 + i]
        except IndexError:
            return N("bottom")
    if op == "tup":
        return x.a[i] if i < len(x.a) else N("bottom")
    if op == "closure":
        return x.a[2 + i]
    if op == "upd":
        k = x.a[1]
        if k[0] == "f":
            if k[1] == i:
                return x.a[2]
            return mk_fld(x.a[0], i, name)
        return mk_fld(x.a[0], i, name)
    if op == "as" and x.a[0].op == "upd":
        u = x.a[0]
        if u.a[1][0] == "v":
            return mk_fld(u.a[2], i, name) if u.a[1][1] == x.a[1] else N("bottom")
    if op == "bottom":
        return x
    return N("fld", x, name)


def mk_idx(x, i):
    if x.op == "arr" and i.op == "int":
        return x.a[i.a[0]] if 0 <= i.a[0] < len(x.a) else N("bottom")
    if x.op == "repeat":
        return x.a[0]
    if x.op == "each":
        # an array of records with one field fixed (to one value, or by position)
        if x.a[3].op == "table":
            v = dict(x.a[3].a[0]).get(i.a[0] if i.op == "int" else None)
            return mk_idx(x.a[0], i) if v is None else N("upd", mk_idx(x.a[0], i), ("f", x.a[1], x.a[2]), v)
        return N("upd", mk_idx(x.a[0], i), ("f", x.a[1], x.a[2]), x.a[3])
    if x.op == "upd":
        k = x.a[1]
        if k[0] == "i":
            if k[1] is i:
                return x.a[2]
            if k[1].op == "int" and i.op == "int":
                return mk_idx(x.a[0], i)
    if x.op == "bytes" and i.op == "int":
        return Int(int(x.a[0][2 * i.a[0]:2 * i.a[0] + 2], 16))
    if x.op == "slice" and x.a[1].op == "int" and i.op == "int":
        return mk_idx(x.a[0], Int(x.a[1].a[0] + i.a[0]))
    return N("idx", x, i)


def wrap(v, ty):
    b = INTBITS.get(ty)
    if b is None:
        return v
    if ty[0] == "i":
        v &= (1 << b) - 1
        return v - (1 << b) if v >> (b - 1) else v
    return v & ((1 << b) - 1)


def mk_bin(op, a, b, ty):
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        r = None
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            r = x * y
        elif op == "div" and y:
            r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        elif op == "rem" and y:
            r = abs(x) % abs(y) * (1 if x >= 0 else -1)
        elif op == "pow" and y < 4096:
            r = x ** y
        elif op == "shl":
            r = x << (y & 127)
        elif op == "shr":
            r = x >> (y & 127)
        elif op == "bitand":
            r = x & y
        elif op == "bitor":
            r = x | y
        elif op == "bitxor":
            r = x ^ y
        if r is not None:
            return Int(wrap(r, ty))
    z = Int(0)
    if op == "add":
        if a is z:
            return b
        if b is z:
            return a
    if op == "sub" and b is z:
        return a
    if op == "sub" and a is b:
        return z
    if op == "mul":
        if a is Int(1):
            return b
        if b is Int(1):
            return a
        if a is z or b is z:
            return z
    if op in ("shl", "shr") and b is z:
        return a
    if op == "shr" and b.op == "int" and ty and ty[0] == "u":
        op, b = "div", Int(1 << b.a[0])
    if op == "bitand" and ty and ty[0] == "u":
        # masks of the low bits
        for x, y in ((a, b), (b, a)):
            if y.op == "int" and y.a[0] >= 0 and y.a[0] & (y.a[0] + 1) == 0:
                op, a, b = "rem", x, Int(y.a[0] + 1)
                break
    if op == "div" and b is Int(1):
        return a
    if op == "rem" and b is Int(1):
        return z
    if op == "div" and b.op == "int" and ty and ty[0] == "u" and a.op == "app" and a.a[0] == "div" and len(a.a) == 3 and a.a[2].op == "int":
        a, b = a.a[1], Int(a.a[2].a[0] * b.a[0])
    if op in ("add", "mul") and a.id > b.id:
        a, b = b, a
    if op in ("bitand", "bitor") and ty == "bool":
        return mk_and(a, b) if op == "bitand" else mk_or(a, b)
    return app(op, a, b)


def OK(x=UNIT):
    return N("adt", "std::result::Result", "Ok", x)


def ERR(x):
    return N("adt", "std::result::Result", "Err", x)


def SOME(x):
    return N("adt", "std::option::Option", "Some", x)


NONE = N("adt", "std::option::Option", "None")


def project(v, p):
    k = p[0]
    if k == "f":
        return mk_fld(v, p[1], p[2])
    if k == "v":
        return mk_as(v, p[1])
    if k == "i":
        return mk_idx(v, p[1])
    if k == "ie":
        if v.op == "arr":
            return v.a[len(v.a) - p[1]]
        return N("idx_end", v, p[1])
    if k == "ss":
        return N("subslice", v, p[1], p[2])
    if k == "rng":
        if v.op == "arr" and p[1].op == "int" and p[2].op == "int":
            return N("arr", *v.a[p[1].a[0]:p[2].a[0]])
        return N("slice", v, p[1], p[2])
    raise AnalysisError("proj " + str(p))


def update(v, path, val):
    if not path:
        return val
    p = path[0]
    rest = path[1:]
    k = p[0]
    if k == "f" and v.op in ("adt", "tup", "closure"):
        off = {"adt": 2, "tup": 0, "closure": 2}[v.op]
        l = list(v.a)
        if off + p[1] >= len(l):
            l += [N("uninit")] * (off + p[1] + 1 - len(l))
        l[off + p[1]] = update(l[off + p[1]], rest, val)
        return N(v.op, *l)
    if k == "v" and v.op == "adt":
        if v.a[1] == p[1]:
            return update(v, rest, val)
        return v
    if k == "i" and v.op == "arr" and p[1].op == "int" and p[1].a[0] < len(v.a):
        l = list(v.a)
        l[p[1].a[0]] = update(l[p[1].a[0]], rest, val)
        return N("arr", *l)
    if k == "rng" and v.op == "arr" and p[1].op == p[2].op == "int":
        w = update(project(v, p), rest, val)
        if w.op == "arr" and len(w.a) == p[2].a[0] - p[1].a[0]:
            return N("arr", *(v.a[:p[1].a[0]] + w.a + v.a[p[2].a[0]:]))
    inner = update(project(v, p), rest, val)
    if v.op == "upd" and v.a[1] == p:
        return N("upd", v.a[0], p, inner)
    return N("upd", v, p, inner)


# ---------------------------------------------------------------- states
class State:
    __slots__ = ("st", "facts", "ev")

    def __init__(self, st=None, facts=frozenset(), ev=None):
        self.st = st if st is not None else {}
        self.facts = facts
        self.ev = ev if ev is not None else NOEV

    def copy(self):
        return State(dict(self.st), self.facts, self.ev)

    def emit(self, kind, *args):
        self.ev = N("evc", self.ev, N("ev", kind, *args))


NOEV = N("evnil")


def evlist(ev, upto=None):
    out = []
    while ev.op == "evc" and ev is not upto:
        out.append(ev.a[1])
        ev = ev.a[0]
    out.reverse()
    return out


def known(st, cond):
    """truth value of cond under the facts, or None"""
    if cond.op == "int":
        return cond.a[0] != 0
    if cond.op == "not":
        r = known(st, cond.a[0])
        return None if r is None else not r
    if (cond, True) in st.facts:
        return True
    if (cond, False) in st.facts:
        return False
    if cond.op == "and":
        a, b = known(st, cond.a[0]), known(st, cond.a[1])
        if a is False or b is False:
            return False
        if a and b:
            return True
    elif cond.op == "is":
        x, v = cond.a
        for (f, p) in st.facts:
            if p and f.op == "is" and f.a[0] is x and f.a[1] != v:
                return False
    elif cond.op == "eq":
        a, b = cond.a
        c = None
        if a.op == "int":
            c, x = a, b
        elif b.op == "int":
            c, x = b, a
        if c is not None:
            for (f, p) in st.facts:
                if p and f.op == "eq" and (f.a[0] is x or f.a[1] is x):
                    o = f.a[1] if f.a[0] is x else f.a[0]
                    if o.op == "int" and o is not c:
                        return False
                elif f.op == "lt" and f.a[0] is x and f.a[1].op == "int":
                    if p and c.a[0] >= f.a[1].a[0] or (not p and c.a[0] < f.a[1].a[0]):
                        return False
                elif f.op == "lt" and f.a[1] is x and f.a[0].op == "int":
                    if p and c.a[0] <= f.a[0].a[0] or (not p and c.a[0] > f.a[0].a[0]):
                        return False
    elif cond.op == "lt":
        a, b = cond.a
        if b.op == "int" or a.op == "int":
            x, c = (a, b) if b.op == "int" else (b, a)
            for (f, p) in st.facts:
                if p and f.op == "eq" and (f.a[0] is x or f.a[1] is x):
                    o = f.a[1] if f.a[0] is x else f.a[0]
                    if o.op == "int":
                        return (o.a[0] < c.a[0]) if x is a else (c.a[0] < o.a[0])
    return None


def assume(st, cond, pol=True):
    """add cond==pol to the facts of st (in place); False when contradictory"""
    while cond.op == "not":
        cond = cond.a[0]
        pol = not pol
    k = known(st, cond)
    if k is not None and k != pol:
        return False
    if cond.op == "int":
        return True
    if cond.op == "and":
        if pol:
            return assume(st, cond.a[0], True) and assume(st, cond.a[1], True)
        if known(st, cond.a[0]) is True:
            return assume(st, cond.a[1], False)
        if known(st, cond.a[1]) is True:
            return assume(st, cond.a[0], False)
    if (cond, pol) not in st.facts:
        st.facts = st.facts | {(cond, pol)}
    return True


MERGE_CAP = 48


def merge(states, retkey=None):
    """merge states with equal memory and effects; facts by resolution, then intersection.
    States that are already returning an error keep only their common facts."""
    if len(states) <= 1:
        return states
    groups = {}
    order = []
    for s in states:
        key = (s.ev, frozenset(s.st.items()))
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append(s)
    out = []
    for key in order:
        g = groups[key]
        rv = g[0].st.get(retkey) if retkey is not None else None
        if rv is not None and rv.op == "adt" and rv.a[1] == "Err":
            f = g[0].facts
            for s in g[1:]:
                f = f & s.facts
            fs = [f]
        else:
            fs = reduce_facts([s.facts for s in g])
        for f in fs:
            out.append(State(g[0].st if len(fs) == 1 else dict(g[0].st), f, g[0].ev))
    return out


def join_values(states):
    """states that only differ in local values chosen by one condition become one, its values chosen by that condition"""
    out = []
    for s in states:
        for i, t in enumerate(out):
            j = join_two(s, t)
            if j is not None:
                out[i] = j
                break
        else:
            out.append(s)
    return out


def join_two(s, t):
    if s.ev is not t.ev or s.st.keys() != t.st.keys():
        return None
    x = [c for c, p in s.facts - t.facts if (c, not p) in t.facts]
    if len(x) != 1:
        return None
    x = x[0]
    st = {}
    for k, v in s.st.items():
        w = t.st[k]
        if v is not w:
            if k[0] != "l" or v.op == "adt" or w.op == "adt" or has_ref(v) or has_ref(w):
                return None
            a, b = (v, w) if (x, True) in s.facts else (w, v)
            v = mk_ite(x, a, b)
        st[k] = v
    return State(st, s.facts & t.facts, s.ev)


def mk_ite(c, a, b):
    return a if a is b else N("ite", c, a, b)


def reduce_facts(fs):
    fs = list(dict.fromkeys(fs))
    changed = True
    while changed and len(fs) > 1:
        changed = False
        n = len(fs)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = fs[i], fs[j]
                if a <= b:
                    r = a
                elif b <= a:
                    r = b
                else:
                    da, db = a - b, b - a
                    if len(da) == 1 and len(db) == 1:
                        (x, p), = da
                        (y, q), = db
                        if x is y and p != q:
                            r = a & b
                        else:
                            continue
                    elif len(da) == 1 or len(db) == 1:
                        # a = C + {x}, b = C + {not x, more}: drop nothing (keep precise)
                        continue
                    else:
                        continue
                fs = [f for k, f in enumerate(fs) if k != i and k != j] + [r]
                changed = True
                break
            if changed:
                break
    if len(fs) > MERGE_CAP:
        r = fs[0]
        for f in fs[1:]:
            r = r & f
        fs = [r]
    return fs


# ---------------------------------------------------------------- control flow
class Cfg:
    """successors, reverse post order and the natural-loop forest of one function"""

    def __init__(self, fn):
        self.fn = fn
        self.blocks = fn["blocks"]
        n = len(self.blocks)
        self.succ = [self._succ(b["t"]) for b in self.blocks]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(pred[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise AnalysisError("irreducible loop in " + fn["inst"])
        self.loops = loops
        self.live = self._liveness(order)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3] if isinstance(t[3], int) else t[4]]
        return []

    def _liveness(self, order):
        addr = set()
        use, dfn = {}, {}

        def places(x, out):
            # operand lists ["c"|"m",place], nested
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
                    pl(x[1], out)
                else:
                    for y in x:
                        places(y, out)

        def pl(p, out):
            out.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    out.add(e[1])

        for b in order:
            u, d = set(), set()

            def touch(s, add):
                for v in s:
                    if v not in d:
                        add.add(v)
            for s in self.blocks[b]["s"]:
                if s[0] != "=":
                    if s[0] == "sd":
                        o = set()
                        pl(s[1], o)
                        touch(o, u)
                    continue
                r = s[2]
                o = set()
                if r[0] == "ref":
                    pl(r[2], o)
                    if "*" not in r[2][1]:
                        addr.add(r[2][0])
                elif r[0] in ("discr", "len"):
                    pl(r[1], o)
                else:
                    places(r, o)
                touch(o, u)
                if not s[1][1]:
                    d.add(s[1][0])
                else:
                    o = set()
                    pl(s[1], o)
                    touch(o, u)
            t = self.blocks[b]["t"]
            o = set()
            if t[0] == "call":
                places(t[2], o)
                if t[1][0] in ("c", "m"):
                    places([t[1]], o)
                touch(o, u)
                if t[3] and not t[3][1]:
                    d.add(t[3][0])
                elif t[3]:
                    o = set()
                    pl(t[3], o)
                    touch(o, u)
            else:
                if t[0] != "drop":
                    places(t, o)
                if t[0] == "ret":
                    o.add(0)
                touch(o, u)
            use[b], dfn[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.addr = addr
        return live


# ---------------------------------------------------------------- the engine
LEAVES = ("get", "fld", "idx", "sym")


class Engine:
    MAXDEPTH = 40
    UNROLL = 140

    def __init__(self, prog, opaque=(), watch=(), hooks=(), opts=None, pure=()):
        self.p = prog
        self.pure = [re.compile(x) for x in pure]
        self.pure_cache = {}
        self.induct = {}
        self.opaque = [re.compile(x) for x in opaque]
        self.watch = [re.compile(x) for x in watch]
        self.cfgs = {}
        self.frames = {}
        self.frame_fn = {}
        self.accessors = {}
        self.width = {}
        self.unknown_calls = {}
        self.inlined = set()
        self.opq_cache = {}
        self.opts = opts or {}
        self.unroll_all = bool(self.opts.get("unroll_all"))
        self.intercept = self.opts.get("intercept")        # sees every call first
        self.split_minmax = self.opts.get("split_minmax", False)
        self.use_accessors = self.opts.get("accessors", True)
        self.stats = {"blocks": 0, "calls": 0, "loops": 0, "states": 0}
        self.depth = 0
        self.hooks = list(hooks)
        self.loops = {}            # loop -> per entry: state at its head, states at its back edges, exits, returns
        self.lens = dict((opts or {}).get("lens", {}))     # value of an array type -> its length
        self.folds = {}            # folded value -> (accumulator, its next values, number of elements)
        self.hook_cache = {}
        from . import models
        self.models = models.MODELS
        self.modelsmod = models

    # -- bookkeeping
    def cfg(self, fn):
        c = self.cfgs.get(fn["id"])
        if c is None:
            c = self.cfgs[fn["id"]] = Cfg(fn)
        return c

    def frame(self, *key):
        f = self.frames.get(key)
        if f is None:
            f = self.frames[key] = len(self.frames) + 1
        return f

    def is_opaque(self, name):
        r = self.opq_cache.get(name)
        if r is None:
            r = any(x.search(name) for x in self.opaque)
            self.opq_cache[name] = r
        return r

    def is_pure(self, name):
        r = self.pure_cache.get(name)
        if r is None:
            r = any(x.search(name) for x in self.pure)
            self.pure_cache[name] = r
        return r

    def hook(self, fn):
        r = self.hook_cache.get(fn["id"], 0)
        if r == 0:
            r = None
            for rx, f in self.hooks:
                m = rx.search(fn["name"])
                if m:
                    r = (lambda E, s, c, f=f, m=m: f(E, s, c, m))
                    break
            self.hook_cache[fn["id"]] = r
        return r

    # -- accessors generated by the account macro
    def accessor(self, fn):
        """('get'|'set', T, field) when fn is a generated account accessor"""
        r = self.accessors.get(fn["id"], 0)
        if r != 0:
            return r
        r = None
        m = re.match(r"^(.*?)(?:::<[^>]*>)?::(get|set)_(\w+)$", fn["name"])
        if m and not fn["name"].startswith("<"):
            T, k, f = m.groups()
            a = self.p.adts.get(T)
            if a and any(f == (x[0] if isinstance(x, list) else x) for x in a["variants"][0][2]):
                callees = [b["t"][1][1] for b in fn["blocks"] if b["t"][0] == "call" and b["t"][1][0] == "fn"]
                want = "try_from_slice" if k == "get" else "serialize"
                if any(c.endswith(want) for c in callees) and len([c for c in callees if c.endswith(want)]) == 1 \
                        and all(re.search(r"(try_from_slice|serialize|unwrap|Index(Mut)?::index(_mut)?|branch|from_residual|Into::into)$", c) or "panic" in c or "assert_failed" in c for c in callees):
                    r = (k, T, f)
        self.accessors[fn["id"]] = r
        return r

    # -- constants
    def const(self, c):
        k = c[0]
        if k == "int":
            return Int(int(c[1]))
        if k == "str":
            return N("str", c[1])
        if k == "bytes":
            return N("bytes", c[1])
        if k == "arr":
            return N("arr", *[self.const(x) for x in c[1]])
        if k == "tup":
            return N("tup", *[self.const(x) for x in (c[1] if len(c) > 1 else [])])
        if k == "adt":
            return N("adt", c[1], c[2], *[self.const(f[1]) for f in c[3]])
        if k == "ref":
            return self.const(c[1])
        if k == "fn":
            return N("fnptr", c[1], c[3], c[4])
        if k == "closure":
            return N("closure", c[1], c[2])
        if k == "zst":
            return UNIT
        if k == "static":
            return N("static", c[1] if len(c) > 1 else "?")
        if k == "big":
            return N("big", c[1])
        return N("const", json.dumps(c))

    # -- memory
    def load_loc(self, s, n):
        v = s.st.get(("o", n))
        if v is not None:
            return v
        op = n.op
        if op == "app":
            # lamports: borrow handle -> cell -> balance
            if n.a[0] == "lamref":
                return self.modelsmod.lamports_loc(self, s, n.a[1])
            if n.a[0] == "lamports":
                return app("bal", *n.a[1:])
        if op == "fld" or op == "as" or op == "idx":
            b = self.load_loc(s, n.a[0])
            if b is not n.a[0]:
                if op == "fld":
                    # only named access possible: rebuild through the update chain
                    return self._fld_named(b, n.a[1])
                if op == "as":
                    return mk_as(b, n.a[1])
                return mk_idx(b, n.a[1])
        return n

    def _fld_named(self, b, name):
        if b.op == "adt":
            a = self.p.adts.get(b.a[0])
            if a:
                for v in a["variants"]:
                    if v[0] == b.a[1] or b.a[1] is None:
                        for i, f in enumerate(v[2]):
                            if (f[0] if isinstance(f, list) else f) == name:
                                return mk_fld(b, i, name)
        if b.op == "upd" and b.a[1][0] == "f":
            if b.a[1][2] == name:
                return b.a[2]
            return self._fld_named(b.a[0], name)
        if b.op == "tup" and name.isdigit():
            return mk_fld(b, int(name), name)
        return N("fld", b, name)

    def read(self, s, cur):
        if cur[0] == "L":
            v = s.st.get(("l", cur[1], cur[2]))
            if v is None:
                v = N("uninit")
            for p in cur[3]:
                v = project(v, p)
            return v
        return self.load_loc(s, cur[1]) if cur[2] else cur[1]

    def resolve(self, s, F, place):
        cur = ("L", F, place[0], ())
        for e in place[1]:
            if e == "*":
                v = self.read(s, cur)
                if v.op == "ref":
                    cur = ("L", v.a[0], v.a[1], v.a[2])
                else:
                    cur = ("N", v, True)
                continue
            k = e[0]
            if k == "f":
                owner = e[3] if len(e) > 3 else ""
                if owner.startswith(("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull")):
                    continue
                p = ("f", e[1], e[2] if e[2] != "" else str(e[1]))
            elif k == "v":
                p = ("v", e[1])
            elif k == "i":
                p = ("i", self.read(s, ("L", F, e[1], ())))
            elif k == "ci":
                p = ("ie", e[1]) if e[2] else ("i", Int(e[1]))
            elif k == "ss":
                p = ("ss",) + tuple(e[1:3])
            else:
                raise AnalysisError("place elem %r" % (e,))
            if cur[0] == "L":
                cur = ("L", cur[1], cur[2], cur[3] + (p,))
            else:
                cur = ("N", project(cur[1], p), cur[2])
        return cur

    def write(self, s, cur, val):
        if cur[0] == "L":
            key = ("l", cur[1], cur[2])
            if cur[3]:
                base = s.st.get(key)
                if base is None:
                    base = N("uninit")
                s.st[key] = update(base, cur[3], val)
            else:
                s.st[key] = val
        else:
            n = cur[1]
            for k in [k for k in s.st if k[0] == "o" and k[1] is not n and self._under(k[1], n)]:
                del s.st[k]
            s.st[("o", n)] = val
            s.emit("write", n, val)

    def write_quiet(self, s, cur, val):
        if cur[0] == "L":
            self.write(s, cur, val)
        else:
            s.st[("o", cur[1])] = val

    @staticmethod
    def _under(x, n):
        while x.op in ("fld", "as", "idx"):
            x = x.a[0]
            if x is n:
                return True
        return False

    def loc_of(self, v):
        if v.op == "ref":
            return ("L", v.a[0], v.a[1], v.a[2])
        return ("N", v, True)

    def deref(self, s, v):
        """value behind a reference value (one level)"""
        return self.read(s, self.loc_of(v))

    def deep(self, s, v, _d=0):
        if v.op == "ref":
            return self.deep(s, self.read(s, ("L", v.a[0], v.a[1], v.a[2])), _d + 1)
        if not has_ref(v):
            if _d == 0 and v.op in ("fld", "idx", "as", "app", "sym"):
                return self.load_loc(s, v)
            return v
        if _d > 40:
            return v
        l = [self.deep(s, x, _d + 1) if isinstance(x, Node) else x for x in v.a]
        if v.op == "upd":
            return N("upd", *l)
        return N(v.op, *l)

    # -- operands / rvalues
    def operand(self, s, F, o):
        if o[0] == "k":
            return self.const(o[1])
        if o[0] in ("c", "m"):
            return self.read(s, self.resolve(s, F, o[1]))
        return self.const(o)

    def rvalue(self, s, F, r, fn):
        k = r[0]
        if k == "use":
            return self.operand(s, F, r[1])
        if k == "ref":
            cur = self.resolve(s, F, r[2])
            if cur[0] == "L":
                return N("ref", cur[1], cur[2], cur[3])
            return cur[1]
        if k in ("bin", "cbin"):
            a, b = self.operand(s, F, r[2]), self.operand(s, F, r[3])
            v = self.binop(r[1], a, b, r[4] if len(r) > 4 else None)
            if k == "cbin":
                return N("tup", v, FALSE)
            return v
        if k == "un":
            a = self.operand(s, F, r[2])
            if r[1] == "Not":
                if a.op in ("int",) and a.a[0] not in (0, 1):
                    return app("bitnot", a)
                return mk_not(a)
            if r[1] == "PtrMetadata":
                return self.mk_len(self.deep(s, a))
            return app(r[1].lower(), a)
        if k == "cast":
            a = self.operand(s, F, r[2])
            kind, ty = r[1], r[3]
            src = r[5] if len(r) > 5 else None
            if kind == "IntToInt":
                return self.cast(a, ty, src)
            if kind == "BoxDerefTransmute" or kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype"):
                if "Unsize" in kind and src:
                    self.modelsmod.models_more.learn(self, self.deep(s, a), src)
                return a
            return app("cast_" + kind + "_" + str(ty), a)
        if k == "discr":
            v = self.read(s, self.resolve(s, F, r[1]))
            return self.discr(v, r[2])
        if k == "len":
            return self.mk_len(self.read(s, self.resolve(s, F, r[1])))
        if k == "repeat":
            n = r[2]
            x = self.operand(s, F, r[1])
            if isinstance(n, int) and n <= 64:
                return N("arr", *([x] * n))
            return N("repeat", x, Int(n) if isinstance(n, int) else N("const", str(n)))
        if k == "agg":
            h = r[1]
            ops = [self.operand(s, F, o) for o in r[2]]
            if h[0] == "adt":
                return N("adt", h[1], h[2], *ops)
            if h[0] == "tuple":
                return N("tup", *ops)
            if h[0] == "array":
                return N("arr", *ops)
            if h[0] == "closure":
                return N("closure", h[1], h[2], *ops)
        raise AnalysisError("rvalue %r" % (r[0],))

    def discr(self, v, adt):
        if v.op == "adt":
            a = self.p.adts.get(v.a[0])
            if a and v.a[1] in a["todiscr"]:
                return Int(a["todiscr"][v.a[1]])
        return N("discr", v, adt)

    def cast(self, a, ty, src):
        if a.op == "int":
            return Int(wrap(a.a[0], ty))
        if a.op == "discr" or src == "bool":
            return a
        bs, bd = INTBITS.get(src), INTBITS.get(ty)
        if bs is None or bd is None:
            return app("cast_" + str(ty), a)
        ss, sd = src[0] == "i", ty[0] == "i"
        if ss == sd and bd >= bs or (not ss and sd and bd > bs):
            if not ss and a.op in LEAVES:
                self.width[a] = min(bs, self.width.get(a, bs))
            return a
        if ss != sd and bd >= bs:
            return app("cast_" + ty, a)
        if self.width.get(a, 128) <= bd and not sd:
            # widened before, and now narrowed again
            return a
        return app("trunc_" + ty, a)

    def binop(self, op, a, b, ty):
        sg = bool(ty) and ty[0] == "i" and ty in INTBITS
        if op == "Eq":
            return self.eq_discr(a, b)
        if op == "Ne":
            return mk_not(self.eq_discr(a, b))
        if op == "Lt":
            return mk_lt(a, b, sg)
        if op == "Gt":
            return mk_lt(b, a, sg)
        if op == "Le":
            return mk_not(mk_lt(b, a, sg))
        if op == "Ge":
            return mk_not(mk_lt(a, b, sg))
        return mk_bin(op.lower().replace("unchecked", "").replace("withoverflow", ""), a, b, ty)

    def eq_discr(self, a, b):
        if a.op == "discr" and b.op == "int":
            ad = self.p.adts.get(a.a[1])
            if ad and str(b.a[0]) in ad["bydiscr"]:
                return mk_is(a.a[0], ad["bydiscr"][str(b.a[0])])
        if b.op == "discr" and a.op == "int":
            return self.eq_discr(b, a)
        return mk_eq(a, b)

    def mk_len(self, v):
        if v.op == "arr":
            return Int(len(v.a))
        if v.op == "bytes":
            return Int(len(v.a[0]) // 2)
        if v.op == "str":
            return Int(len(v.a[0].encode()))
        if v.op == "repeat":
            return v.a[1]
        if v.op == "upd" and v.a[1][0] == "i":
            return self.mk_len(v.a[0])
        if v.op == "slice":
            return mk_bin("sub", v.a[2], v.a[1], "usize")
        if v.op == "ser" and v.a[1].op == "int":
            return v.a[1]
        n = self.lens.get(v)
        if n is not None:
            return n
        return app("len", v)

    # -- running
    def run_entry(self, fn, args=None, state=None):
        """returns list of (State, retval)"""
        s = state.copy() if state else State()
        if args is None:
            names = {}
            for d in fn["dbg"]:
                if not d[1][1] and d[2] is not None or (not d[1][1] and 1 <= d[1][0] <= fn["nargs"]):
                    names[d[1][0]] = d[0]
            args = [N("sym", names.get(i, "arg%d" % i)) for i in range(1, fn["nargs"] + 1)]
        self.top_results = None
        return self.exec_fn(s, fn, args, self.frame("entry", fn["id"]))

    def exec_fn(self, s, fn, args, F):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth -= 1
            raise AnalysisError("inlining too deep at " + fn["inst"])
        try:
            self.inlined.add(fn["inst"])
            self.frame_fn[F] = fn
            if fn.get("spread"):
                k = fn["spread"]
                t = args[k - 1:]
                if not (len(t) == 1 and t[0].op == "tup"):
                    args = list(args[:k - 1]) + [N("tup", *t)]
            if len(args) != fn["nargs"]:
                raise AnalysisError("arity %s: %d vs %d" % (fn["inst"], len(args), fn["nargs"]))
            s = s.copy()
            ev0 = s.ev
            for i, a in enumerate(args):
                s.st[("l", F, i + 1)] = a
            cfg = self.cfg(fn)
            exits, backs, rets = self.region(cfg, F, set(cfg.rpo), None, 0, [s])
            out = []
            for r in rets:
                v = r.st.get(("l", F, 0), UNIT)
                if has_ref(v):
                    # references into the dying frame are replaced by the values they name
                    v = self.unref(r, v, F)
                for k in [k for k in r.st if k[0] == "l" and k[1] == F]:
                    del r.st[k]
                r.st[("ret",)] = v
                if v.op == "adt" and v.a[1] == "Err" and v.a[0].endswith("result::Result") and r.ev is not ev0:
                    effs = [e for e in evlist(r.ev, ev0) if has_effect(e)]
                    if effs and not any(e.a[0] == "failed" for e in effs):
                        r.emit("failed", fn["name"], v.a[2])
                out.append(r)
            out = merge(out, ('ret',))
            res = []
            for r in out:
                v = r.st.pop(("ret",))
                res.append((r, v))
            return res
        finally:
            self.depth -= 1

    def unref(self, s, v, F):
        if v.op == "ref":
            if v.a[0] != F:
                return v
            return self.unref(s, self.read(s, ("L", v.a[0], v.a[1], v.a[2])), F)
        if not has_ref(v):
            return v
        return N(v.op, *[self.unref(s, x, F) if isinstance(x, Node) else x for x in v.a])

    def region(self, cfg, F, allowed, header, entry, states):
        """run the blocks of one loop body (or the whole function); returns exits, backs, rets"""
        pend = {entry: list(states)}
        heap = [(cfg.rpo[entry], entry)]
        exits, backs, rets = [], [], []
        first = True

        def route(t, st):
            if t == header:
                backs.append(st)
            elif t in allowed:
                if t not in pend:
                    pend[t] = []
                    heapq.heappush(heap, (cfg.rpo[t], t))
                pend[t].append(st)
            else:
                exits.append((t, st))

        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b)
            if len(sts) > 1 or first is False:
                live = cfg.live[b]
                for st in sts:
                    dead = [k for k in st.st if k[0] == "l" and k[1] == F and k[2] not in live and k[2] not in cfg.addr]
                    for k in dead:
                        del st.st[k]
                sts = merge(sts, ('l', F, 0))
                if self.opts.get("ite") and len(sts) > 1:
                    sts = join_values(sts)
            first = False
            self.stats["states"] = max(self.stats["states"], len(sts))
            if len(sts) > 4000:
                raise AnalysisError("too many path states in " + cfg.fn["inst"])
            for st in sts:
                if b in cfg.loops and b != header:
                    for (t, x) in self.run_loop(cfg, F, b, st, rets):
                        route(t, x)
                else:
                    for (t, x) in self.step(cfg, F, b, st):
                        if t == "ret":
                            rets.append(x)
                        else:
                            route(t, x)
        return exits, backs, rets

    # -- loops
    def run_loop(self, cfg, F, h, s, rets):
        self.stats["loops"] += 1
        body = cfg.loops[h]
        it = self.concrete_iter(cfg, F, body, s)
        if it is not None or self.unroll_all:
            few = False
            if it is not None:
                few = self.modelsmod.iter_len(self, it.a[0]).a[0] - it.a[1].a[0] <= 8
            r = self.unrolled(cfg, F, h, body, s, rets, few)
            if r is not None:
                return r
        key = self.loopkey(cfg, F, h)
        phis = {}
        live = cfg.live[h]
        s = s.copy()
        for k in [k for k in s.st if k[0] == "l" and k[1] == F and k[2] not in live and k[2] not in cfg.addr]:
            del s.st[k]
        hdr = s
        for rnd in range(12):
            e, backs, r = self.region(cfg, F, body, h, h, [hdr.copy()])
            new = dict(hdr.st)
            changed = False
            for b in backs:
                for k, v0 in list(new.items()):
                    v1 = b.st.get(k)
                    if v1 is None:
                        if k[0] == "l" and (k[1] != F or k[2] in cfg.addr or k[2] in live):
                            if k[1] == F and k[2] not in live:
                                continue
                        continue
                    if v1 is not v0:
                        j = self.join(v0, v1, key, k, ())
                        if j is not v0:
                            new[k] = j
                            changed = True
                for k, v1 in b.st.items():
                    if k not in new and k[0] in ("o", "g", "e"):
                        base = self.initial(k)
                        if base is not v1:
                            new[k] = self.join(base, v1, key, k, ())
                            changed = True
            if not changed:
                break
            hdr = State(new, s.facts, s.ev)
        else:
            raise AnalysisError("loop does not stabilise in " + cfg.fn["inst"])
        self.note_induction(key, hdr, backs)
        self.loops.setdefault(key, []).append((hdr, backs, [t for t, _ in e], len(r)))
        # effects and facts of a completed iteration
        common = None
        alts = []
        for b in backs:
            f = b.facts - s.facts
            common = f if common is None else common & f
            evs = N("evs", *evlist(b.ev, hdr.ev))
            if evs not in alts:
                alts.append(evs)
        forall = None
        if common:
            forall = N("forall", key, *sorted((fact_node(x) for x in common), key=lambda n: n.id))
        loopev = None
        if any(a.a for a in alts):
            loopev = N("ev", "loop", key, *alts)
        out = []
        for (t, x) in e:
            out.append((t, self.splice(x, hdr, loopev, forall)))
        for x in r:
            rets.append(self.splice(x, hdr, loopev, forall))
        return out

    def unrolled(self, cfg, F, h, body, s, rets, few=False):
        """run the loop iteration by iteration when its control flow is decided by constants"""
        cur = [s.copy()]
        out, rr = [], []
        leaving = 0
        for n in range(self.UNROLL + 2):
            nxt = []
            m = len(out)
            for st in cur:
                e, b, r = self.region(cfg, F, body, h, h, [st])
                out += e
                rr += r
                nxt += b
            # a loop that may be left at any iteration has an unknown number of them
            leaving += len(out) > m
            if leaving > self.opts.get("unroll_exits", 1000) and nxt and not few:
                return None
            live = cfg.live[h]
            for st in nxt:
                for k in [k for k in st.st if k[0] == "l" and k[1] == F and k[2] not in live and k[2] not in cfg.addr]:
                    del st.st[k]
            cur = merge(nxt)
            if self.opts.get("loop_join"):
                cur = self.opts["loop_join"](self, cur)
            if not cur:
                rets.extend(rr)
                return out
            if len(cur) > self.opts.get("unroll_max", 64):
                return None
        return None

    def note_induction(self, key, hdr, backs):
        """record the phis of this loop that every iteration advances by one constant"""
        def scan(hv, bvs):
            if hv.op == "phi" and hv.a[0] == key:
                step = None
                for b in bvs:
                    c = None
                    if b is hv:
                        c = 0
                    elif b.op == "app" and b.a[0] == "add" and hv in b.a[1:]:
                        o = b.a[2] if b.a[1] is hv else b.a[1]
                        if o.op == "int":
                            c = o.a[0]
                    if c is None or (step is not None and c != step):
                        step = "?"
                        break
                    step = c
                if step not in (None, "?"):
                    self.induct[hv] = step
                else:
                    self.induct.pop(hv, None)
            elif hv.op in ("tup", "adt", "arr"):
                for i, x in enumerate(hv.a):
                    if isinstance(x, Node):
                        if all(b.op == hv.op and len(b.a) == len(hv.a) for b in bvs):
                            scan(x, [b.a[i] for b in bvs])
        if not backs:
            return
        for k, v in hdr.st.items():
            bv = [b.st.get(k) for b in backs]
            if all(x is not None for x in bv):
                scan(v, bv)

    def splice(self, x, hdr, loopev, forall):
        tail = evlist(x.ev, hdr.ev)
        ev = hdr.ev
        if loopev is not None:
            ev = N("evc", ev, loopev)
        for t in tail:
            ev = N("evc", ev, t)
        x.ev = ev
        if forall is not None:
            x.facts = x.facts | {(forall, True)}
        return x

    def loopkey(self, cfg, F, h):
        return "L%d.%d" % (F, h)

    def initial(self, k):
        if k[0] == "o":
            return k[1]
        if k[0] == "g":
            return N("get", k[1], k[2])
        if k[0] == "e":
            return Int(0)
        return N("uninit")

    def join(self, a, b, key, place, path):
        if a is b:
            return a
        if a.op == "phi" and a.a[0] == key and a.a[1] == place and a.a[2] == path:
            return a
        if a.op == "iter" and b.op == "iter":
            if a.a[1].op == "lv" and a.a[1].a[0] == key:
                return a
            if a.a[0] is b.a[0]:
                return N("iter", a.a[0], N("lv", key))
        if a.op == b.op and a.op in ("adt", "tup", "arr", "closure") and len(a.a) == len(b.a):
            if all(x is y for x, y in zip(a.a, b.a) if not isinstance(x, Node)) or \
               all(x == y for x, y in zip(a.a, b.a) if not isinstance(x, Node)):
                return N(a.op, *[self.join(x, y, key, place, path + (i,)) if isinstance(x, Node) else x
                                 for i, (x, y) in enumerate(zip(a.a, b.a))])
        # widen containers that grow
        return N("phi", key, place, path, a)

    def concrete_iter(self, cfg, F, body, s):

        for b in body:
            t = cfg.blocks[b]["t"]
            if t[0] != "call" or t[1][0] != "fn" or t[1][1] != "std::iter::Iterator::next":
                continue
            a = t[2][0]
            if a[0] not in ("c", "m"):
                continue
            loc = a[1][0]
            for st in cfg.blocks[b]["s"]:
                if st[0] == "=" and st[1] == [loc, []] and st[2][0] == "ref":
                    src = st[2][2]
                    # follow a reborrow chain inside the block
                    if src[1] == ["*"]:
                        for s2 in cfg.blocks[b]["s"]:
                            if s2[0] == "=" and s2[1] == [src[0], []] and s2[2][0] == "ref":
                                src = s2[2][2]
                    try:
                        v = self.read(s, self.resolve(s, F, src))
                    except AnalysisError:
                        continue
                    if v.op == "iter" and v.a[1].op == "int":
                        n = self.modelsmod.iter_len(self, v.a[0])
                        if n is not None and n.op == "int" and n.a[0] - v.a[1].a[0] <= self.UNROLL:
                            return v
        return None

    # -- one basic block
    def step(self, cfg, F, b, s):
        self.stats["blocks"] += 1
        blk = cfg.blocks[b]
        fn = cfg.fn
        for st in blk["s"]:
            if st[0] == "=":
                v = self.rvalue(s, F, st[2], fn)
                self.write(s, self.resolve(s, F, st[1]), v)
            elif st[0] == "sd":
                a = self.p.adts.get(st[3]) if len(st) > 3 else None
                raise AnalysisError("set-discriminant statement in " + fn["inst"])
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "ret":
            return [("ret", s)]
        if k == "drop":
            return [(t[2], s)]
        if k in ("unreachable", "resume"):
            return []
        if k == "assert":
            c = self.operand(s, F, t[1])
            exp = t[2]
            tgt = t[3] if isinstance(t[3], int) else t[4]
            if not assume(s, c, bool(exp)):
                return []
            return [(tgt, s)]
        if k == "switch":
            return self.switch(s, F, t)
        if k == "call":
            res = self.call(s, F, t, b, fn)
            if t[4] is None:
                return []
            out = []
            for (x, v) in res:
                self.write(x, self.resolve(x, F, t[3]), v)
                out.append((t[4], x))
            return out
        raise AnalysisError("terminator " + k)

    def switch(self, s, F, t):
        v = self.operand(s, F, t[1])
        tg, other, ty = t[2], t[3], t[4]
        out = []
        if v.op == "int":
            for val, bb in tg:
                if wrap(int(val), ty) == wrap(v.a[0], ty):
                    return [(bb, s)]
            return [(other, s)] if other is not None else []
        if v.op == "discr":
            ad = self.p.adts.get(v.a[1])
            names = {}
            if ad:
                names = ad["bydiscr"]
            conds = []
            for val, bb in tg:
                nm = names.get(str(int(val)))
                conds.append((mk_is(v.a[0], nm) if nm else mk_eq(v, Int(int(val))), bb))
            rest = None
            if ad:
                used = {names.get(str(int(val))) for val, _ in tg}
                left = [x for x in (w[0] for w in ad["variants"]) if x not in used]
                if len(left) == 1:
                    rest = mk_is(v.a[0], left[0])
                elif not left:
                    other = None
        elif ty == "bool":
            conds = []
            for val, bb in tg:
                conds.append((v if int(val) else mk_not(v), bb))
            rest = None
        else:
            conds = [(mk_eq(v, Int(wrap(int(val), ty))), bb) for val, bb in tg]
            rest = None
        for c, bb in conds:
            x = s.copy()
            if assume(x, c, True):
                out.append((bb, x))
        if other is not None:
            x = s.copy()
            ok = True
            if rest is not None:
                ok = assume(x, rest, True)
            if ok:
                for c, bb in conds:
                    if not assume(x, c, False):
                        ok = False
                        break
            if ok:
                out.append((other, x))
        return out

    # -- calls
    def call(self, s, F, t, b, fn):
        self.stats["calls"] += 1
        f = t[1]
        args = [self.operand(s, F, a) for a in t[2]]
        site = "%s" % (t[5] if len(t) > 5 else "")
        if f[0] == "k":
            f = f[1]
        if f[0] != "fn":
            v = self.operand(s, F, f)
            return self.call_value(s, v, args, (F, b), site)
        name, gargs, fid, res = f[1], f[2], f[3], f[4]
        tys = []
        for a in t[2]:
            ty = ""
            if a[0] in ("c", "m") and not a[1][1]:
                ty = fn["locals"][a[1][0]]
            tys.append(ty)
        c = Call(self, F, b, fn, name, gargs, fid, res, args, tys, site, t[6] if len(t) > 6 else "")
        return self.dispatch(s, c)

    def dispatch(self, s, c):
        if self.intercept is not None:
            r = self.intercept(self, s, c)
            if r is not None:
                return r
        m = self.models.get(c.name)
        if m is not None:
            r = m(self, s, c)
            if r is not None:
                return r
        if c.fid is not None:
            fn = self.p.fns[c.fid]
            m = self.models.get(fn["name"])
            if m is not None and fn["name"] != c.name:
                r = m(self, s, c)
                if r is not None:
                    return r
            h = self.hook(fn)
            if h is not None:
                r = h(self, s, c)
                if r is not None:
                    return r
            if self.is_pure(fn["inst"]):
                return [(s, N("app", fn["name"], *[self.deep(s, a) for a in c.args]))]
            acc = self.accessor(fn) if self.use_accessors else None
            if acc:
                return self.do_accessor(s, c, acc)
            nm = fn["inst"]
            if any(w.search(nm) for w in self.watch):
                s = s.copy()
                s.emit("call", fn["name"], N("args", *[self.deep(s, a) for a in c.args]), c.site, c.fn["inst"])
            if not self.is_opaque(nm):
                return self.exec_fn(s, fn, c.args, self.frame(c.F, c.b, fn["id"]))
            return self.opaque_call(s, c, fn["name"], [fn["locals"][i + 1] for i in range(fn["nargs"])], True)
        self.unknown_calls[c.name] = self.unknown_calls.get(c.name, 0) + 1
        return self.opaque_call(s, c, c.res or c.name, c.tys, False)

    def opaque_call(self, s, c, name, tys, effect):
        s = s.copy()
        dargs = [self.deep(s, a) for a in c.args]
        muts = [i for i, ty in enumerate(tys) if ty.startswith("&mut") or ty.startswith("&'a mut") or ty.startswith("*mut")]
        # the receiver's version is part of the call's identity
        node = N("app", name, *dargs)
        vers = []
        for d in dargs:
            e = s.st.get(("e", d))
            if e is not None:
                vers.append(N("ver", e))
        if vers:
            node = N("app", name, *(dargs + vers))
        if effect or muts:
            s.emit("call", name, N("args", *dargs), c.site, c.fn["inst"], node)
        for i in muts:
            self.havoc(s, c.args[i], N("out", node, i))
        return [(s, node)]

    def havoc(self, s, v, val):
        """v is a &mut handed to unknown code"""
        if v.op == "ref":
            cur = ("L", v.a[0], v.a[1], v.a[2])
            old = self.read(s, cur)
            if old.op == "view" or old.op in ("ref",):
                self.havoc(s, old, val)
            elif old.op == "adt" and has_view(old):
                for x in old.a[2:]:
                    self.havoc(s, x, val)
            elif old.op == "iter":
                pass
            else:
                self.write(s, cur, val)
            return
        if v.op in ("view", "fld", "idx", "app", "sym", "as"):
            root = v
            while root.op in ("fld", "idx", "as") and root.op != "view":
                root = root.a[0]
            for k in [k for k in s.st if (k[0] == "g" and k[2] is root) or (k[0] == "o" and (k[1] is v or self._under(k[1], v)))]:
                del s.st[k]
            e = s.st.get(("e", root), Int(0))
            s.st[("e", root)] = Int(e.a[0] + 1) if e.op == "int" else app("succ", e)

    # -- account field cells
    def do_accessor(self, s, c, acc):
        kind, T, f = acc
        key = T + "." + f
        view = self.deep(s, c.args[0])
        cell = ("g", key, view)
        base = s.st.get(cell)
        if base is None:
            e = s.st.get(("e", view))
            base = N("get", key, view) if e is None else N("get", key, view, e)
        rest = c.args[1:]
        if kind == "get":
            if not rest:
                return [(s, base)]
            return [(s, mk_idx(base, self.deep(s, rest[0])))]
        s = s.copy()
        val = self.deep(s, rest[-1])
        if len(rest) == 2:
            i = self.deep(s, rest[0])
            s.st[cell] = update(base, (("i", i),), val)
            s.emit("set", key, view, i, val, c.site, c.fn["inst"])
        else:
            s.st[cell] = val
            s.emit("set", key, view, N("whole"), val, c.site, c.fn["inst"])
        return [(s, UNIT)]

    # -- closures and function values
    def call_value(self, s, f, args, ctx, site=""):
        if f.op == "ref":
            f = self.deref(s, f)
        if f.op == "closure":
            fn = self.p.fns.get(f.a[1])
            if fn is None:
                return [(s, N("app", "closure", f, *args))]
            if fn["nargs"] == len(args) + 1:
                return self.exec_fn(s, fn, [f] + list(args), self.frame(ctx, fn["id"]))
            if fn["nargs"] == 2 and len(args) != 1:
                return self.exec_fn(s, fn, [f, N("tup", *args)], self.frame(ctx, fn["id"]))
            raise AnalysisError("closure arity " + fn["inst"])
        if f.op == "fnptr":
            c = Call(self, ctx[0] if isinstance(ctx[0], int) else 0, ctx, {"inst": "fnptr", "locals": []}, f.a[0], [], f.a[1], f.a[2], list(args), ["" for _ in args], site, "")
            return self.dispatch(s, c)
        return [(s, N("app", "callval", f, *[self.deep(s, a) for a in args]))]


def has_effect(e):
    k = e.a[0]
    if k in ("set", "write", "invoke", "copy_into", "failed", "set_children", "call"):
        return True
    if k == "loop":
        return any(has_effect(x) for alt in e.a[2:] for x in alt.a)
    return False


def has_view(n):
    return any(isinstance(x, Node) and (x.op in ("view", "ref") or (x.op == "adt" and has_view(x))) for x in n.a)


def fact_node(f):
    return f[0] if f[1] else N("not", f[0])


class Call:
    __slots__ = ("E", "F", "b", "fn", "name", "gargs", "fid", "res", "args", "tys", "site", "dty")

    def __init__(self, E, F, b, fn, name, gargs, fid, res, args, tys, site, dty):
        self.E, self.F, self.b, self.fn = E, F, b, fn
        self.name, self.gargs, self.fid, self.res = name, gargs, fid, res
        self.args, self.tys, self.site, self.dty = args, tys, site, dty
