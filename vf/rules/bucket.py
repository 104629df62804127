"""N02: one bucket of the spent set - a sorted linked list in arrays, searched through pointers into its middle."""
from .lib import *
from .. import proj, models
from ..engine import update, known
from ..norm import Norm

MAP = "elusiv::map::ElusivMap::<'a, K, V, CAPACITY>::"
SELF = N("sym", "map")
FULL = 1 << 16
MIDS = 15
PTR, PTR0 = "elusiv::map::ElusivMapPtr", None
ZERO = N("adt", PTR, PTR0, Int(0))
INST = ", (), 65536>"
CELLS = ("len", "min_ptr", "max_ptr", "mid_ptr", "next", "prev", "keys", "values")


def get(f):
    return N("get", "map." + f, SELF)


LEN, MIN, MAX = get("len"), get("min_ptr"), get("max_ptr")


def container(E, s, c, m):
    """the arrays and single values of a bucket, by the field they stand in"""
    d = E.deep(s, c.args[0])
    if d.op != "fld" or d.a[0] is not SELF:
        return None
    f = "map." + str(d.a[1])
    cell = ("g", f, SELF)
    base = s.st.get(cell) or N("get", f, SELF)
    rest = [E.deep(s, x) for x in c.args[1:]]
    if m.group(2) == "get":
        return [(s, mk_idx(base, rest[0]) if rest else base)]
    s = s.copy()
    if len(rest) == 2:
        s.st[cell] = update(base, (("i", rest[0]),), rest[1])
        s.emit("set", f, SELF, rest[0], rest[1], c.site, c.fn["inst"])
    else:
        s.st[cell] = rest[0]
        s.emit("set", f, SELF, N("whole"), rest[0], c.site, c.fn["inst"])
    return [(s, UNIT)]


def walked(E, s, c, m):
    """get_ptr(base, position of base, distance): the node at that position (its own obligation is decided separately)"""
    a = [E.deep(s, x) for x in c.args[1:]]
    return [(s, N("at", *a))]


def key_order(E, s, c, m):
    return models.three_way(E, s, E.deep(s, c.args[0]), E.deep(s, c.args[1]))


def called(what):
    def f(E, s, c, m):
        s = s.copy()
        node = N("app", what, *[E.deep(s, x) for x in c.args[1:]])
        s.emit("call", what, N("args", *node.a[1:]), c.site, c.fn["inst"], node)
        return [(s, node)]
    return f


HOOKS = {
    "cells": (r"^elusiv::types::(Lazy|LazyArray|JITArray)::<.*>::(get|set)$", container),
    "order": (r"^<elusiv::types::OrdU256 as std::cmp::Ord>::cmp$", key_order),
    "get_ptr": (r"ElusivMap::<.*>::get_ptr$", walked),
    "binary_search": (r"ElusivMap::<.*>::binary_search$", called("binary_search")),
    "insert_at": (r"ElusivMap::<.*>::insert_at$", called("insert_at")),
}


class Run:
    """exits of one function of the bucket"""

    def __init__(self, W, name, args, hooks=("cells", "order", "get_ptr"), cells=None, facts=(), inst=INST, **opts):
        self.W, self.name, self.full = W, name, MAP + name
        fns = [f for f in W.P.fns.values() if f["name"] == self.full and inst in f["inst"]]
        if len(fns) != 1:
            raise AnalysisError("function not found: %s" % self.full)
        self.fn = fns[0]
        self.E = E = proj.engine(W.P, opaque=[], opts=opts)
        E.hooks = [(re.compile(HOOKS[h][0]), HOOKS[h][1]) for h in hooks] + list(E.hooks)
        st = State({("g", "map." + f, SELF): v for f, v in (cells or {}).items()}, frozenset(facts))
        self.paths = [Path(self, s, E.deep(s, v)) for s, v in E.run_entry(self.fn, [SELF] + list(args), st)]

    def loc(self):
        return "%s (%s)" % (self.full, self.fn["span"])


NORM = Norm()


def num(x):
    return poly_dict(NORM(x))


def less(facts, a, b, slack=0):
    """a + slack < b follows from one recorded comparison"""
    goal = padd(num(b), num(a), -1)
    goal = padd(goal, {(): slack} if slack else {}, -1)
    if set(goal) <= {()}:
        return goal.get((), 0) >= 1
    for f, pol in facts:
        q = None
        if f.op == "lt":
            q, lo = (padd(num(f.a[1]), num(f.a[0]), -1), 1) if pol else (padd(num(f.a[0]), num(f.a[1]), -1), 0)
        elif f.op == "eq" and pol:
            q, lo = padd(num(f.a[1]), num(f.a[0]), -1), 0
        elif f.op == "eq" and not pol:
            # a natural number other than 0 is at least 1
            o = [x for x in f.a if x is not Int(0)]
            if len(o) == 1:
                q, lo = num(o[0]), 1
        if q is None:
            continue
        for k in ((1, -1) if f.op == "eq" and pol else (1,)):
            d = padd(goal, q, -k)
            if set(d) <= {()} and d.get((), 0) + lo >= 1:
                return True
    return False


def equal(facts, a, b):
    a, b = settle(facts, a), settle(facts, b)
    d = padd(num(a), num(b), -1)
    if not d:
        return True
    for f, pol in facts:
        if f.op == "eq" and pol:
            q = padd(num(f.a[0]), num(f.a[1]), -1)
            if q and (padd(d, q, -1) == {} or padd(d, q) == {}):
                return True
    return less(facts, a, b, -1) and less(facts, b, a, -1)


def settle(facts, n):
    """conditions the facts decide, as 0 or 1"""
    def f(x):
        if x.op == "not" and isinstance(x.a[0], Node):
            y = f(x.a[0])
            return None if y is None or y.op != "int" else Int(1 - y.a[0])
        if x.op in ("eq", "lt"):
            return Int(1) if (x, True) in facts else Int(0) if (x, False) in facts else None
        return None
    return rewrite(n, f) if any(x.op in ("eq", "lt") for x in walk(n)) else n


def rel(facts, x, y):
    """the possible orders of two keys"""
    r = {"<", "=", ">"}
    for f, pol in facts:
        if f.op not in ("eq", "lt"):
            continue
        a, b = f.a
        if f.op == "eq" and {a, b} == {x, y}:
            r &= {"="} if pol else {"<", ">"}
        elif f.op == "lt" and (a, b) == (x, y):
            r &= {"<"} if pol else {"=", ">"}
        elif f.op == "lt" and (a, b) == (y, x):
            r &= {">"} if pol else {"=", "<"}
    return r


def contradicted(p, extra=()):
    """the facts of the path exclude each other"""
    fs = p if isinstance(p, (set, frozenset, list)) else p.s.facts
    fs = set(fs) | set(extra)
    for f, pol in fs:
        g = NORM(f)
        if g.op == "int" and bool(g.a[0]) != pol:
            return True
        if (f, not pol) in fs:
            return True
        if f.op == "lt":
            a, b = f.a
            if pol and not less((), a, b) and (less(fs - {(f, pol)}, b, a, -1)):
                return True
            if not pol and less(fs - {(f, pol)}, a, b):
                return True
        if f.op == "eq" and pol:
            a, b = f.a
            r = fs - {(f, pol)}
            if less(r, a, b) or less(r, b, a):
                return True
        if f.op == "eq" and not pol and equal(fs - {(f, pol)}, *f.a):
            return True
    return False


def slot(n):
    """the pointer whose slot an array index names"""
    return n.a[0] if n.op == "fld" and n.a[1] == "0" else N("adt", PTR, PTR0, n)


def subst(n, m):
    return Norm({k: v for k, v in m.items()})(n) if m else n


def middle(k, n):
    """position of the k-th pointer into a list of n"""
    return NORM(N("app", "div", N("app", "mul", add(k, Int(1)), n), Int(MIDS + 1)))


class Places:
    """positions of the nodes that pointers name, before any change"""

    def __init__(self, run, facts, given=None):
        self.run, self.facts, self.given = run, facts, given or {}

    def of(self, n):
        if n in self.given:
            return self.given[n]
        if n is MIN:
            return Int(0)
        if n is MAX:
            return sub(LEN, Int(1))
        if n.op == "at":
            base = self.of(n.a[0])
            if base is not None and equal(self.facts, base, n.a[1]):
                return add(n.a[1], n.a[2])
            return None
        if n.op == "idx":
            a, i = n.a
            if a is get("mid_ptr") and i.op == "int" and 0 <= i.a[0] < MIDS:
                return middle(i, LEN)
            if a is get("next") or a is get("prev"):
                p = self.of(slot(i))
                return None if p is None else add(p, Int(1)) if a is get("next") else sub(p, Int(1))
            return None
        if n.op in ("phi", "fold"):
            w = self.walk(n)
            if w is None:
                return None
            start, steps = w
            p = self.of(start)
            # a number of steps that wraps below zero would be no walk
            if p is None or not (steps.op != "app" or steps.a[0] != "sub" or not less(self.facts, steps.a[1], steps.a[2])):
                return None
            if steps.op == "app" and steps.a[0] == "sub" and not less(self.facts, steps.a[2], steps.a[1], -1):
                return None
            return add(p, steps)
        return None

    def walk(self, n):
        """(first node, number of steps) when n is reached by following next pointers"""
        E = self.run.E
        if n.op == "fold":
            acc, back, count = E.folds.get(n, (None, None, None))
            if acc is None or count is None or not back or not all(pure for _, _, pure in back):
                return None
            return (acc.a[-1], count) if all(v is N("idx", get("next"), N("fld", acc, "0")) for v, _, _ in back) else None
        L = loop_of(E, n)
        if L is None:
            return None
        hdr, backs, exits, rets = L
        cell = next((k for k, v in hdr.st.items() if v is n), None)
        if cell is None or not backs or rets or len(set(exits)) != 1:
            return None
        if not all(b.st.get(cell) is N("idx", get("next"), N("fld", n, "0")) and b.ev is hdr.ev for b in backs):
            return None
        its = [v for v in hdr.st.values() if v.op == "iter" and v.a[1].op == "lv" and v.a[1].a[0] == n.a[0]]
        if len(its) == 1 and len(exits) == 1:
            count = models.iter_len(E, its[0].a[0])
            return None if count is None else (n.a[-1], count)
        for c, step in E.induct.items():
            if c.a[0] != n.a[0] or c is n:
                continue
            step = step.a[0] if isinstance(step, Node) else step
            # a counter of the walk: up to a bound from zero
            for f, pol in self.facts:
                if step == 1 and c.a[-1] is Int(0) and f.op == "lt" and not pol and f.a[0] is c and not any(x.op == "phi" for x in walk(f.a[1])):
                    return n.a[-1], f.a[1]
                if step == 1 and c.a[-1] is Int(0) and f.op == "eq" and pol and c in f.a:
                    o = f.a[0] if f.a[1] is c else f.a[1]
                    if not any(x.op == "phi" for x in walk(o)):
                        return n.a[-1], o
        return None


# --- walking
def loop_of(E, phi):
    """the entry into a loop at whose head this value stands"""
    return next((L for L in E.loops.get(phi.a[0], ()) if any(v is phi for v in L[0].st.values())), None)


def passed(ev, at):
    """the history ev goes on from the point at"""
    while ev.op == "evc" and ev is not at:
        ev = ev.a[0]
    return ev is at


def walk_job(W):
    def f(R):
        base, bo, off = N("sym", "base"), N("sym", "position of base"), N("sym", "distance")
        H = Run(W, "get_ptr", [base, bo, off], ("cells",), unroll_all=True, unroll_exits=1000)
        live = [p for p in H.paths if not contradicted(p)]
        R.need(len(live) >= 2, "walk", "get_ptr", "the walk has an end", H.loc(), "%d exits" % len(live))
        for p in live:
            R.count("walks")
            P = Places(H, p.s.facts, {base: bo})
            at = P.of(p.ret)
            R.need(at is not None and equal(p.s.facts, at, add(bo, off)), "walk", "get_ptr",
                   "a walk ends at the asked position", p.site(), "%s stands at %s; exit selected by: %s" % (nice(p.ret), nice(at) if at is not None else "no known position", p.describe()))
            R.need(not p.sets(), "walk", "get_ptr", "a walk changes nothing", p.site(), "")
        R.floor("walks", 20)
    return f


# --- searching
def search_job(W):
    def f(R):
        k = N("sym", "key")
        H = Run(W, "binary_search", [k])
        w = "binary_search"
        keyat = lambda ptr: N("idx", get("keys"), N("fld", ptr, "0"))
        live = [p for p in H.paths if not contradicted(p)]
        for p in live:
            R.count("searches")
            F = p.s.facts
            R.need(not p.sets(), "search", w, "a search changes nothing", p.site(), "")
            if p.ret.op != "adt" or p.ret.a[1] not in ("Ok", "Err"):
                R.need(False, "search", w, "a search says where a key belongs or why not", p.site(), nice(p.ret))
                continue
            v = p.ret.a[2]
            if p.ret.a[1] == "Err":
                if v.op == "adt" and v.a[1] == "KeyTooLarge":
                    R.need(rel(F, k, keyat(MAX)) == {">"} and equal(F, LEN, Int(FULL)), "search", w,
                           "a key is refused as too large only by a full bucket whose largest key is smaller", p.site(), p.describe())
                    continue
                ptr = v.a[2].a[1].a[0] if v.op == "adt" and v.a[1] == "Duplicate" and v.a[2].op == "idx" and v.a[2].a[0] is get("values") and v.a[2].a[1].op == "fld" else None
                R.need(ptr is not None and rel(F, k, keyat(ptr)) == {"="} and not equal(F, LEN, Int(0)), "search", w,
                       "a key counts as present only when it was found, and its own value is returned", p.site(), "%s; %s" % (nice(v), p.describe()))
                continue
            loops = {x.a[0] for x in walk(v) if x.op == "phi"} | {x.a[0] for f_, pol in F for x in walk(f_) if x.op == "phi" and f_.op == "lt"}
            if not loops:
                ok = equal(F, LEN, Int(0)) and equal((), v, Int(0)) \
                    or rel(F, k, keyat(MIN)) == {"<"} and equal((), v, Int(0)) \
                    or rel(F, k, keyat(MAX)) == {">"} and equal((), v, LEN) and (LEN_FULL, False) in F
                R.need(ok, "search", w, "a key outside the stored range goes to its end", p.site(), "%s; %s" % (nice(v), p.describe()))
                continue
            bisect(R, W, H, p, k, v, keyat, w)
        R.floor("searches", 6)
        # whoever holds the key's place is asked
        R.need(any(p.ret.a[1] == "Err" for p in live), "search", w, "a present key is found", H.loc(), "")
    return f


LEN_FULL = mk_eq(LEN, Int(FULL))


def bisect(R, W, H, p, k, v, keyat, w):
    F = p.s.facts
    R.need(rel(F, k, keyat(MIN)) == {">"} and rel(F, k, keyat(MAX)) == {"<"}, "search", w, "the interval that is halved is known to hold the key's place", p.site(), p.describe())
    # the loop is left when low meets high
    cand = [(f_.a[0], f_.a[1]) for f_, pol in F if f_.op == "lt" and not pol and all(x.op == "phi" for x in f_.a)] + \
           [t for f_, pol in F if f_.op == "eq" and pol and all(x.op == "phi" for x in f_.a) for t in (tuple(f_.a), tuple(f_.a[::-1]))]
    cand = [(a, b) for a, b in cand if a.a[0] == b.a[0] and a.a[-1] is Int(0) and b.a[-1] is LEN]
    if not R.need(bool(cand), "search", w, "the search ends when the interval is empty", p.site(), p.describe()):
        return
    lo, hi = cand[0]
    hdr, backs, exits, rets = loop_of(H.E, lo)
    cells = {x: c for c, x in hdr.st.items() if x.op == "phi" and x.a[0] == lo.a[0]}
    nodes = [x for x in cells if x.a[-1] is MIN]
    R.count("halvings", len(backs))
    R.need(not any(b.ev is not hdr.ev and any(e.a[0] == "set" for e in evlist(b.ev, hdr.ev)) for b in backs), "search", w, "a search changes nothing", p.site(), "")
    lows = [x for x in nodes]
    for b in backs:
        bf = b.facts
        if contradicted(bf):
            continue
        new = lambda x: b.st.get(cells[x])
        ask = {n for f_, pol in bf for n in walk(f_) if n.op == "at"}
        if not R.need(len(ask) == 1, "search", w, "each round looks at one node", H.loc(), "%d" % len(ask)):
            continue
        m = ask.pop()
        base, bo, d = m.a
        R.need(base in lows and bo is lo or base is MIN and equal(bf, bo, Int(0)), "search", w, "each round starts from a node whose position it knows", H.loc(), nice(m))
        mid = add(bo, d)
        half = [add(lo, N("app", "div", sub(hi, lo), Int(2))), N("app", "div", add(lo, hi), Int(2))]
        R.need(any(equal(bf, mid, h) for h in half), "search", w, "the node looked at lies in the middle of the interval", H.loc(), nice(mid))
        r = rel(bf, k, keyat(m))
        if r == {"<"}:
            ok = equal(bf, new(hi), mid) and new(lo) is lo and all(new(x) is x for x in lows)
        elif r == {">"}:
            ok = equal(bf, new(lo), add(mid, Int(1))) and new(hi) is hi and all(new(x) is N("idx", get("next"), N("fld", m, "0")) for x in lows)
        else:
            ok = False
        R.need(ok, "search", w, "a round keeps the half that holds the key's place", H.loc(), "%s: low %s high %s" % (sorted(r), nice(new(lo)), nice(new(hi))))
        # the answer, if this was the last round
        sb = {x: b.st[c] for x, c in cells.items() if c in b.st}
        last = {(subst(f_, sb), pol) for f_, pol in F if any(x in cells for x in walk(f_))}
        out = False
        for f_, pol in last:
            if f_.op in ("lt", "eq") and any(y.op == "idx" and y.a[0] is get("keys") for y in f_.a):
                x, y = f_.a
                rr = rel(bf, x, y)
                possible = rr & (({"<"} if pol else {"=", ">"}) if f_.op == "lt" else ({"="} if pol else {"<", ">"}))
                out = out or not possible
        if out:
            continue
        ans = subst(v, sb)
        R.need(equal((), ans, new(lo)) or equal((), ans, new(hi)) or equal(bf, ans, new(lo)) or equal(bf, ans, new(hi)), "search", w,
               "the answer is where the interval closed", p.site(), "%s after a round with low %s high %s" % (nice(ans), nice(new(lo)), nice(new(hi))))


# --- inserting
def final_writes(p):
    """array writes of a path outside loops, as {(array, pointer): value}; single values"""
    arr, one, order = {}, {}, []
    for fld_, view, i, val, loops, fn, ev in p.sets():
        name = fld_.split(".")[-1]
        if loops:
            continue
        if i is None or i.op == "whole":
            one[name] = val
        else:
            arr[(name, slot(i))] = val
    return arr, one


def insert_job(W, case):
    def f(R):
        key_, value, index, n = N("sym", "key"), N("sym", "value"), N("sym", "index"), LEN
        full = case.startswith("full")
        kind = case.split()[1]
        cells = {"len": Int(FULL)} if full else {}
        facts = set()
        if full:
            facts |= set()
        else:
            facts |= {(mk_lt(n, Int(FULL)), True), (LEN_FULL, False)}
        size = Int(FULL) if full else n
        if kind == "empty":
            cells["len"] = size = Int(0)
            cells["max_ptr"] = ZERO
            cells["mid_ptr"] = N("arr", *[ZERO] * MIDS)
            facts = set()
            index = Int(0)
        elif kind == "first":
            index = Int(0)
            if not full:
                facts |= {(mk_eq(Int(0), n), False), (mk_lt(Int(0), n), True)}
        elif kind == "end":
            index = n
            facts |= {(mk_eq(Int(0), n), False), (mk_lt(Int(0), n), True)}
        elif kind == "last":
            index = Int(FULL - 1)
        elif kind == "inner":
            last = Int(FULL - 1) if full else n
            facts |= {(mk_eq(Int(0), index), False), (mk_lt(Int(0), index), True), (mk_lt(index, last), True), (mk_eq(index, last), False)}
            if not full:
                facts |= {(mk_eq(Int(0), n), False), (mk_lt(Int(0), n), True)}
            else:
                facts |= {(mk_lt(index, Int(FULL)), True), (mk_eq(index, Int(FULL)), False), (mk_eq(add(index, Int(1)), Int(FULL)), False)}
        H = Run(W, "insert_at", [key_, value, index], ("cells", "order", "get_ptr"), cells, facts)
        w = "insert_at, %s" % case
        live = [p for p in H.paths if not contradicted(p)]
        R.need(len(live) >= 1, "insert", w, "the insertion ends", H.loc(), "%d exits" % len(live))
        for p in live:
            R.count("insertions")
            arr, one = final_writes(p)
            at = p.site()
            slots = {x for (a, x) in arr if a == "keys"}
            if not R.need(len(slots) == 1, "insert", w, "the key is stored once", at, str([nice(x) for x in slots])):
                continue
            new = slots.pop()
            if full:
                R.need(new is MAX, "insert", w, "a full bucket stores the key in place of its largest", at, nice(new))
            else:
                i = new.a[-1] if new.op == "adt" else None
                R.need(i is not None and narrowing(p, i) is not None and equal((), narrowing(p, i), size), "insert", w, "the key is stored in the first unused place", at, nice(new))
            R.need(arr.get(("keys", new)) is key_ and arr.get(("values", new)) is value, "insert", w, "key and value are stored together", at, "")
            rest = {x: v for x, v in arr.items() if x[0] not in ("keys", "values", "mid_ptr")}
            P = Places(H, p.s.facts)
            want, ends = {}, {}
            if kind == "empty":
                ends["min_ptr"] = new
                # the only entry has no neighbours: links inside its own slot say nothing
                rest = {x: v for x, v in rest.items() if not (x[1] is new or x == ("prev", MIN))}
            elif kind == "first":
                want = {("next", new): MIN, ("prev", MIN): new}
                ends["min_ptr"] = new
            elif kind == "end":
                want = {("next", MAX): new, ("prev", new): MAX}
                ends["max_ptr"] = new
            elif kind == "inner":
                before = [x for (a, x) in rest if a == "next" and x is not new and x is not MAX]
                b = before[0] if before else None
                pos = P.of(b) if b is not None else None
                if not R.need(pos is not None and equal(p.s.facts, pos, sub(index, Int(1))), "insert", w, "the new entry follows the one before its place", at, nice(b) if b is not None else str(rest.keys())):
                    continue
                nx = N("idx", get("next"), N("fld", b, "0"))
                want = {("next", b): new, ("prev", new): b, ("next", new): nx, ("prev", nx): new}
            if full and kind in ("first", "inner"):
                ends["max_ptr"] = N("idx", get("prev"), N("fld", MAX, "0"))
            if kind == "last":
                # the order of the entries does not change
                bad = {x: v for x, v in rest.items() if not unchanged_link(P, x, v)}
                R.need(not bad, "insert", w, "the links of the others stay as they are", at, str([(a, nice(x), nice(v)) for (a, x), v in bad.items()]))
            else:
                got = {x: v for x, v in rest.items() if x in want or not unchanged_link(P, x, v)}
                R.need(got == want, "insert", w, "the new entry is linked between its neighbours, and nothing else changes", at,
                       "links %s" % sorted("%s[%s]=%s" % (a, nice(x), nice(v)) for (a, x), v in got.items()))
            for e, dflt in (("min_ptr", MIN), ("max_ptr", MAX)):
                have = one.get(e, dflt)
                R.need(have is ends.get(e, dflt) or kind == "empty" and e == "max_ptr" and have is new, "insert", w, "the ends of the list are kept (%s)" % e, at, nice(have))
            ln = one.get("len", size)
            R.need(equal(p.s.facts, ln, size if full else add(size, Int(1))), "insert", w, "the number of entries grows by one up to the capacity", at, nice(ln))
            r = p.ret
            inner = r.a[2] if r.op == "adt" and r.a[1] == "Ok" else None
            if full:
                gone = N("tup", N("idx", get("keys"), N("fld", MAX, "0")), N("idx", get("values"), N("fld", MAX, "0")))
                R.need(inner is not None and inner.op == "adt" and inner.a[1] == "Some" and inner.a[2] is gone, "insert", w, "a full bucket gives back its largest entry", at, nice(r))
            else:
                R.need(inner is not None and inner.op == "adt" and inner.a[1] == "None", "insert", w, "nothing is given back while there is room", at, nice(r))
            middles(R, H, p, w, kind, full, index, size, new)
    return f


def narrowing(p, i):
    """the number behind a conversion to a smaller type that succeeded"""
    for _ in range(4):
        if i.op == "fld" and i.a[1] == "0" and i.a[0].op == "as":
            i = i.a[0].a[0]
        elif i.op == "app" and len(i.a) == 2 and re.search(r"try_from|try_into|trunc_u16|cast", str(i.a[0])):
            i = i.a[1]
        else:
            break
    return i


def unchanged_link(P, x, v):
    """writing a link that is there already"""
    a, ptr = x
    if v is N("idx", get(a), N("fld", ptr, "0")):
        return True
    p, q = P.of(ptr), P.of(v)
    return a in ("next", "prev") and p is not None and q is not None and equal(P.facts, q, add(p, Int(1)) if a == "next" else sub(p, Int(1)))


def middles(R, H, p, w, kind, full, index, size, new):
    """after the insertion each pointer into the middle names the node at its position again"""
    loops = {}
    outside = [x for x in p.sets() if x[0].split(".")[-1] == "mid_ptr" and not x[4]]
    keys_ = set()
    for x in p.sets():
        if x[0].split(".")[-1] == "mid_ptr" and x[4]:
            keys_ |= set(l[0] if isinstance(l, tuple) else l for l in x[4])
    if kind == "last":
        # all positions stay; nothing may move, unless no iteration of the loop does
        pass
    if kind == "empty":
        # the only entry stands in the first place, which a cleared bucket has no predecessor for
        for x in p.sets():
            if x[0].split(".")[-1] == "mid_ptr":
                R.count("moves of a middle pointer")
                R.need(only_entry(x[3], new), "middle", w, "a pointer into the middle names the entry at its position", p.site(), nice(x[3]))
        return
    rounds = []
    if outside:
        last = {}
        for x in outside:
            if x[2] is None or x[2].op != "int" or x[2].a[0] in last:
                R.need(False, "middle", w, "a round changes its own pointer only", p.site(), nice(x[3]))
                return
            last[x[2].a[0]] = x[3]
        # written out round by round
        st = p.s.st
        nxt, prv = st.get(("g", "map.next", SELF), get("next")), st.get(("g", "map.prev", SELF), get("prev"))
        rounds = [(p.s.facts, Int(k), last.get(k), N("idx", get("mid_ptr"), Int(k)), nxt, prv) for k in range(MIDS)]
    else:
        ks = [k for k, l in H.E.loops.items() for L in l[-1:] if any(c == ("g", "map.mid_ptr", SELF) for b in L[1] for c in b.st)]
        ks = [k for k in ks if any(e.op == "ev" and e.a[0] == "loop" and e.a[1] == k for e in p.ev) and any(passed(p.s.ev, L[0].ev) for L in H.E.loops[k])]
        if kind == "last" and not ks:
            return
        if not R.need(len(ks) == 1, "middle", w, "the pointers into the middle follow", p.site(), "%d loops" % len(ks)):
            return
        hdr, backs, exits, rets = next(L for L in H.E.loops[ks[0]][::-1] if passed(p.s.ev, L[0].ev))
        R.need(len(exits) == 1 and not rets, "middle", w, "every pointer into the middle is updated", p.site(), "%d ways out" % (len(exits) + rets))
        its = [v for v in hdr.st.values() if v.op == "iter" and v.a[1].op == "lv" and v.a[1].a[0] == ks[0]]
        n = models.iter_len(H.E, its[0].a[0]) if len(its) == 1 else None
        R.need(n is Int(MIDS), "middle", w, "every pointer into the middle is updated", p.site(), nice(n) if n is not None else "no counted loop")
        base = hdr.st.get(("g", "map.mid_ptr", SELF))
        nxt, prv = hdr.st.get(("g", "map.next", SELF), get("next")), hdr.st.get(("g", "map.prev", SELF), get("prev"))
        R.need(hdr.st.get(("g", "map.len", SELF), LEN) is (size if size.op == "int" else LEN), "middle", w, "the pointers follow before the count does", p.site(), "")
        iv = N("ivar", ks[0], Int(0), Int(MIDS))
        for b in backs:
            bf = b.facts
            if contradicted(bf):
                continue
            ev = [e for e in evlist(b.ev, hdr.ev) if e.a[0] == "set"]
            if any(e.a[1] != "map.mid_ptr" or e.a[3] is not iv for e in ev) or len(ev) > 1:
                R.need(False, "middle", w, "a round changes its own pointer only", p.site(), str([nice(e) for e in ev]))
                continue
            rounds.append((bf, iv, ev[0].a[4] if ev else None, N("idx", base if base is not None else get("mid_ptr"), iv), nxt, prv))
        if not backs:
            R.need(False, "middle", w, "every pointer into the middle is updated", p.site(), "")
    for bf, iv, v, old, nxt, prv in rounds:
        bf = {(plain(bf, f_), pol) for f_, pol in bf}
        M = middle(iv, size)
        M1 = M if full else middle(iv, add(size, Int(1)))
        for a in (0, 1):                    # the new entry stands at or before the old position
            for g in ((0,) if full else (0, 1)):        # the position itself grows
                if kind == "first" and not a or kind in ("end", "last") and a:
                    continue
                ext = {(mk_lt(M, index), not a)}
                if M1 is not M:
                    ext |= {(mk_eq(M, M1), not g)}
                if any(NORM(c).op == "int" and bool(NORM(c).a[0]) != pol for c, pol in ext) or contradicted(bf, ext) or clash(bf, M, M1, index, a, g):
                    continue
                move = 0 if v is None or v is old else 1 if v is N("idx", nxt, N("fld", old, "0")) else -1 if v is N("idx", prv, N("fld", old, "0")) else None
                R.count("moves of a middle pointer")
                R.need(move is not None and a + move == g, "middle", w, "a pointer into the middle names the entry at its position", p.site(),
                       "the new entry stands %s it, its position %s, it moves by %s" % ("before" if a else "after", "grows" if g else "stays", move))


def plain(facts, n):
    """decided conditions and conversions of small counters taken away"""
    def f(x):
        if x.op == "app" and str(x.a[0]).startswith(("trunc_", "cast_")) and len(x.a) == 2 and x.a[1].op == "ivar" and x.a[1].a[2].op == "int":
            return x.a[1]
        if x is not n and x.op in ("not", "eq", "lt"):
            y = settle(facts, x)
            return y if y.op == "int" else None
        return None
    return NORM(rewrite(n, f))


def only_entry(v, new):
    if v is new or v is ZERO:
        return True
    if v.op == "idx" and only_entry(slot(v.a[1]), new):
        a = v.a[0]
        while a.op == "upd":
            if not only_entry(a.a[-1], new):
                return False
            a = a.a[0]
        return a is get("prev")
    return False


def clash(bf, M, M1, index, a, g):
    """the round's facts decide otherwise"""
    def says(c):
        for f_, pol in bf:
            q = NORM(f_)
            c_ = NORM(c)
            while c_.op == "not":
                c_, pol = c_.a[0], not pol
            if q is c_:
                return pol
        return None
    x = says(mk_lt(M, index))
    if x is not None and x == bool(a):
        return True
    x = says(mk_eq(M, M1)) if M is not M1 else None
    return x is not None and x == bool(g)


# --- the operations the spent set uses
def ops_job(W):
    def f(R):
        k, v = N("sym", "key"), N("sym", "value")
        BS = N("app", "binary_search", k)
        for name, args, val in (("try_insert", [k, v], v), ("try_insert_default", [k], UNIT)):
            H = Run(W, name, args, ("cells", "order", "binary_search", "insert_at"))
            seen = set()
            for p in H.paths:
                if contradicted(p):
                    continue
                R.count("operations")
                R.need(not p.sets(), "operation", name, "only the insertion writes", p.site(), "")
                ins = [e for e in p.ev if e.a[0] == "call" and e.a[1] == "insert_at"]
                idx_ = N("fld", N("as", BS, "Ok"), "0")
                okk = next((pol for f_, pol in p.s.facts if f_ is mk_is(BS, "Ok")), None)
                if okk is not False:
                    good = len(ins) == 1 and list(ins[0].a[2].a)[0] is k and same_unit(list(ins[0].a[2].a)[1], val) and list(ins[0].a[2].a)[2] is idx_ and p.ret is ins[0].a[5]
                    R.need(good, "operation", name, "a key is inserted where the search puts it", p.site(), nice(p.ret))
                    seen.add("in")
                    continue
                R.need(not ins, "operation", name, "a key the search refuses is not inserted", p.site(), "")
                err = N("fld", N("as", BS, "Err"), "0")
                large = next((pol for f_, pol in p.s.facts if f_.op == "is" and f_.a[0] is err and f_.a[1] == "KeyTooLarge"), None)
                r = p.ret
                if large:
                    seen.add("large")
                    want = r.op == "adt" and r.a[1] == "Ok" and r.a[2].op == "adt" and r.a[2].a[1] == "Some" and r.a[2].a[2].op == "tup" and r.a[2].a[2].a[0] is k
                    R.need(want, "operation", name, "a key too large for a full bucket is given back", p.site(), nice(r))
                else:
                    seen.add("dup")
                    R.need(r.op == "adt" and r.a[1] == "Err" and (r.a[2] is err or r.a[2].op == "adt" and r.a[2].a[1] == "Duplicate"), "operation", name, "a key that is present is refused", p.site(), nice(r))
            R.need({"in", "large", "dup"} <= seen, "operation", name, "each outcome of the search is handled", H.loc(), str(sorted(seen)))
        H = Run(W, "contains", [k], ("cells", "order", "binary_search"))
        err = N("fld", N("as", BS, "Err"), "0")
        for p in H.paths:
            if contradicted(p):
                continue
            R.count("operations")
            dup = (mk_is(err, "Duplicate"), True) in p.s.facts and (mk_is(BS, "Ok"), False) in p.s.facts
            r = p.ret
            some = r.op == "adt" and r.a[1] == "Some"
            R.need(r.op == "adt" and some == dup and (not some or r.a[2] is N("fld", N("as", err, "Duplicate"), "0")), "operation", "contains", "a key is reported as present exactly when the search finds it", p.site(), "%s; %s" % (nice(r), p.describe()))
            R.need(not p.sets(), "operation", "contains", "a query changes nothing", p.site(), "")
        for name, want in (("max", N("idx", get("keys"), N("fld", MAX, "0"))),):
            H = Run(W, name, [], ("cells",))
            R.need(len(H.paths) == 1 and H.paths[0].ret is want and not H.paths[0].sets(), "operation", name, "the largest key is the one at the end of the list", H.loc(), nice(H.paths[0].ret))
        H = Run(W, "reset", [], ("cells",), inst="", unroll_all=True, unroll_exits=1000)
        for p in H.paths:
            arr, one = final_writes(p)
            mids = {x[1].a[-1].a[0] for x, v_ in arr.items() if x[0] == "mid_ptr" and x[1].op == "adt" and x[1].a[-1].op == "int" and v_ is ZERO}
            R.need(one.get("len") is Int(0) and one.get("max_ptr") is ZERO, "operation", "reset", "a reset bucket is empty and its first place is its end", p.site(), "")
            R.need(arr.get(("prev", ZERO)) is ZERO, "operation", "reset", "the first place of a reset bucket has no predecessor", p.site(), "")
            R.need(mids >= set(range(MIDS)), "operation", "reset", "no pointer of a reset bucket keeps an old place", p.site(), "%d of %d" % (len(mids), MIDS))
        R.floor("operations", 8)
    return f


def same_unit(a, b):
    return a is b or b is UNIT and (a.op == "tup" and not a.a or a.op in ("app",) and "default" in str(a.a[0]))


CASES = ("room empty", "room first", "room inner", "room end", "full first", "full inner", "full last")


@prop("N02", ("elusiv",), "positions as an abstract domain over the bucket's pointers: search interval, walk, link effects and middle pointers in each of seven cases of an insertion")
def n02(R, W):
    """A bucket of the spent set is a list of entries in arrays, linked in order of their keys, with fifteen pointers into its
    middle. Pointers are interpreted by the position of the entry they name: the walk that shortcuts through the middle ends
    at the asked position on every exit; the halving keeps an interval that holds the key's place and answers where it
    closes; an insertion, in every combination of a full or not full bucket with an empty list, the first, an inner, the last
    place or the end, stores the key once in the right slot, changes exactly the links of its neighbours and the ends,
    gives back exactly the largest entry of a full bucket, and every pointer into the middle names the entry at its position
    of the longer list."""
    R.assumptions.append("one bucket holds 2^16 entries; the values kept with the keys are empty in every bucket of the program")
    parallel(R, [("walk", walk_job(W)), ("search", search_job(W)), ("operations", ops_job(W))] + [(c, insert_job(W, c)) for c in CASES])
