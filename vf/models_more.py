"""More of the standard library: slices, vectors, iterators, options, sets."""
import re
from .engine import *
from .engine import mk_bin, mk_eq, mk_lt, mk_not, mk_and, mk_or, mk_idx, mk_fld, mk_as, mk_is, update
from . import models as M
from .models import MODELS, model, fork, split, good_of, as_iter, iter_len, elem, mk_iter, mk_slice, candidates, merge, SOME, OK, NONE, ERR, UNIT, TRUE, FALSE, adaptor

ORD = "std::cmp::Ordering"
LIMIT = 256


def array_len(ty):
    """N of a type [T; N], behind any references"""
    m = re.search(r"; (\d+)(?:_usize)?\]$", (ty or "").strip())
    return int(m.group(1)) if m and re.match(r"^(&(mut )?('\S+ )?)*\[", ty.strip()) else None


def learn(E, v, ty):
    """a value of an array type has that many elements"""
    n = array_len(ty)
    if n is not None and v.op not in ("arr", "bytes", "str", "repeat", "ref") and v not in E.lens:
        E.lens[v] = Int(n)


def place(E, s, a):
    """(location, value) of the slice or vector behind a reference"""
    loc = E.loc_of(a)
    v = E.read(s, loc)
    while v.op == "ref":
        loc = E.loc_of(v)
        v = E.read(s, loc)
    return loc, v


def elems(E, v):
    """the elements, when their number is known and small"""
    if v.op == "arr":
        return list(v.a)
    n = E.mk_len(v)
    if n.op == "int" and n.a[0] <= E.UNROLL:
        return [mk_idx(v, Int(i)) for i in range(n.a[0])]
    return None


def piece(E, loc, v, a, b, mut):
    if mut and loc[0] == "L":
        return N("ref", loc[1], loc[2], loc[3] + (("rng", a, b),))
    return mk_slice(E, v if not mut or loc[0] == "L" else loc[1], a, b)


def spot(E, loc, v, i, mut):
    if mut and loc[0] == "L":
        return N("ref", loc[1], loc[2], loc[3] + (("i", i),))
    return mk_idx(v if not mut or loc[0] == "L" else loc[1], i)


S_ = "core::slice::<impl [T]>::"


def splits(mut):
    def f(E, s, c):
        loc, v = place(E, s, c.args[0])
        v = E.deep(s, v)
        k = E.deep(s, c.args[1])
        n = E.mk_len(v)
        out = []
        for x, b in fork(s, mk_lt(n, k)):
            if not b:
                out.append((x, N("tup", piece(E, loc, v, Int(0), k, mut), piece(E, loc, v, k, n, mut))))
        return out
    return f


MODELS[S_ + "split_at"] = splits(False)
MODELS[S_ + "split_at_mut"] = splits(True)


def ends(which, mut, rest):
    def f(E, s, c):
        loc, v = place(E, s, c.args[0])
        v = E.deep(s, v)
        n = E.mk_len(v)
        out = []
        for x, b in fork(s, mk_eq(n, Int(0))):
            if b:
                out.append((x, NONE))
                continue
            last = mk_bin("sub", n, Int(1), "usize")
            e = spot(E, loc, v, Int(0) if which == "first" else last, mut)
            if rest:
                r = piece(E, loc, v, Int(1), n, mut) if which == "first" else piece(E, loc, v, Int(0), last, mut)
                e = N("tup", e, r)
            out.append((x, SOME(e)))
        return out
    return f


for _w in ("first", "last"):
    MODELS[S_ + _w + "_mut"] = ends(_w, True, False)
    MODELS[S_ + "split_" + _w] = ends(_w, False, True)
    MODELS[S_ + "split_" + _w + "_mut"] = ends(_w, True, True)


def chunked(exact, mut):
    def f(E, s, c):
        loc, v = place(E, s, c.args[0])
        v = E.deep(s, v)
        k = E.deep(s, c.args[1])
        n = E.mk_len(v)
        if k.op != "int" or not k.a[0] or n.op != "int":
            return None
        size, n = k.a[0], n.a[0]
        cnt = n // size if exact else -(-n // size)
        return [(s, mk_iter(N("it_slice", N("arr", *[piece(E, loc, v, Int(i * size), Int(min(n, (i + 1) * size)), mut) for i in range(cnt)]))))]
    return f


MODELS[S_ + "chunks"] = chunked(False, False)
MODELS[S_ + "chunks_exact"] = chunked(True, False)
MODELS[S_ + "chunks_mut"] = chunked(False, True)
MODELS[S_ + "chunks_exact_mut"] = chunked(True, True)


@model(S_ + "windows")
def m_windows(E, s, c):
    loc, v = place(E, s, c.args[0])
    v = E.deep(s, v)
    k, n = E.deep(s, c.args[1]), E.mk_len(v)
    if k.op != "int" or n.op != "int":
        return None
    es = elems(E, v)
    if es is None:
        return None
    return [(s, mk_iter(N("it_slice", N("arr", *[N("arr", *es[i:i + k.a[0]]) for i in range(n.a[0] - k.a[0] + 1)]))))]


@model("std::slice::<impl [T]>::concat")
def m_concat(E, s, c):
    v = E.deep(s, c.args[0])
    es = elems(E, v)
    if es is None:
        return None
    out = []
    inner = re.search(r"\[(\[.*; \d+\])(?:; \d+)?\]", c.tys[0] if c.tys else "")
    for x in es:
        x = E.deep(s, x)
        learn(E, x, inner.group(1) if inner else "")
        y = elems(E, x)
        if y is None:
            return None
        out += y
    return [(s, N("arr", *out))]


def prefix(end):
    def f(E, s, c):
        v, w = E.deep(s, c.args[0]), E.deep(s, c.args[1])
        k = elems(E, w)
        n = E.mk_len(v)
        if k is None:
            return None
        out = []
        for x, b in fork(s, mk_lt(n, Int(len(k)))):
            if b:
                out.append((x, FALSE))
                continue
            r = TRUE
            for i, y in enumerate(k):
                j = mk_bin("add", mk_bin("sub", n, Int(len(k)), "usize"), Int(i), "usize") if end else Int(i)
                r = mk_and(r, E.eq_discr(mk_idx(v, j), y))
            out.append((x, r))
        return out
    return f


MODELS[S_ + "starts_with"] = prefix(False)
MODELS[S_ + "ends_with"] = prefix(True)


def inplace(fn):
    def f(E, s, c):
        loc, v = place(E, s, c.args[0])
        if loc[0] != "L":
            return None
        es = elems(E, E.deep(s, v))
        if es is None:
            return None
        r = fn(E, s, c, list(es))
        if r is None:
            return None
        s = s.copy()
        E.write_quiet(s, loc, N("arr", *r[0]))
        return [(s, r[1])]
    return f


def const(E, s, c, i):
    n = E.deep(s, c.args[i])
    return n.a[0] if n.op == "int" else None


def reg(name, fn):
    MODELS[name] = inplace(fn)


def rot(sign):
    def f(E, s, c, l):
        k = const(E, s, c, 1)
        if k is None or k > len(l):
            return None
        k = k if sign > 0 else len(l) - k
        return l[k:] + l[:k], UNIT
    return f


def bounds(E, s, r, n):
    """(start, end) of a range of constants over n elements"""
    kind = r.a[0].split("::")[-1] if r.op == "adt" else None
    if r.op == "rangeincl":
        a, b = r.a[0], mk_bin("add", r.a[1], Int(1), "usize")
    elif kind == "Range":
        a, b = r.a[2], r.a[3]
    elif kind == "RangeTo":
        a, b = Int(0), r.a[2]
    elif kind == "RangeFrom":
        a, b = r.a[2], Int(n)
    elif kind == "RangeFull":
        a, b = Int(0), Int(n)
    else:
        return None
    return (a.a[0], b.a[0]) if a.op == b.op == "int" and a.a[0] <= b.a[0] <= n else None


def copy_within(E, s, c, l):
    r, d = bounds(E, s, E.deep(s, c.args[1]), len(l)), const(E, s, c, 2)
    if r is None or d is None or d + r[1] - r[0] > len(l):
        return None
    return l[:d] + l[r[0]:r[1]] + l[d + r[1] - r[0]:], UNIT


reg(S_ + "reverse", lambda E, s, c, l: (l[::-1], UNIT))
reg(S_ + "rotate_left", rot(1))
reg(S_ + "rotate_right", rot(-1))
reg(S_ + "copy_within", copy_within)
V_ = "std::vec::Vec::<T, A>::"


def resize(E, s, c, l):
    k = const(E, s, c, 1)
    if k is None or k > 4096:
        return None
    return (l + [E.deep(s, c.args[2])] * (k - len(l)))[:k], UNIT


def truncate(E, s, c, l):
    k = const(E, s, c, 1)
    return None if k is None else (l[:k], UNIT)


def insert(E, s, c, l):
    k = const(E, s, c, 1)
    return None if k is None or k > len(l) else (l[:k] + [c.args[2]] + l[k:], UNIT)


def remove(E, s, c, l):
    k = const(E, s, c, 1)
    return None if k is None or k >= len(l) else (l[:k] + l[k + 1:], l[k])


def swap_remove(E, s, c, l):
    k = const(E, s, c, 1)
    if k is None or k >= len(l):
        return None
    x = l[k]
    l[k] = l[-1]
    return l[:-1], x


def drain(E, s, c, l):
    r = bounds(E, s, E.deep(s, c.args[1]), len(l))
    if r is None:
        return None
    return l[:r[0]] + l[r[1]:], mk_iter(N("it_slice", N("arr", *l[r[0]:r[1]])))


reg(V_ + "resize", resize)
reg(V_ + "truncate", truncate)
reg(V_ + "clear", lambda E, s, c, l: ([], UNIT))
reg(V_ + "insert", insert)
reg(V_ + "remove", remove)
reg(V_ + "swap_remove", swap_remove)
reg(V_ + "drain", drain)


@model(V_ + "append")
def m_append(E, s, c):
    l1, v = place(E, s, c.args[0])
    l2, w = place(E, s, c.args[1])
    if v.op != "arr" or w.op != "arr" or l1[0] != "L" or l2[0] != "L":
        return None
    s = s.copy()
    E.write_quiet(s, l1, N("arr", *(v.a + w.a)))
    E.write_quiet(s, l2, N("arr"))
    return [(s, UNIT)]


@model(V_ + "retain")
def m_retain(E, s, c):
    loc, v = place(E, s, c.args[0])
    es = elems(E, E.deep(s, v))
    if es is None or loc[0] != "L":
        return None
    cur = [(s, ())]
    for k, x in enumerate(es):
        nxt = []
        for y, l in cur:
            for z, w in E.call_value(y, c.args[1], [x], (c.F, c.b, "retain", k), c.site):
                for q, b in fork(z, w):
                    nxt.append((q, l + (x,) if b else l))
        cur = nxt
        if len(cur) > LIMIT:
            return None
    out = []
    for x, l in cur:
        x = x.copy()
        E.write_quiet(x, loc, N("arr", *l))
        out.append((x, UNIT))
    return out


# ---------------------------------------------------------------- iterators
I_ = "std::iter::Iterator::"
D_ = "std::iter::DoubleEndedIterator::"


def drawn(E, s, c, arg=0):
    """[(state, elements)] of a concrete iterator, or None"""
    it = as_iter(E, s, c.args[arg])
    d = it.a[0]
    n = candidates(E, d)
    if n is None or n.op != "int" or it.a[1].op != "int" or n.a[0] - it.a[1].a[0] > E.UNROLL:
        return None
    cur = [(s, ())]
    for k in range(it.a[1].a[0], n.a[0]):
        cur = [(y, l + ((v,) if v is not None else ())) for x, l in cur for y, v in elem(E, x, d, Int(k), (c.F, c.b, "draw", k), c.site)]
        if len(cur) > LIMIT:
            return None
    return cur


def listed(l):
    return mk_iter(N("it_slice", N("arr", *l)))


@model(I_ + "try_fold")
def m_try_fold(E, s, c):
    it = drawn(E, s, c)
    if it is None:
        return None
    good = "Continue" if "ControlFlow" in (c.dty or "") else good_of(c.dty or "")
    wrap = {"Some": SOME, "Ok": OK}.get(good)
    if wrap is None:
        return None
    out = []
    for x, l in it:
        cur = [(x, c.args[1])]
        for k, v in enumerate(l):
            nxt = []
            for y, acc in cur:
                for z, w in E.call_value(y, c.args[2], [acc, v], (c.F, c.b, "tf", k), c.site):
                    for q, b, p in split(E, z, w, good):
                        if b:
                            nxt.append((q, p))
                        else:
                            out.append((q, w if w.op == "adt" else NONE if good == "Some" else ERR(p)))
            cur = nxt
            if len(cur) > LIMIT:
                return None
        out += [(y, wrap(acc)) for y, acc in cur]
    return out


def parts(E, s, x):
    """[(state, elements)] of something that can be iterated"""
    if x.op == "ref":
        x = E.read(s, E.loc_of(x))
    if x.op == "iter":
        it = x
        d = it.a[0]
        n = candidates(E, d)
        if n is None or n.op != "int" or it.a[1].op != "int":
            return None
        cur = [(s, [])]
        for k in range(it.a[1].a[0], n.a[0]):
            cur = [(y, l + ([v] if v is not None else [])) for z, l in cur for y, v in elem(E, z, d, Int(k), ("parts", k), "")]
        return cur
    if x.op == "adt" and str(x.a[0]).startswith("std::option::Option"):
        return [(s, list(x.a[2:]))]
    if x.op in ("arr",) or E.mk_len(x).op == "int":
        return [(s, elems(E, E.deep(s, x)))]
    return None


def flat(mapped):
    def f(E, s, c):
        it = drawn(E, s, c)
        if it is None:
            return None
        out = []
        for x, l in it:
            cur = [(x, [])]
            for k, v in enumerate(l):
                nxt = []
                for y, acc in cur:
                    for z, w in (E.call_value(y, c.args[1], [v], (c.F, c.b, "flat", k), c.site) if mapped else [(y, v)]):
                        p = parts(E, z, w)
                        if p is None and "Option" in " ".join(c.gargs or []) + " ".join(c.tys or []) + (c.dty or ""):
                            p = [(q, [u] if b else []) for q, b, u in split(E, z, w, "Some")]
                        if p is None:
                            return None
                        nxt += [(q, acc + m) for q, m in p]
                cur = nxt
                if len(cur) > LIMIT:
                    return None
            out += [(y, listed(l2)) for y, l2 in cur]
        return out
    return f


MODELS[I_ + "flat_map"] = flat(True)
MODELS[I_ + "flatten"] = flat(False)


def whiles(kind):
    def f(E, s, c):
        it = drawn(E, s, c)
        if it is None:
            return None
        out = []
        for x, l in it:
            cur = [(x, ())]      # elements kept so far
            for k, v in enumerate(l):
                nxt = []
                for y, acc in cur:
                    for z, w in E.call_value(y, c.args[1], [v], (c.F, c.b, kind, k), c.site):
                        if kind == "map_while":
                            for q, b, p in split(E, z, w, "Some"):
                                if b:
                                    nxt.append((q, acc + (p,)))
                                else:
                                    out.append((q, listed(acc)))
                            continue
                        for q, b in fork(z, w):
                            if kind == "take_while":
                                if b:
                                    nxt.append((q, acc + (v,)))
                                else:
                                    out.append((q, listed(acc)))
                            elif b:
                                nxt.append((q, ()))
                            else:
                                out.append((q, listed(l[k:])))
                cur = nxt
                if len(cur) > LIMIT:
                    return None
            out += [(y, listed(acc)) for y, acc in cur]
        return out
    return f


for _k in ("take_while", "skip_while", "map_while"):
    MODELS[I_ + _k] = whiles(_k)


@model(I_ + "scan")
def m_scan(E, s, c):
    it = drawn(E, s, c)
    if it is None:
        return None
    out = []
    for x, l in it:
        x = x.copy()
        f = E.frame(c.F, c.b, "scan")
        x.st[("l", f, 0)] = c.args[1]
        cur = [(x, ())]
        for k, v in enumerate(l):
            nxt = []
            for y, acc in cur:
                for z, w in E.call_value(y, c.args[2], [N("ref", f, 0, ()), v], (c.F, c.b, "scan", k), c.site):
                    for q, b, p in split(E, z, w, "Some"):
                        if b:
                            nxt.append((q, acc + (E.deep(q, p),)))
                        else:
                            out.append((q, listed(acc)))
            cur = nxt
            if len(cur) > LIMIT:
                return None
        out += [(y, listed(acc)) for y, acc in cur]
    return out


@model(I_ + "find_map")
def m_find_map(E, s, c):
    it = drawn(E, s, c)
    if it is not None:
        out = []
        for x, l in it:
            cur = [x]
            for k, v in enumerate(l):
                nxt = []
                for y in cur:
                    for z, w in E.call_value(y, c.args[1], [v], (c.F, c.b, "fm", k), c.site):
                        for q, b, p in split(E, z, w, "Some"):
                            if b:
                                out.append((q, SOME(p)))
                            else:
                                nxt.append(q)
                cur = merge(nxt)
            out += [(y, NONE) for y in cur]
        return out
    it = as_iter(E, s, c.args[0])
    d = it.a[0]
    key = "Q%s.%s" % (c.F, c.b)
    n = iter_len(E, d)
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", d))
    ts, fs = [], []
    for x, v in elem(E, s.copy(), d, i, (c.F, c.b, "q"), c.site):
        if v is None:
            fs.append((x, None))
            continue
        for y, w in E.call_value(x, c.args[1], [v], (c.F, c.b, "qc"), c.site):
            for z, b, p in split(E, y, w, "Some"):
                (ts if b else fs).append((z, p))
    none = s.copy()
    none.facts = none.facts | {(M.forall_node(key, M.common_facts(s, fs)), True)}
    return [(none, NONE)] + [(x, SOME(p)) for x, p in ts]


def backwards(E, s, c, val):
    it = as_iter(E, s, c.args[0])
    d = it.a[0]
    if it.a[1].op == "int" and it.a[1].a[0]:
        d = N("it_skip", d, it.a[1])
    n = iter_len(E, d)
    if n is None or n.op != "int":
        return None
    old = c.args[0]
    c.args[0] = mk_iter(N("it_rev", d))
    r = M.find_like(E, s, c, lambda v, i: val(v, Int(n.a[0] - 1 - i.a[0])))
    c.args[0] = old
    return r


@model(D_ + "rfind")
def m_rfind(E, s, c):
    return backwards(E, s, c, lambda v, i: v)


@model(I_ + "rposition")
def m_rposition(E, s, c):
    return backwards(E, s, c, lambda v, i: i)


@model(D_ + "next_back")
def m_next_back(E, s, c):
    loc = E.loc_of(c.args[0])
    it = E.read(s, loc)
    while it.op == "ref":
        loc = E.loc_of(it)
        it = E.read(s, loc)
    if it.op != "iter":
        it = as_iter(E, s, it)
    d, pos = it.a
    n = iter_len(E, d)
    if n is None or n.op != "int" or pos.op != "int" or M.has_filter(d):
        return None
    if pos.a[0] >= n.a[0]:
        return [(s, NONE)]
    s = s.copy()
    E.write_quiet(s, loc, N("iter", N("it_take", d, Int(n.a[0] - 1)), pos))
    return [(x, SOME(v)) for x, v in elem(E, s, d, Int(n.a[0] - 1), (c.F, c.b, "back"), c.site)]


@model("std::iter::ExactSizeIterator::len")
def m_iter_length(E, s, c):
    it = as_iter(E, s, c.args[0])
    n = iter_len(E, it.a[0])
    return None if n is None else [(s, mk_bin("sub", n, it.a[1], "usize"))]


def comparing(neg):
    def f(E, s, c):
        a = drawn(E, s, c)
        if a is None:
            return None
        out = []
        for x, l in a:
            b = drawn(E, x, c, 1)
            if b is None:
                return None
            for y, m in b:
                r = TRUE if len(l) == len(m) else FALSE
                for p, q in zip(l, m):
                    r = mk_and(r, E.eq_discr(E.deep(y, p), E.deep(y, q)))
                out.append((y, mk_not(r) if neg else r))
        return out
    return f


MODELS[I_ + "eq"] = comparing(False)
MODELS[I_ + "ne"] = comparing(True)


@model(I_ + "unzip")
def m_unzip(E, s, c):
    it = drawn(E, s, c)
    if it is None:
        return None
    part = lambda v, i: mk_fld(v, i, str(i))
    return [(x, N("tup", N("arr", *[E.deep(x, part(v, 0)) for v in l]), N("arr", *[E.deep(x, part(v, 1)) for v in l]))) for x, l in it]


@model(I_ + "reduce")
def m_reduce(E, s, c):
    it = drawn(E, s, c)
    if it is None:
        return None
    out = []
    for x, l in it:
        if not l:
            out.append((x, NONE))
            continue
        cur = [(x, l[0])]
        for k, v in enumerate(l[1:]):
            cur = [z for y, acc in cur for z in E.call_value(y, c.args[1], [acc, v], (c.F, c.b, "red", k), c.site)]
        out += [(y, SOME(acc)) for y, acc in cur]
    return out


@model("std::iter::once")
def m_once(E, s, c):
    return [(s, listed([c.args[0]]))]


@model("std::iter::empty")
def m_empty(E, s, c):
    return [(s, listed([]))]


@model("std::iter::repeat")
def m_repeat(E, s, c):
    return [(s, mk_iter(N("it_rep", c.args[0])))]


def iterator_of(E, s, c, i):
    """the argument turned into an iterator, mutable when it is a mutable reference"""
    a, ty = c.args[i], (c.tys[i] if c.tys and i < len(c.tys) else "") or ""
    learn(E, E.deep(s, a) if not ty.startswith("&mut") else a, ty)
    if ty.startswith("&mut") and a.op == "ref" and E.read(s, E.loc_of(a)).op != "iter":
        return N("it_mut", a, E.mk_len(E.deep(s, a)))
    it = as_iter(E, s, a)
    return N("it_skip", it.a[0], it.a[1]) if it.a[1].op == "int" and it.a[1].a[0] else it.a[0]


@model("std::iter::zip")
def m_zip(E, s, c):
    return [(s, mk_iter(N("it_zip", iterator_of(E, s, c, 0), iterator_of(E, s, c, 1))))]


@model("std::array::<impl [T; N]>::map")
def m_array_map(E, s, c):
    v = E.deep(s, c.args[0])
    learn(E, v, c.tys[0] if c.tys else "")
    es = elems(E, v)
    if es is None:
        return None
    cur = [(s, ())]
    for k, x in enumerate(es):
        cur = [(z, l + (w,)) for y, l in cur for z, w in E.call_value(y, c.args[1], [x], (c.F, c.b, "am", k), c.site)]
        if len(cur) > LIMIT:
            return None
    return [(x, N("arr", *l)) for x, l in cur]


@model("std::array::from_fn")
def m_from_fn(E, s, c):
    n = array_len(c.dty)
    if n is None or n > E.UNROLL:
        return None
    cur = [(s, ())]
    for k in range(n):
        cur = [(z, l + (w,)) for y, l in cur for z, w in E.call_value(y, c.args[0], [Int(k)], (c.F, c.b, "af", k), c.site)]
        if len(cur) > LIMIT:
            return None
    return [(x, N("arr", *l)) for x, l in cur]


# ---------------------------------------------------------------- numbers and orders
@model("std::cmp::Ord::clamp")
def m_clamp(E, s, c):
    t = (c.gargs[0] if c.gargs else "").lstrip("&")
    if t not in INTBITS:
        return None
    a, lo, hi = [E.deep(s, x) for x in c.args]
    out = []
    for x, b in fork(s, mk_lt(a, lo, t[0] == "i")):
        if b:
            out.append((x, lo))
            continue
        for y, d in fork(x, mk_lt(hi, a, t[0] == "i")):
            out.append((y, hi if d else a))
    return out


for _n, _s in (("is_lt", ("Less",)), ("is_le", ("Less", "Equal")), ("is_gt", ("Greater",)), ("is_ge", ("Greater", "Equal")), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater"))):
    def _f(E, s, c, good=_s):
        v = E.deep(s, c.args[0])
        return [(s, TRUE if v.a[1] in good else FALSE)] if v.op == "adt" and v.a[0] == ORD else None
    MODELS[ORD + "::" + _n] = _f


@model(ORD + "::reverse")
def m_ord_rev(E, s, c):
    v = E.deep(s, c.args[0])
    return [(s, N("adt", ORD, {"Less": "Greater", "Greater": "Less"}.get(v.a[1], "Equal")))] if v.op == "adt" and v.a[0] == ORD else None


@model("std::cmp::PartialOrd::partial_cmp")
def m_partial_cmp(E, s, c):
    t = (c.gargs[0] if c.gargs else "").lstrip("&")
    if t not in INTBITS:
        return None
    return [(x, SOME(v)) for x, v in M.three_way(E, s, E.deep(s, c.args[0]), E.deep(s, c.args[1]), t[0] == "i")]


def folding(fn):
    def f(E, s, c):
        a = [E.deep(s, x) for x in c.args]
        return [(s, Int(fn(*[x.a[0] for x in a])))] if all(x.op == "int" for x in a) else None
    return f


for _ty, _bits in INTBITS.items():
    P_ = "core::num::<impl %s>::" % _ty
    if _ty[0] == "u":
        MODELS[P_ + "rem_euclid"] = lambda E, s, c, ty=_ty: [(s, mk_bin("rem", E.deep(s, c.args[0]), E.deep(s, c.args[1]), ty))]
        MODELS[P_ + "div_euclid"] = lambda E, s, c, ty=_ty: [(s, mk_bin("div", E.deep(s, c.args[0]), E.deep(s, c.args[1]), ty))]
        MODELS[P_ + "div_ceil"] = folding(lambda a, b: -(-a // b) if b else 0)
        MODELS[P_ + "is_power_of_two"] = folding(lambda a: int(a > 0 and a & (a - 1) == 0))
        MODELS[P_ + "next_power_of_two"] = folding(lambda a: 1 << max(0, (a - 1).bit_length()))
        MODELS[P_ + "ilog2"] = folding(lambda a: max(0, a.bit_length() - 1))
        MODELS[P_ + "count_ones"] = folding(lambda a: bin(a).count("1"))
        MODELS[P_ + "leading_zeros"] = folding(lambda a, n=_bits: n - a.bit_length())
        MODELS[P_ + "trailing_zeros"] = folding(lambda a, n=_bits: (a & -a).bit_length() - 1 if a else n)

        def _ss(E, s, c, ty=_ty):
            a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
            return [(x, Int(0) if l else mk_bin("sub", a, b, ty)) for x, l in fork(s, mk_lt(a, b, False))]
        MODELS[P_ + "saturating_sub"] = _ss

        def _sa(E, s, c, ty=_ty, bits=_bits):
            out = []
            for x, v in MODELS["core::num::<impl %s>::checked_add" % ty](E, s, c):
                out.append((x, v.a[2] if v.a[1] == "Some" else Int((1 << bits) - 1)) if v.op == "adt" else None)
            return None if None in out else out
        MODELS[P_ + "saturating_add"] = _sa

        def _ad(E, s, c, ty=_ty):
            a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
            return [(x, mk_bin("sub", b, a, ty) if l else mk_bin("sub", a, b, ty)) for x, l in fork(s, mk_lt(a, b, False))]
        MODELS[P_ + "abs_diff"] = _ad

    def _tobe(E, s, c, ty=_ty):
        a = E.deep(s, c.args[0])
        n = INTBITS[ty] // 8
        if a.op == "int":
            return [(s, N("arr", *[Int((a.a[0] >> (8 * i)) & 255) for i in reversed(range(n))]))]
        if a.op == "from_be" and a.a[0] == ty:
            return [(s, a.a[1])]
        return [(s, N("arr", a) if n == 1 else N("be", ty, a))]
    MODELS[P_ + "to_be_bytes"] = _tobe

    def _frombe(E, s, c, ty=_ty):
        a = E.deep(s, c.args[0])
        if a.op == "be" and a.a[0] == ty:
            return [(s, a.a[1])]
        if a.op == "arr" and all(x.op == "int" for x in a.a):
            return [(s, Int(int.from_bytes(bytes(x.a[0] for x in a.a), "big")))]
        return [(s, N("from_be", ty, a))]
    MODELS[P_ + "from_be_bytes"] = _frombe


def size_of(ty):
    ty = ty.strip()
    if ty in INTBITS:
        return INTBITS[ty] // 8
    if ty in ("bool", "u8", "i8"):
        return 1
    if ty.endswith("pubkey::Pubkey"):
        return 32
    m = re.match(r"^\[(.*); (\d+)(?:_usize)?\]$", ty)
    if m:
        x = size_of(m.group(1))
        return None if x is None else x * int(m.group(2))
    return None


@model("std::mem::size_of")
def m_size_of(E, s, c):
    n = size_of(c.gargs[0]) if c.gargs else None
    return None if n is None else [(s, Int(n))]


# ---------------------------------------------------------------- options
O_ = "std::option::Option::<T>::"


@model(O_ + "zip")
def m_opt_zip(E, s, c):
    out = []
    for x, a, p in split(E, s, c.args[0], "Some"):
        if not a:
            out.append((x, NONE))
            continue
        out += [(y, SOME(N("tup", p, q)) if b else NONE) for y, b, q in split(E, x, c.args[1], "Some")]
    return out


@model(O_ + "xor")
def m_opt_xor(E, s, c):
    out = []
    for x, a, p in split(E, s, c.args[0], "Some"):
        for y, b, q in split(E, x, c.args[1], "Some"):
            out.append((y, SOME(p) if a and not b else SOME(q) if b and not a else NONE))
    return out


def get_or(lazy):
    def f(E, s, c):
        loc = E.loc_of(c.args[0])
        v = E.read(s, loc)
        out = []
        for x, b, p in split(E, s, v, "Some"):
            for y, w in ([(x, p)] if b else E.call_value(x, c.args[1], [], (c.F, c.b, "goi"), c.site) if lazy else [(x, c.args[1])]):
                y = y.copy()
                if not b or v.op != "adt":
                    E.write(y, loc, SOME(w))
                out.append((y, N("ref", loc[1], loc[2], loc[3] + (("v", "Some"), ("f", 0, "0"))) if loc[0] == "L" else w))
        return out
    return f


MODELS[O_ + "get_or_insert"] = get_or(False)
MODELS[O_ + "get_or_insert_with"] = get_or(True)


@model(O_ + "insert")
def m_opt_insert(E, s, c):
    loc = E.loc_of(c.args[0])
    s = s.copy()
    E.write(s, loc, SOME(c.args[1]))
    return [(s, N("ref", loc[1], loc[2], loc[3] + (("v", "Some"), ("f", 0, "0"))) if loc[0] == "L" else c.args[1])]


@model("std::option::Option::<std::result::Result<T, E>>::transpose")
def m_transpose_o(E, s, c):
    out = []
    for x, b, p in split(E, s, c.args[0], "Some"):
        if not b:
            out.append((x, OK(NONE)))
            continue
        out += [(y, OK(SOME(q)) if d else ERR(q)) for y, d, q in split(E, x, p, "Ok")]
    return out


@model("std::result::Result::<std::option::Option<T>, E>::transpose")
def m_transpose_r(E, s, c):
    out = []
    for x, b, p in split(E, s, c.args[0], "Ok"):
        if not b:
            out.append((x, SOME(ERR(p))))
            continue
        out += [(y, SOME(OK(q)) if d else NONE) for y, d, q in split(E, x, p, "Some")]
    return out


# ---------------------------------------------------------------- sets and queues of known contents
def set_new(E, s, c):
    return [(s, N("adt", "set", None))]


def member(E, s, v, x):
    """[(state, contained?)]"""
    cur, out = [s], []
    for y in v.a[2:]:
        nxt = []
        for z in cur:
            for q, b in fork(z, E.eq_discr(y, x)):
                if b:
                    out.append((q, True))
                else:
                    nxt.append(q)
        cur = nxt
    return out + [(q, False) for q in cur]


def set_insert(E, s, c):
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    if not (v.op == "adt" and v.a[0] == "set"):
        return None
    x = E.deep(s, c.args[1])
    out = []
    for q, b in member(E, s, v, x):
        if not b:
            q = q.copy()
            E.write_quiet(q, loc, N("adt", "set", None, *(v.a[2:] + (x,))))
        out.append((q, FALSE if b else TRUE))
    return out


def set_contains(E, s, c):
    v = E.deep(s, c.args[0])
    if not (v.op == "adt" and v.a[0] == "set"):
        return None
    return [(q, TRUE if b else FALSE) for q, b in member(E, s, v, E.deep(s, c.args[1]))]


def set_len(E, s, c):
    v = E.deep(s, c.args[0])
    return [(s, Int(len(v.a) - 2))] if v.op == "adt" and v.a[0] == "set" else None


for _t in ("BTreeSet", "HashSet"):
    for _g in ("<T>", "<T, A>", "<T, S>", "<T, std::hash::RandomState>", "<T, S, A>"):
        b_ = "std::collections::%s::%s::" % (_t, _g)
        MODELS[b_ + "new"] = set_new
        MODELS[b_ + "with_capacity"] = set_new
        MODELS[b_ + "insert"] = set_insert
        MODELS[b_ + "contains"] = set_contains
        MODELS[b_ + "len"] = set_len


Q_ = "std::collections::VecDeque::<T%s>::"
for _g in ("", ", A"):
    MODELS[Q_ % _g + "new"] = lambda E, s, c: [(s, N("arr"))]
    MODELS[Q_ % _g + "with_capacity"] = lambda E, s, c: [(s, N("arr"))]
    reg(Q_ % _g + "push_back", lambda E, s, c, l: (l + [c.args[1]], UNIT))
    reg(Q_ % _g + "push_front", lambda E, s, c, l: ([c.args[1]] + l, UNIT))
    reg(Q_ % _g + "pop_front", lambda E, s, c, l: (l[1:], SOME(l[0]) if l else NONE))
    reg(Q_ % _g + "pop_back", lambda E, s, c, l: (l[:-1], SOME(l[-1]) if l else NONE))
    for _n in ("len", "is_empty", "iter", "iter_mut", "extend"):
        for _src in (V_ + _n, "std::iter::Extend::" + _n):
            if _src in MODELS:
                MODELS[Q_ % _g + _n] = MODELS[_src]


def chain(E, s, c, d):
    return N("it_chain", d, iterator_of(E, s, c, 1))


MODELS[I_ + "chain"] = adaptor(chain)
MODELS[I_ + "zip"] = adaptor(lambda E, s, c, d: N("it_zip", d, iterator_of(E, s, c, 1)))
