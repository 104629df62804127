"""The set of spent nullifiers: where a nullifier goes, and that none is lost on the way."""
from .lib import *
from .. import proj
from .commitment import FIND, ST
from .verification import VA, NV, shaped, start, facts_all, reduced

LEAVES, BUCKET, WAITING = 1 << 20, 1 << 16, 4
OPEN = [x for x in proj.OPAQUE if "NullifierAccount" not in x]
ORD = "elusiv::types::OrdU256"


def is_map(n, what):
    return n.op == "app" and re.search(r"ElusivMap\b.*::%s$" % what, str(n.a[0])) is not None


def value_of(n):
    """the 256-bit value inside an ordered key"""
    return n.a[2] if n.op == "adt" and n.a[0] == ORD else N("fld", n, "0")


def waiting(W, nv, n):
    return [(N("idx", W.get(nv, "moved_values"), Int(i)), N("idx", W.get(nv, "moved_values_target"), Int(i))) for i in range(n)]


def final_waiting(W, p, nv, n):
    """the waiting list a path leaves, as (value, bucket) pairs; None when it cannot be told"""
    last, count = {}, n
    for f, v, i, val, loops, fn, ev in p.sets(None, nv):
        name = f.split(".")[-1]
        if name == "moved_values_count":
            if val.op != "int":
                return None
            count = val.a[0]
        elif name in ("moved_values", "moved_values_target"):
            if loops or i is None or i.op != "int":
                return None
            last[(name, i.a[0])] = val
    w = waiting(W, nv, n)
    out = []
    for k in range(count):
        v, t = last.get(("moved_values", k)), last.get(("moved_values_target", k))
        if v is None and t is None and k < n:
            out.append(w[k])
        elif v is None or t is None:
            return None
        else:
            out.append((v, t))
    # positions after sorting: a permutation of the list sorted
    res, perm = [], {}
    for v, t in out:
        a = []
        for x in (v, t):
            s = [y for y in walk(x) if y.op == "sel"]
            if not s:
                a.append(None)
            elif len(s) == 1 or len(set(s)) == 1:
                a.append((s[0], x))
            else:
                return None
        if a == [None, None]:
            res.append((v, t))
            continue
        if None in a or a[0][0] is not a[1][0]:
            return None
        perm.setdefault(a[0][0].a[1], []).append((a[0][0].a[0].a[0], a))
    for arr, l in perm.items():
        if sorted(k for k, _ in l) != list(range(len(arr.a))):
            return None
        for e in arr.a:
            pair = []
            for s, x in l[0][1]:
                pair.append(rewrite(x, lambda m, s=s, e=e: e if m is s else None))
            res.append(tuple(simp(x) for x in pair))
    return res


def simp(n):
    """field selections out of explicit values"""
    if n.op != "fld":
        return n
    b = simp(n.a[0])
    if b.op == "tup" and str(n.a[1]).isdigit():
        return b.a[int(n.a[1])]
    if b.op == "adt" and b.a[0] == ORD and n.a[1] == "0":
        return b.a[2]
    return N("fld", b, n.a[1])


def multiset(p, l):
    out = {}
    for x in l:
        k = p.canon(simp(x))
        out[k] = out.get(k, 0) + 1
    return out


def untrunc(n):
    while n.op == "app" and str(n.a[0]).startswith("trunc_"):
        n = n.a[1]
    return n


def bucket_ok(R, p, rule, w, nv, x, idx, at):
    """idx is the first bucket whose largest value is not below x, among those filled; else the one being filled"""
    W = p.H.W
    filled = app("div", W.get(nv, "nullifier_hash_count"), Int(BUCKET))
    mx = W.get(nv, "max_values")

    def below(i, pol, neg=False):
        m = N("adt", ORD, None, some_of(N("idx", mx, i)))
        c = N("adt", ORD, None, x)
        return p.truth(mk_lt(m, c)) is pol or p.truth(mk_lt(c, m)) is (not pol) and pol is False

    idx = untrunc(idx)
    prev = [f for f, pol in facts_all(p) if pol and f.op == "forall" and any(y.op == "ivar" and p.same(y.a[2], filled) for y in walk(f))]
    got = False
    for f in prev:
        iv = [y for y in walk(f) if y.op == "ivar" and p.same(y.a[2], filled)]
        iv = [y for y in iv if y.a[1] is Int(0)]
        for i in set(iv):
            m = N("adt", ORD, None, some_of(N("idx", mx, i)))
            c = N("adt", ORD, None, x)
            if any(y is z for z in f.a[1:] for y in (mk_lt(m, c), p.canon(mk_lt(m, c)))) or any(p.same(z, mk_lt(m, c)) for z in f.a[1:] if isinstance(z, Node)):
                if idx is i:
                    got = below(i, False)
                else:
                    got = p.same(idx, filled)
    R.need(got, rule, w, "the bucket is the first filled one whose largest value is not below the nullifier, or the one being filled", at, nice(idx))


def insert_job(W, n):
    def f(R):
        v, nv = W.view(VA, A(1)), W.view(NV, A(2))
        cells = {(v, "request"): shaped(W, (1,)), (v, "instruction"): Int(0), (nv, "moved_values_count"): Int(n)}
        H = W.handler("finalize_verification_insert_nullifier", opaque=OPEN, cells=cells, unroll=12)
        w = "finalize_verification_insert_nullifier (insertion, %d waiting)" % n
        R.count("insertions with %d waiting" % n, len(H.ok))
        R.need(len(H.ok) >= 1, "N01/insert", w, "the insertion has a successful exit", H.loc())
        x = reduced(N("sym", "nullifier0"))
        old = waiting(W, nv, n)
        for p in H.ok:
            at = p.site()
            calls = insertions(p)
            if not R.need(len(calls) == 1, "N01/insert", w, "exactly one value enters a bucket", at, "%d" % len(calls)):
                continue
            c, idx = calls[0]
            if not R.need(idx is not None, "N01/insert", w, "the bucket written is one of this tree's nullifier accounts", at, nice(c)):
                continue
            bucket_ok(R, p, "N01/bucket", w, nv, x, idx, at)
            for val, t in old:
                R.need(p.truth(eq(val, x)) is False, "N01/waiting", w, "a nullifier that waits to be moved is refused", at, "not compared with " + nice(val))
            R.need(p.truth(mk_is(c, "Ok")) is True, "N01/insert", w, "a duplicate is refused by the bucket", at)
            cnt = W.get(nv, "nullifier_hash_count")
            R.need(p.holds(lt(cnt, Int(LEAVES))), "N01/count", w, "no more nullifiers than leaves", at)
            R.need(p.sets("NullifierAccount.nullifier_hash_count", nv) and p.same(last_set(p, nv, "nullifier_hash_count"), add(cnt, 1)), "N01/count", w, "the nullifier counter grows by one", at)
            put = value_of(simp(c.a[2]))
            ev = evicted(p, c)
            if not R.need(ev is not None, "N01/insert", w, "it is known whether the bucket gave a value back", at):
                continue
            fin = final_waiting(W, p, nv, n)
            if not R.need(fin is not None, "N01/waiting", w, "the waiting list left is determined", at):
                continue
            have = multiset(p, [put] + [a for a, _ in fin])
            want = multiset(p, [x] + [a for a, _ in old] + ev)
            R.need(have == want, "N01/conserve", w, "no nullifier is lost: entered and waiting together are the new one, those waiting and the one given back", at, diff(have, want))
            conserve_targets(R, p, w, fin, old, ev, idx, at, x)
            max_ok(R, p, w, nv, c, idx, at)
    return f


def diff(have, want):
    return "; ".join("%s: %d, specified %d" % (nice(k), have.get(k, 0), want.get(k, 0)) for k in dict.fromkeys(list(have) + list(want)) if have.get(k, 0) != want.get(k, 0))


def last_set(p, nv, name):
    l = p.sets("NullifierAccount." + name, nv)
    return l[-1][3] if l else None


def insertions(p):
    """(call, bucket index) of every value put into a bucket"""
    l = {}
    for f, pol in p.s.facts:
        if f.op == "is" and is_map(f.a[0], "try_insert(_default)?"):
            l.setdefault(p.canon(f.a[0]), f.a[0])
    p._prep()
    return [(c, bucket_of(c.a[1])) for c in l.values()]


def bucket_of(m):
    """index of the nullifier account whose data the map is built on"""
    while m.op == "app" and m.a[0] == "out":
        m = m.a[1]
        if is_map(m, "try_insert(_default)?"):
            m = m.a[1]
    while m.op == "out":
        m = m.a[0]
        if is_map(m, "try_insert(_default)?"):
            m = m.a[1]
    if not is_map(m, "new"):
        return None
    d = m.a[1]
    d = contents(d)
    if d is None:
        return None
    for y in walk(d):
        if y.op == "idx" and "child_accounts" in show(y.a[0], 3):
            return y.a[1]
    return None


def evicted(p, c):
    """[] or [value] given back by the bucket"""
    r = ok_of(c)
    t = p.truth(is_some(r))
    if t is None:
        return None
    return [value_of(fld(some_of(r), "0"))] if t else []


def conserve_targets(R, p, w, fin, old, ev, idx, at, x):
    nxt = add(idx, 1)
    evs = [p.canon(simp(e)) for e in ev]
    olds = {}
    for a, t in old:
        olds.setdefault(p.canon(a), []).append(t)
    for a, t in fin:
        k = p.canon(simp(a))
        t = untrunc(simp(t))
        if k in evs:
            good = same_num(p, t, nxt)
            what = "a value given back by a bucket waits for the next bucket"
        elif k in olds:
            good = any(p.same(t, o) for o in olds[k])
            what = "a waiting value keeps its bucket"
        else:
            # the new nullifier, in the place of a larger one waiting for this bucket
            good = p.same(t, idx) or p.holds(eq(t, idx)) or p.holds(eq(idx, t))
            what = "a nullifier taking a waiting value's place waits for its own bucket"
        R.need(good, "N01/target", w, what, at, "%s waits for %s" % (nice(a), nice(t)))


def same_num(p, t, want):
    f = lambda n: rewrite(n, lambda m: untrunc_deep(m))
    return p.same(f(t), f(want)) or p.canon(poly_node(poly_dict(f(t)))) is p.canon(poly_node(poly_dict(f(want))))


def untrunc_deep(m):
    if m.op == "app" and (str(m.a[0]).startswith("trunc_")):
        return rewrite(m.a[1], untrunc_deep)
    return None


def max_ok(R, p, w, nv, c, idx, at):
    l = p.sets("NullifierAccount.max_values", nv)
    good = False
    if len(l) == 1 and l[0][2] is not None and (l[0][2] is idx or p.same(l[0][2], idx)):
        v = l[0][3]
        v = some_inner(v)
        if v is not None and v.op == "fld" and v.a[1] == "0" and is_map(v.a[0], "max"):
            m = v.a[0].a[1]
            good = (m.op == "app" and m.a[0] == "out" and m.a[1] is c) or (m.op == "out" and m.a[0] is c)
    R.need(good, "N01/max", w, "the bucket's largest value is recorded after the insertion", at, "; ".join("%s := %s" % (nice(y[2]) if y[2] is not None else "", nice(y[3])) for y in l))


def some_inner(v):
    return v.a[2] if v.op == "adt" and v.a[1] == "Some" else None


def move_job(W, n):
    def f(R):
        v, nv = W.view(VA, A(1)), W.view(NV, A(2))
        cells = {(v, "request"): shaped(W, (1,)), (v, "instruction"): Int(1), (nv, "moved_values_count"): Int(n)}
        H = W.handler("finalize_verification_insert_nullifier", opaque=OPEN, cells=cells, unroll=12)
        w = "finalize_verification_insert_nullifier (move, %d waiting)" % n
        R.count("moves with %d waiting" % n, len(H.ok))
        R.need(len(H.ok) >= 1, "N01/move", w, "the move has a successful exit", H.loc())
        old = waiting(W, nv, n)
        for p in H.ok:
            at = p.site()
            calls = insertions(p)
            R.need(not p.sets("NullifierAccount.nullifier_hash_count", nv), "N01/count", w, "moving nullifiers leaves the counter", at)
            fin = final_waiting(W, p, nv, n)
            if not R.need(fin is not None, "N01/waiting", w, "the waiting list left is determined", at):
                continue
            if n == 0:
                R.need(not calls and not fin, "N01/move", w, "nothing moves when nothing waits", at)
                continue
            ml = p.sets("NullifierAccount.max_values", nv)
            if not R.need(len(ml) == 1 and ml[0][2] is not None, "N01/max", w, "the largest value of the bucket filled is recorded", at):
                continue
            idx = ml[0][2]
            put, ev, good = [], [], True
            for c, i in calls:
                good &= R.need(i is not None and p.same(i, idx), "N01/move", w, "all values moved enter the bucket whose largest value is recorded", at, nice(c))
                good &= R.need(p.truth(mk_is(c, "Ok")) is True, "N01/insert", w, "a duplicate is refused by the bucket", at)
                e = evicted(p, c)
                good &= R.need(e is not None, "N01/insert", w, "it is known whether the bucket gave a value back", at)
                put.append(value_of(simp(c.a[2])))
                ev += e or []
            depth = lambda c: sum(1 for y in walk(c) if is_map(y, "try_insert(_default)?"))
            R.need(sorted(depth(c) for c, _ in calls) == list(range(1, len(calls) + 1)), "N01/move", w, "each insertion works on what the one before left", at)
            if not good:
                continue
            ev = [e for e in ev]
            have = multiset(p, put + [a for a, _ in fin])
            want = multiset(p, [a for a, _ in old] + ev)
            R.need(have == want, "N01/conserve", w, "no nullifier is lost: entered and waiting together are those waiting before and those given back", at, diff(have, want))
            ps = multiset(p, put)
            for a, t in old:
                if p.canon(a) in ps:
                    R.need(p.holds(eq(t, idx)) or p.holds(eq(idx, t)), "N01/target", w, "a value enters the bucket it waits for", at, nice(a))
            R.need(put or idx.op == "app" and idx.a[0] == "min" and all(any(y is t for y in walk(idx)) for _, t in old), "N01/move", w, "every move empties at least one bucket's waiting list", at, nice(idx))
            conserve_targets(R, p, w, fin, old, ev, idx, at, None)
            # the largest value is read from the map as the last insertion leaves it
            vmax = some_inner(ml[0][3])
            good = vmax is not None and vmax.op == "fld" and vmax.a[1] == "0" and is_map(vmax.a[0], "max")
            if good and calls:
                m = vmax.a[0].a[1]
                depth = 0
                while (m.op == "app" and m.a[0] == "out") or m.op == "out":
                    m = m.a[1] if m.op == "app" else m.a[0]
                    m = m.a[1]
                    depth += 1
                good = depth == len(calls)
            R.need(good, "N01/max", w, "the bucket's largest value is recorded after all insertions", at, nice(ml[0][3]))
    return f


def query_job(W, n):
    def f(R):
        nv = W.view(NV, A(8))
        H = start(W, (1,), opaque=OPEN, cells={(nv, "moved_values_count"): Int(n)})
        w = "init_verification (%d waiting)" % n
        R.need(len(H.ok) >= 1, "N01/query", w, "the start has a successful exit", H.loc())
        R.count("queries with %d waiting" % n, len(H.ok))
        x = reduced(N("sym", "nullifier0"))
        for p in H.ok:
            at = p.site()
            for val, t in waiting(W, nv, n):
                R.need(p.truth(eq(val, x)) is False, "N01/query", w, "a nullifier that waits to be moved counts as spent", at, "not compared with " + nice(val))
            q = []
            for f_, pol in facts_all(p):
                if f_.op == "is" and is_map(f_.a[0], "contains"):
                    q.append((f_.a[0], (f_.a[1] == "Some") == pol))
            q = [(c, t) for c, t in dict.fromkeys(q) if bucket_of(c.a[1]) is not None]
            good = len(q) == 1 and q[0][1] is False and p.same(value_of(simp(q[0][0].a[2])), x)
            if R.need(good, "N01/query", w, "a nullifier its bucket holds counts as spent", at, "; ".join(nice(c) for c, _ in q)):
                bucket_ok(R, p, "N01/bucket", w, nv, x, bucket_of(q[0][0].a[1]), at)
    return f


def order_job(W):
    def f(R):
        E = proj.engine(W.P)
        a, b = N("sym", "a"), N("sym", "b")
        for tr, fn in (("PartialOrd", "partial_cmp"), ("Ord", "cmp")):
            name = "<%s as std::cmp::%s>::%s" % (ORD, tr, fn)
            l = [g for g in W.P.fns.values() if g["name"] == name]
            if not R.need(len(l) == 1, "N01/order", name, "the order of nullifiers is defined", "", "%d definitions" % len(l)):
                continue
            for s, v in E.run_entry(l[0], [a, b]):
                v = E.deep(s, v)
                big = [app(x.a[0], fld(y, "0")) for y, x in zip((a, b), v.a[1:])] if v.op == "app" and len(v.a) == 3 and all(x.op == "app" for x in v.a[1:]) else []
                good = bool(big) and re.search(r"BigInteger256 as std::cmp::%s>::%s$" % (tr, fn), str(v.a[0])) and list(v.a[1:]) == big and all(str(x.a[0]).endswith("u256_to_big_uint") for x in big)
                R.count("comparisons of nullifiers")
                R.need(bool(good), "N01/order", name, "nullifiers are ordered as the integers they stand for", "", nice(v))
    return f


@prop("N01", ("elusiv",), "for every count of waiting nullifiers: bucket selection, duplicates, the eviction chain and the waiting list, over every successful exit of insertion, move and query")
def n01(R, W):
    """The successful exits of the nullifier insertion are analysed with the spent set's own code inlined (the bucket map stays abstract), for each count of waiting values and
    separately for insertion and move: the new value and those waiting must come out as an equal multiset of values entered and waiting (sorting is a permutation), each waiting value must keep
    or get the bucket it belongs to, and the selected bucket, the counter and the recorded largest value must be those specified. The spendable check at the start of a withdrawal is analysed
    the same way, so that query and insertion agree on the bucket."""
    jobs = [("order", order_job(W))]
    for n in range(WAITING + 1):
        jobs.append(("insert%d" % n, insert_job(W, n)))
        jobs.append(("move%d" % n, move_job(W, n)))
        jobs.append(("query%d" % n, query_job(W, n)))
    parallel(R, jobs)
