"""Deposits, the commitment queue and the hashing of the commitment tree."""
import itertools
from .lib import *
from .. import proj

BH = "BaseCommitmentHashingAccount"
CH = "CommitmentHashingAccount"
CQ = "CommitmentQueueAccount"
MQ = "MetadataQueueAccount"
ST = "StorageAccount"
SCALAR_MODULUS = 21888242871839275222246405745257275088548364400416034343698204186575808495617
MONT = pow(2, 256, SCALAR_MODULUS)
# poseidon(0, 0) and poseidon(poseidon(0, 0), 0): the commitments nobody could tell from an empty leaf
POSEIDON_0_0 = 14744269619966411208579211824598458697587494354926760081771325075741142829156
POSEIDON_00_0 = 10550412122474489085186760340904980499891544584677836768300371073631951867242
FIND = (r"^elusiv::bytes::find\b",)
HASHING = [x for x in proj.OPAQUE if "compute_" not in x and "poseidon" not in x] + [r"::binary_poseidon_hash_partial$"]
QLEN, BUFLEN, HEIGHT, HISTORY = 240, 128, 20, 100


def limbs(v):
    return [(v >> (64 * i)) & ((1 << 64) - 1) for i in range(4)]


def bigint_of(n):
    """value of a constant BigInteger256 term"""
    while n.op == "adt" and len(n.a) >= 3 and n.a[2].op != "arr":
        n = n.a[2]
    if n.op == "adt" and n.a[2].op == "arr" and all(x.op == "int" for x in n.a[2].a):
        return sum(x.a[0] << (64 * i) for i, x in enumerate(n.a[2].a))
    return None


def compared(p, a, b, raw):
    """the plain value `raw` (a 256-bit number before Montgomery form) is compared with when the term a, made of it, is compared with the constant b"""
    unreduce = pow(MONT, -1, SCALAR_MODULUS)

    def number(n):
        if n.op == "bytes":
            return int.from_bytes(bytes.fromhex(n.a[0]), "little")
        if n.op == "arr" and n.a and all(isinstance(x, Node) and x.op == "int" for x in n.a):
            return sum(x.a[0] << (8 * i) for i, x in enumerate(n.a))
        if n.op == "adt" and len(n.a) == 3 and str(n.a[0]).endswith("RawU256"):
            return number(n.a[2])
        return bigint_of(n)

    def scale(n):
        """(factor) such that n holds raw * factor mod r"""
        if p.same(n, raw) or p.same(n, fld(raw, "0")):
            return 1
        if n.op == "app":
            f, x = str(n.a[0]), n.a[1] if len(n.a) > 1 else None
            if f.endswith("RawU256::reduce") or f.endswith("from_repr") or f.endswith("u256_to_fr"):
                k = scale(x)
                return None if k is None else k * MONT % SCALAR_MODULUS
            if re.search(r"(u256_to_fr_skip_mr|u256_to_big_uint|fr_to_u256_le|skip_mr|skip_mr_ref|scalar_skip_mr|u256_to_le_limbs|big_uint_to_u256)$", f):
                return scale(x)
        if n.op == "fld" and n.a[0].op == "as":
            return scale(n.a[0].a[0])
        if n.op == "fld" and n.a[1] == "0":
            return scale(n.a[0])
        return None
    k, c = scale(a), number(b)
    if k is None or c is None:
        return None
    return c if k == 1 else c * pow(k, -1, SCALAR_MODULUS) % SCALAR_MODULUS


def canonical(p, val):
    """on p the 256-bit value is smaller than the scalar field's modulus"""
    for f, pol in facts_all(p):
        if f.op == "lt" and pol and bigint_of(f.a[1]) == SCALAR_MODULUS:
            x = f.a[0]
            if x.op == "app" and str(x.a[0]).endswith("u256_to_big_uint") and p.same(x.a[1], val):
                return True
    return False


def absent(p, view, value):
    """on p the value is none of the buffer's entries"""
    W = p.H.W
    n = W.get(view, "length")
    if p.holds(eq(n, 0)):
        return True
    for f, pol in facts_all(p):
        g = f
        if g.op == "is" and not pol and g.a[1] == "Some" and g.a[0].op == "app" and g.a[0].a[0].endswith("bytes::find"):
            a = g.a[0].a[1:]
            sl = a[1]
            if p.same(a[0], value) and sl.op == "slice" and sl.a[0].op == "fld" and sl.a[0].a[0] is view and sl.a[0].a[1] == "values" and \
                    sl.a[1] is Int(0) and p.same(sl.a[2], mul(32, n)) and (p.same(a[2], n) or p.same(a[2], app("div", mul(32, n), Int(32)))):
                return True
    return False


def pushed(R, p, view, value, rule, where):
    """the value is appended to the ring of the last 128 values, nothing else of it changes"""
    W = p.H.W
    T = short_cell(view.a[0] + ".x").split(".")[0]
    ptr, n = W.get(view, "pointer"), W.get(view, "length")
    at = app("rem", ptr, Int(BUFLEN))
    vs = p.sets(T + ".values", view)
    R.need(len(vs) == 1 and vs[0][2] is not None and p.same(vs[0][2], at) and p.same(vs[0][3], value), rule, where, "the value replaces the oldest of the last 128 remembered values", p.site(), nice(N("args", *[x[3] for x in vs])))
    nx, more = p.final(T + ".pointer", view), p.final(T + ".length", view)
    at1, n1 = add(at, 1), add(n, 1)
    ok = nx is not None and (p.same(nx, app("rem", at1, Int(BUFLEN)))
                             or p.same(nx, Int(0)) and (p.holds(eq(at1, Int(BUFLEN))) or p.truth(lt(at1, Int(BUFLEN))) is False)
                             or p.same(nx, at1) and (p.truth(eq(at1, Int(BUFLEN))) is False or p.truth(lt(at1, Int(BUFLEN))) is True))
    full = p.truth(lt(n, Int(BUFLEN)))
    if full is None:
        full = p.truth(lt(n1, Int(BUFLEN))) or None
    ok &= (more is None and full is False and p.holds(eq(n, Int(BUFLEN)))) or more is not None and (
        p.same(more, app("min", Int(BUFLEN), n1)) or p.same(more, Int(BUFLEN)) and full is False or p.same(more, n1) and full is True)
    R.need(bool(ok), rule, where, "position and number of the remembered values advance by one", p.site(), "%s / %s" % (nice(nx or Int(-1)), nice(more or Int(-1))))


def final_is(p, cell, view, value):
    v = p.final(cell, view)
    return v is not None and p.same(v, value if isinstance(value, Node) else Int(value))


@prop("C01", ("elusiv",), "every successful exit of the deposit carries the guards: current fee version and batching rate, amount within the token's limits, canonical and non-trivial commitments, recent index within the window")
def c01(R, W):
    """Path facts of every successful exit of the deposit instruction (MIR dataflow, helpers inlined): the required comparisons must all have been taken with the required outcome, against constants recomputed independently (field modulus, empty commitment, token table)."""
    H = W.handler("store_base_commitment", extra_pure=FIND)
    req = H.arg(2)
    g = W.view("GovernorAccount", A(10))
    s = W.view(ST, A(11))
    f = lambda n: fld(req, n)
    tid = f("token_id")
    w = H.name

    def guards(rule, what, pred):
        each_ok(R, H, rule, what, pred)
    guards("fee version", "the request's fee version is the current one", lambda p: p.holds(eq(f("fee_version"), W.get(g, "fee_version"))))
    guards("batching rate", "the request's batching rate is the current one", lambda p: p.holds(eq(f("min_batching_rate"), W.get(g, "commitment_batching_rate"))))

    def limits(p):
        t = token_const(p, tid)
        if t is None:
            return False
        return p.holds(lt(tid, Int(len(t.a[0].a)))) and p.truth(lt(f("amount"), fld(t, "min"))) is False and p.truth(lt(fld(t, "max"), f("amount"))) is False
    guards("limits", "the token is listed and the amount lies within its limits", limits)
    for n in ("base_commitment", "commitment"):
        guards("canonical", "the %s is a canonical field element" % n.replace("_", " "), lambda p, n=n: canonical(p, fld(f(n), "0")))

    def nontrivial(p):
        return any(x.op == "eq" and not pol and POSEIDON_0_0 in (compared(p, x.a[0], x.a[1], f("base_commitment")), compared(p, x.a[1], x.a[0], f("base_commitment"))) for x, pol in facts_all(p))
    guards("non-trivial", "the base commitment is not the empty commitment", nontrivial)
    nx = W.get(s, "next_commitment_ptr")
    rec = f("recent_commitment_index")
    guards("recent index", "the recent commitment index lies within the window of remembered commitments", lambda p: p.truth(lt(nx, rec)) is False and p.holds(lt(sub(nx, rec), Int(BUFLEN))))
    R.floor("exits", 2)


@prop("C02", ("elusiv",), "every successful deposit opens the computation account with exactly the request's values (final stores per field, nothing else stored)")
def c02(R, W):
    """Effects of every successful exit of the deposit: the last value stored into each field of the opened computation account must be the request's own value (hash input, amount and token and index packed as the circuit expects, fee payer, fee version, rate, metadata), and no other program state changes."""
    H = W.handler("store_base_commitment", extra_pure=FIND, opaque=HASHING)
    req, meta = H.arg(2), H.arg(3)
    f = lambda n: fld(req, n)
    v = W.view(BH, A(12))
    want = {"is_active": Int(1), "instruction": Int(0), "round": Int(0), "fee_payer": bytes_of(key(A(2))), "fee_version": f("fee_version"),
            "min_batching_rate": f("min_batching_rate"), "token_id": f("token_id"), "metadata": meta}
    R.count("exits", len(H.ok))
    for p in H.ok:
        for n, x in want.items():
            R.need(final_is(p, BH + "." + n, v, x), "recorded", H.name, "the computation records the request's %s" % n.replace("_", " "), p.site(), nice(p.final(BH + "." + n, v) or Int(-1)))
        st = p.final(BH + ".state", v)
        R.need(st is not None and base_input(p, st, f), "hash input", H.name, "the hash starts from the base commitment, the amount, the token and the recent index", p.site(), nice(st) if st is not None else "")
        fields = set(want) | {"state"}
        for x in p.sets():
            T, fn = x[0].split(".")
            R.need((T == BH and fn in fields and x[1] is v and not x[4]) or T == "BaseCommitmentBufferAccount", "nothing else", H.name, "a deposit changes only the opened computation and the remembered values", p.site(), x[0])
    R.floor("exits", 2)


def sponge(n):
    """(l, r) of the initial hashing state (0, l, r), else None"""
    if n.op == "adt" and n.a[0].endswith("BinarySpongeHashingState") and n.a[2].op == "arr" and len(n.a[2].a) == 3:
        z, l, r = n.a[2].a
        if is_fr_zero(z):
            return l, r
    return None


def is_fr_zero(n):
    if bigint_of(n) == 0:
        return True
    return n.op == "app" and str(n.a[0]).endswith("::zero") and len(n.a) == 1


def base_input(p, st, f):
    s = sponge(st)
    if s is None:
        return False
    l, r = s
    want_l = ("u256_to_fr_skip_mr", f("base_commitment"))
    ok = l.op == "app" and str(l.a[0]).endswith("u256_to_fr_skip_mr") and l.a[1].op == "app" and str(l.a[1].a[0]).endswith("RawU256::reduce") and p.same(l.a[1].a[1], f("base_commitment"))
    # Fr::from_repr([amount, token + index * 2^16, 0, 0])
    if not (r.op == "fld" and r.a[0].op == "as" and r.a[0].a[1] == "Some"):
        return False
    c = r.a[0].a[0]
    if not (c.op == "app" and "from_repr" in show(c, 3)) and not (c.op == "app" and len(c.a) == 2):
        return False
    b = c.a[-1]
    if not (b.op == "adt" and b.a[2].op == "arr" and len(b.a[2].a) == 4):
        return False
    a0, a1, a2, a3 = b.a[2].a
    idx = f("recent_commitment_index")
    packed = [add(f("token_id"), app("shl", idx, Int(16))), add(f("token_id"), mul(65536, idx)), app("bitor", f("token_id"), app("shl", idx, Int(16))), app("bitor", app("shl", idx, Int(16)), f("token_id"))]
    return ok and p.same(a0, f("amount")) and any(p.same(a1, x) for x in packed) and a2 is Int(0) and a3 is Int(0)


@prop("C03", ("elusiv",), "specialised per instruction index: the base hash applies rounds 0..64 consecutively, once each, to its own stored state; it can only be finalised when all are done")
def c03(R, W):
    """The compute instruction is analysed once per value of the stored step counter: the terms stored must be the stored state advanced by exactly the next rounds, counters advance in step, and the union over all steps is rounds 0..64 once each; a further step has no successful exit, and finalisation requires the counter to equal the number of steps."""
    steps = []
    k, r0 = 0, 0
    while k < 8:
        v = W.view(BH, A(0))
        H = W.handler("compute_base_commitment_hash", opaque=HASHING, cells={(v, "instruction"): Int(k), (v, "round"): Int(r0)}, unroll=True)
        R.count("steps")
        if not H.ok:
            break
        done = None
        for p in H.ok:
            R.need(p.holds(W.get(v, "is_active")), "active", H.name, "only a started computation is advanced", p.site())
            c = chain(p.final(BH + ".state", v))
            R.need(c is not None and p.same(c[0], W.get(v, "state")) and c[1] == list(range(r0, r0 + len(c[1]))) and c[1], "rounds", H.name,
                   "a step applies the next rounds to the stored state", p.site(), str(c and c[1]))
            n = len(c[1]) if c else 0
            done = n if done in (None, n) else -1
            R.need(final_is(p, BH + ".instruction", v, k + 1) and final_is(p, BH + ".round", v, r0 + n), "counters", H.name, "step and round counters advance with the work", p.site())
            R.need(all(x[0] in (BH + ".state", BH + ".instruction", BH + ".round") for x in p.sets()), "nothing else", H.name, "a step changes nothing but the computation's state", p.site())
        steps.append(done)
        r0 += max(done or 0, 0)
        k += 1
    R.need(k < 8 and r0 == 65, "complete", "compute_base_commitment_hash", "the steps together apply the 65 rounds of one hash", "", "%d steps, rounds %s" % (k, steps))
    H = W.handler("finalize_base_commitment_hash", opaque=HASHING)
    v = W.view(BH, A(3))
    ins = W.get(v, "instruction")
    each_ok(R, H, "finished", "a base hash is only finalised when every step has been computed", lambda p: p.holds(eq(ins, k)) or p.truth(lt(ins, Int(k))) is False)
    each_ok(R, H, "active", "a base hash is only finalised once started", lambda p: p.holds(W.get(v, "is_active")))


def chain(n):
    """(initial state, rounds applied) of a hashing state term"""
    r = []
    while n is not None and n.op == "out" and n.a[0].op == "app" and str(n.a[0].a[0]).endswith("binary_poseidon_hash_partial"):
        k = n.a[0].a[1]
        if k.op != "int":
            return None
        r.append(k.a[0])
        n = n.a[0].a[2]
    return None if n is None else (n, r[::-1])


def hash_result(n):
    """the state whose result is n, for n == fr_to_u256_le(state.0[0])"""
    if n.op == "app" and str(n.a[0]).endswith("fr_to_u256_le"):
        x = n.a[1]
        if x.op == "idx" and x.a[1] is Int(0) and x.a[0].op == "fld" and x.a[0].a[1] == "0":
            return x.a[0].a[0]
    return None


def enqueued(R, p, qT, qacct, value, rule, where, what):
    """exactly one value goes to the tail of the ring queue, which is not full"""
    W = p.H.W
    v = W.view(qT, A(qacct))
    h, t = W.get(v, "head"), W.get(v, "tail")
    nt = app("rem", add(t, 1), Int(QLEN))
    ds = p.sets(qT + ".raw_data", v)
    ok = len(ds) == 1 and not ds[0][4] and ds[0][2] is not None and p.same(ds[0][2], t) and value(ds[0][3])
    R.need(ok, rule, where, what, p.site(), nice(N("args", *[x[3] for x in ds])))
    ring = Ring(h, t, QLEN)
    ok = (final_is(p, qT + ".tail", v, nt) or ring.steps(p, p.final(qT + ".tail", v), t, 1)) and len(p.sets(qT + ".tail", v)) == 1 and not p.sets(qT + ".head", v)
    R.need(ok, rule, where, "the queue grows by exactly that entry", p.site())
    R.need(p.truth(eq(nt, h)) is False or ring.holds(p, mk_not(eq(nt, h))), rule, where, "no waiting entry is overwritten", p.site())


def request_fields(W, n):
    """field values of a queued hash request"""
    if n.op != "adt" or not n.a[0].endswith("CommitmentHashRequest"):
        return None
    names = [f[0] for f in W.P.adts[W.full("CommitmentHashRequest")]["variants"][0][2]]
    return dict(zip(names, n.a[2:]))


@prop("C04", ("elusiv",), "every successful finalisation of a base hash stores exactly one queue entry built from that computation and closes it")
def c04(R, W):
    """Effects of every successful exit of the base-hash finalisation: one entry with the computation's own result, fee version and rate at the tail of the commitment queue, its metadata at the tail of the metadata queue, the computation deactivated; the original fee payer and the fee version are path facts."""
    H = W.handler("finalize_base_commitment_hash", opaque=HASHING)
    v = W.view(BH, A(3))
    g = lambda n: W.get(v, n)
    R.count("exits", len(H.ok))
    for p in H.ok:
        def val(n):
            d = request_fields(W, n)
            if d is None:
                return False
            st = hash_result(d["commitment"])
            return st is not None and p.same(st, g("state")) and p.same(d["fee_version"], g("fee_version")) and p.same(d["min_batching_rate"], g("min_batching_rate"))
        enqueued(R, p, CQ, 4, val, "queued", H.name, "the computed commitment is queued with its fee version and rate")
        enqueued(R, p, MQ, 5, lambda n: p.same(n, g("metadata")), "metadata", H.name, "the depositor's metadata is queued along with it")
        R.need(final_is(p, BH + ".is_active", v, 0), "closed", H.name, "the computation is deactivated", p.site())
        R.need(p.holds(eq(g("fee_payer"), bytes_of(key(A(0))))), "fee payer", H.name, "the repaid account is the one that opened the computation", p.site())
        R.need(p.holds(eq(g("fee_version"), H.arg(1))), "fee version", H.name, "the fee account is the one of the computation's fee version", p.site())
        for x in p.sets():
            R.need(x[0] in (CQ + ".raw_data", CQ + ".tail", MQ + ".raw_data", MQ + ".tail", BH + ".is_active"), "nothing else", H.name, "finalising changes only the queues and the computation", p.site(), x[0])
    open_steps = 0
    for k in range(8):
        cv = W.view(BH, A(0))
        C = W.handler("compute_base_commitment_hash", opaque=HASHING, cells={(cv, "instruction"): Int(k)}, unroll=True)
        F = W.handler("finalize_base_commitment_hash", opaque=HASHING, cells={(v, "instruction"): Int(k)}, unroll=True)
        R.count("steps")
        open_steps += bool(C.ok)
        R.need(not (C.ok and F.ok), "finished", F.name, "a computation with steps left is not finalised", F.loc(), "step counter %d" % k)
    R.need(open_steps >= 1, "finished", "compute_base_commitment_hash", "a base hash takes at least one step", "")
    R.floor("exits", 1)


def drop_trunc(n):
    """read conversions to u32 of positions below 2^20 as the position"""
    def f(x):
        if x.op == "app" and x.a[0] in ("trunc_u32",) and len(x.a) == 2:
            return drop_trunc(x.a[1])
        return None
    return rewrite(n, f)


def child_writes(p, view):
    """[(child index, first byte, end, value, loops, event)] for writes into the view's child accounts; None for one that is not understood"""
    out = []
    for e, ls in p.flat():
        if e.a[0] == "copy_into":
            tgt, val = e.a[1], e.a[2]
        elif e.a[0] == "call" and "BorshSerialize>::serialize" in e.a[1]:
            val, tgt = e.a[2].a[0], e.a[2].a[1]
        elif e.a[0] == "write":
            tgt, val = e.a[1], e.a[2]
        else:
            continue
        q = [x for x in walk(tgt) if x.op == "idx" and x.a[0].op == "fld" and x.a[0].a[1] == "child_accounts" and x.a[0].a[0] is view]
        if not q:
            continue
        r = piece_of(tgt)
        if r is None or r[2] is None or not any(x is q[0] for x in walk(r[0])):
            out.append((None, None, None, val, ls, e))
        else:
            out.append((q[0].a[1], r[1], r[2], val, ls, e))
    return out


def located(p, w, size, per):
    """the linear position a child write addresses, when child = pos / per and offset = (pos % per) * size"""
    q, lo, hi = w[0], w[1], w[2]
    if q is None:
        return None
    lo, hi, q = (p.canon(drop_trunc(x)) for x in (lo, hi, q))
    if p.canon(sub(hi, lo)) is not Int(size):
        return None
    if q.op == "int" and lo.op == "int":
        return Int(q.a[0] * per + lo.a[0] // size) if lo.a[0] % size == 0 else None
    if q.op == "app" and q.a[0] == "div" and q.a[2] is Int(per):
        pos = q.a[1]
        if lo is p.canon(mul(size, app("rem", pos, Int(per)))):
            return pos
    if q.op == "app" and q.a[0] == "div" and q.a[2].op == "int" and q.a[2].a[0] % per == 0:
        # (x / n) / per with x / n known
        pos = p.canon(app("div", q.a[1], Int(q.a[2].a[0] // per)))
        if pos.op == "int":
            q = Int(pos.a[0] // per)
            if q.a[0] == 0 and lo is p.canon(mul(size, pos)):
                return pos
    if q is Int(0):
        # positions known to lie in the first child
        d = poly_dict(lo)
        if all(c % size == 0 for c in d.values()):
            return poly_node({m: c // size for m, c in d.items()})
    return None


def batch_job(W, b):
    def job(R):
        q = W.view(CQ, A(0))
        mq = W.view(MQ, A(1))
        hv = W.view(CH, A(2))
        mv = W.view("MetadataAccount", A(3))
        names = [f[0] for f in W.P.adts[W.full("CommitmentHashRequest")]["variants"][0][2]]
        raw = N("each", W.get(q, "raw_data"), names.index("min_batching_rate"), "min_batching_rate", Int(b))
        H = W.handler("init_commitment_hash", opaque=HASHING, cells={(q, "raw_data"): raw}, unroll=True)
        n = 1 << b
        where = "%s, batches of %d" % (H.name, n)
        full = 0
        for p in H.ok:
            R.count("exits")
            if not p.sets() and not child_writes(p, mv):
                R.need(p.holds(H.arg(0)), "ignored failure", where, "a failure is only ignored on request, and with nothing changed", p.site())
                continue
            full += 1
            head, tail = W.get(q, "head"), W.get(q, "tail")
            item = lambda i: N("idx", W.get(q, "raw_data"), app("rem", add(head, i), Int(QLEN)) if i else app("rem", head, Int(QLEN)))
            R.need(p.truth(W.get(hv, "is_active")) is False and p.holds(W.get(hv, "setup")), "idle", where, "a batch only starts when no other is being hashed and the siblings are in place", p.site())
            # the queue holds the whole batch
            ring = Ring(head, tail, QLEN)
            R.need(ring.holds(p, mk_not(lt(ring.size(), Int(n)))), "filled", where, "the queue holds a complete batch", p.site())
            R.need(p.truth(lt(Int(1 << HEIGHT), add(W.get(hv, "ordering"), n))) is False, "fits", where, "the batch fits into the tree", p.site())
            tidy = lambda x: ring.tidy(p, x, W.get(q, "raw_data"), n)
            known_eq = {frozenset((tidy(f.a[0]), tidy(f.a[1]))) for f, pol in facts_all(p) if pol and f.op == "eq"} if n > 1 else ()
            for i in range(1, n):
                x, y = fld(item(i), "fee_version"), fld(item(i - 1), "fee_version")
                R.need(p.same(x, y) or frozenset((p.canon(x), p.canon(y))) in known_eq, "one fee version", where, "all commitments of the batch have the same fee version", p.site())
            R.need((same_mod(p, p.final(CQ + ".head", q), head, n) or ring.steps(p, p.final(CQ + ".head", q), head, n)) and not p.sets(CQ + ".tail", q), "dequeued", where, "exactly the batch leaves the commitment queue", p.site(), nice(p.final(CQ + ".head", q) or Int(-1)))
            for f, x in (("is_active", Int(1)), ("batching_rate", Int(b)), ("fee_version", fld(item(0), "fee_version"))):
                R.need(final_is(p, CH + "." + f, hv, x), "recorded", where, "the computation records the batch's %s" % f.replace("_", " "), p.site())
            leaves = {}
            for x in p.sets(CH + ".hash_tree", hv):
                R.need(x[2] is not None and x[2].op == "int" and not x[4], "leaves", where, "leaves are placed one by one", p.site())
                if x[2] is not None and x[2].op == "int":
                    leaves[x[2].a[0]] = x[3]
            for i in range(n):
                R.need(i in leaves and (p.same(leaves[i], fld(item(i), "commitment")) or tidy(leaves[i]) is p.canon(fld(item(i), "commitment"))), "leaves", where, "leaf i of the batch is the i-th queued commitment", p.site(), "%d: %s" % (i, nice(leaves.get(i, Int(-1)))))
            sp = sponge(p.final(CH + ".state", hv) or Int(0))
            want = first_input(W, p, hv, b, leaves)
            R.need(sp is not None and want is not None and fr_of(p, sp[0], want[0]) and fr_of(p, sp[1], want[1]), "first hash", where, "the first hash starts from the first two nodes", p.site(), nice(p.final(CH + ".state", hv) or Int(-1)))
            # metadata
            mh, mt = W.get(mq, "head"), W.get(mq, "tail")
            ptr = W.get(mv, "next_metadata_ptr")
            ws = child_writes(p, mv)
            R.need(len(ws) == n, "metadata", where, "one metadata entry per commitment is stored", p.site(), str(len(ws)))
            mring = Ring(mh, mt, QLEN)
            cur = mh
            for i, w in enumerate(ws):
                pos = located(p, w, 17, 65536)
                src = p.canon(w[3])
                R.need(pos is not None and p.same(pos, add(ptr, i)), "metadata", where, "the metadata is stored at the next free position", p.site(), nice(pos) if pos is not None else nice(w[5]))
                R.need(src is p.canon(N("idx", W.get(mq, "raw_data"), cur)) or src is p.canon(N("idx", W.get(mq, "raw_data"), app("rem", add(mh, i), Int(QLEN)))) or mring.tidy(p, src, W.get(mq, "raw_data"), n) is p.canon(N("idx", W.get(mq, "raw_data"), app("rem", add(mh, i), Int(QLEN)))), "metadata", where, "the i-th metadata entry is the i-th queued one", p.site(), nice(src))
                cur = app("rem", add(cur, 1), Int(QLEN))
            R.need(same_mod(p, p.final(MQ + ".head", mq), mh, n) or mring.steps(p, p.final(MQ + ".head", mq), mh, n), "metadata", where, "exactly the batch's metadata leaves the metadata queue", p.site())
            fp = p.final("MetadataAccount.next_metadata_ptr", mv)
            R.need(fp is not None and p.same(drop_trunc(fp), add(ptr, n)), "metadata", where, "the metadata position advances by the batch", p.site())
            allowed = {CQ + ".head", MQ + ".head", "MetadataAccount.next_metadata_ptr", CH + ".is_active", CH + ".batching_rate", CH + ".fee_version", CH + ".hash_tree", CH + ".state"}
            for x in p.sets():
                R.need(x[0] in allowed, "nothing else", where, "starting a batch changes nothing else", p.site(), x[0])
        R.need(full >= 1, "reachable", where, "a complete batch can be started", H.loc())
    return job


def mixed_job(W):
    """batches of commitments with different minimal rates: specialised per rate of each waiting commitment"""
    def job(R):
        q = W.view(CQ, A(0))
        hv = W.view(CH, A(2))
        names = [f[0] for f in W.P.adts[W.full("CommitmentHashRequest")]["variants"][0][2]]
        seen = set()
        for rates in itertools.product((0, 1, 2), repeat=4):
            n, r = 0, None
            while r is None or n < 1 << r:
                r = max(rates[n], r or 0)
                n += 1
            if rates[:n] in seen:
                continue
            seen.add(rates[:n])
            for head in (3, QLEN - 1):
                table = N("table", tuple(((head + i) % QLEN, Int(x)) for i, x in enumerate(rates)))
                raw = N("each", W.get(q, "raw_data"), names.index("min_batching_rate"), "min_batching_rate", table)
                H = W.handler("init_commitment_hash", opaque=HASHING, cells={(q, "raw_data"): raw, (q, "head"): Int(head), (q, "tail"): Int((head + 4) % QLEN)}, unroll=True)
                full = [p for p in H.ok if p.sets()]
                R.need(len(full) >= 1, "mixed rates", H.name, "commitments of different minimal rates can be hashed together", H.loc(), str(rates[:n]))
                for p in full:
                    R.count("mixed")
                    R.need(final_is(p, CH + ".batching_rate", hv, r), "mixed rates", H.name, "no commitment is hashed in a smaller batch than it paid for, nor in a larger one than needed", p.site(), "minimal rates %s: %s" % (rates[:n], nice(p.final(CH + ".batching_rate", hv) or Int(-1))))
                    R.need(final_is(p, CQ + ".head", q, (head + n) % QLEN), "mixed rates", H.name, "exactly the commitments of the batch leave the queue", p.site(), "minimal rates %s" % (rates[:n],))
    return job


def same_mod(p, x, base, n):
    """x == (base + n) mod QLEN, however the steps are taken"""
    if x is None:
        return False
    if p.same(x, app("rem", add(base, n), Int(QLEN))):
        return True
    # n steps of one
    y = p.canon(x)
    def steps(z):
        if p.same(z, base):
            return 0
        if z.op == "app" and z.a[0] == "rem" and z.a[2] is Int(QLEN):
            d = dict(poly_dict(z.a[1]))
            c = d.pop((), 0)
            if len(d) == 1 and list(d.values()) == [1]:
                m = list(d)[0]
                r = steps(m[0]) if len(m) == 1 else None
                return None if r is None else r + c
        return None
    return steps(y) == n


def fr_of(p, n, value):
    """n is the field element with the stored value"""
    return n.op == "app" and str(n.a[0]).endswith("u256_to_fr_skip_mr") and p.same(n.a[1], value)


def bit(p, x, k):
    """bit k of x as known on p"""
    t = p.truth(eq(app("rem", app("div", x, Int(1 << k)) if k else x, Int(2)), 0))
    return None if t is None else (0 if t else 1)


def above_input(W, p, hv, b, i, left):
    """inputs of the i-th hash above the batch: the node and its sibling, in the order the position says"""
    v = bit(p, W.get(hv, "ordering"), b + i)
    s = N("idx", W.get(hv, "siblings"), Int(b + i))
    if v is None:
        return None
    return (s, left) if v else (left, s)


def first_input(W, p, hv, b, leaves):
    if b == 0:
        return above_input(W, p, hv, 0, 0, leaves.get(0, Int(-1)))
    return leaves.get(0, Int(-1)), leaves.get(1, Int(-1))


@prop("C05", ("elusiv",), "specialised per batching rate 0..4: a started batch takes exactly the next 2^rate commitments and metadata entries, in order, or changes nothing")
def c05(R, W):
    """The batch start is analysed once per batching rate with all loops unrolled: leaves, queue heads, metadata writes, first hash input and guards of every successful exit must be the specified terms; an exit that ignores a failure must carry no effect at all."""
    parallel(R, [("rate %d" % b, batch_job(W, b)) for b in reversed(RATES)] + [("mixed rates", mixed_job(W))])
    R.floor("exits", 5)
    R.floor("mixed", 20)
    # the siblings
    H = W.handler("init_commitment_hash_setup")
    hv, sv = W.view(CH, A(0)), W.view(ST, A(1))
    full = 0
    for p in H.ok:
        R.count("exits")
        if not p.sets():
            R.need(p.holds(H.arg(0)), "ignored failure", H.name, "a failure is only ignored on request, and with nothing changed", p.site())
            continue
        full += 1
        R.need(p.truth(W.get(hv, "is_active")) is False, "idle", H.name, "siblings are only replaced when no batch is being hashed", p.site())
        for f, x in (("setup", Int(1)), ("instruction", Int(0)), ("round", Int(0)), ("finalization_ix", Int(0)), ("ordering", W.get(sv, "next_commitment_ptr"))):
            R.need(final_is(p, CH + "." + f, hv, x), "recorded", H.name, "the computation starts anew at the next free leaf: " + f.replace("_", " "), p.site())
        for x in p.sets():
            R.need(x[0].split(".")[0] == CH and x[0].split(".")[1] in ("setup", "instruction", "round", "finalization_ix", "ordering", "siblings"), "nothing else", H.name, "the setup changes nothing else", p.site(), x[0])
    R.need(full >= 1, "reachable", H.name, "the setup can succeed", H.loc())


def tree_job(W, b):
    def job(R):
        hv = W.view(CH, A(3))
        leaves, hashes = 1 << b, (1 << b) - 1 + HEIGHT - b
        k, r0 = 0, 0
        saved_ever = set()
        where = "compute_commitment_hash, batches of %d" % leaves
        while k < 80:
            H = W.handler("compute_commitment_hash", opaque=HASHING, cells={(hv, "batching_rate"): Int(b), (hv, "instruction"): Int(k), (hv, "round"): Int(r0)}, unroll=True)
            R.count("steps")
            if not H.ok:
                break
            n = None
            for p in H.ok:
                R.count("exits")
                R.need(p.holds(W.get(hv, "is_active")), "active", where, "only a started batch is hashed", p.site())
                r = p.final(CH + ".round", hv)
                ok = r is not None and r.op == "int" and r.a[0] > r0 and final_is(p, CH + ".instruction", hv, k + 1)
                R.need(ok, "counters", where, "step and round counters advance together", p.site())
                if not ok:
                    return
                m = r.a[0] - r0
                R.need(n in (None, m), "counters", where, "a step's work does not depend on the data", p.site())
                n = m
                # replay of the specified schedule
                saved = {}
                node = {}
                order = [x for x in p.sets() if x[0] in (CH + ".hash_tree", CH + ".above_hashes")]
                base, done, oi, good = W.get(hv, "state"), [], 0, True
                for rd in range(r0, r0 + m):
                    done.append(rd % 65)
                    if rd % 65 != 64:
                        continue
                    h = rd // 65
                    cell, ix = (CH + ".hash_tree", leaves + h) if h < leaves - 1 else (CH + ".above_hashes", h - (leaves - 1))
                    if oi >= len(order) or order[oi][0] != cell or order[oi][2] is not Int(ix) or order[oi][4]:
                        good = R.need(False, "node", where, "the result of hash j is stored as node j of the batch tree or of the path to the root", p.site(), "hash %d" % h)
                        break
                    val = order[oi][3]
                    oi += 1
                    st = hash_result(val)
                    c = chain(st) if st is not None else None
                    good = R.need(c is not None and c[1] == done and base_ok(p, c[0], base), "rounds", where, "hash j is the 65 rounds in order over its own inputs", p.site(), "hash %d" % h)
                    if not good:
                        break
                    node[(cell, ix)] = val
                    saved_ever.add(h)
                    R.count("hashes")
                    done = []
                    if h + 1 < hashes:
                        base = next_input(W, p, hv, b, h + 1, node)
                    else:
                        # the last hash leaves its own state
                        base, done = c[0], c[1]
                if not good:
                    return
                R.need(oi == len(order), "node", where, "no other node is stored", p.site())
                c = chain(p.final(CH + ".state", hv))
                R.need(c is not None and c[1] == done and base_ok(p, c[0], base), "inputs", where, "hash j takes the two nodes below it, or the node below and its sibling in the order of the leaf position", p.site(), "after round %d" % (r0 + m))
                for x in p.sets():
                    R.need(x[0] in (CH + ".hash_tree", CH + ".above_hashes", CH + ".state", CH + ".instruction", CH + ".round"), "nothing else", where, "a step changes nothing else", p.site(), x[0])
            r0 += n
            k += 1
        R.need(r0 == 65 * hashes and saved_ever == set(range(hashes)), "complete", where, "the steps together compute every hash of the batch exactly once", "", "%d steps, %d rounds" % (k, r0))
        # finalisation is only open afterwards
        fv = W.view(CH, A(0))
        H = W.handler("finalize_commitment_hash", cells={(fv, "batching_rate"): Int(b), (fv, "finalization_ix"): Int(0)}, unroll=True)
        for p in H.ok:
            ins = W.get(fv, "instruction")
            R.need(p.truth(lt(ins, Int(k))) is False and p.holds(W.get(fv, "is_active")), "finished", where, "the tree is only updated after the last step", p.site())
        R.need(bool(H.ok), "reachable", where, "a finished batch can be inserted", H.loc())
    return job


def base_ok(p, have, want):
    if isinstance(want, tuple):
        s = sponge(have)
        return s is not None and fr_of(p, s[0], want[0]) and fr_of(p, s[1], want[1])
    return want is not None and (have is want or p.same(have, want))


def next_input(W, p, hv, b, h, node):
    leaves = 1 << b

    def at(cell, ix):
        return node.get((CH + "." + cell, ix), N("idx", W.get(hv, cell), Int(ix)))
    if h < leaves - 1:
        return at("hash_tree", 2 * h), at("hash_tree", 2 * h + 1)
    i = h - (leaves - 1)
    left = at("hash_tree", 2 * leaves - 2) if i == 0 else at("above_hashes", i - 1)
    return above_input(W, p, hv, b, i, left)


@prop("C06", ("elusiv",), "specialised per batching rate and step: every hash of a batch is computed once from its two children, in order, and stored at its node")
def c06(R, W):
    """The hashing step is analysed once per batching rate 0..4 and per step (all 139 of them) with its loops unrolled; stored states are terms over the round function, compared with an independently replayed schedule of the batch tree (node 2^b+j has children 2j and 2j+1; above the batch the order of node and sibling follows the bits of the leaf position)."""
    parallel(R, [("rate %d" % b, tree_job(W, b)) for b in reversed(RATES)])
    R.floor("steps", 100)
    R.floor("hashes", 100)


def insert_job(W, b):
    def job(R):
        hv, sv = W.view(CH, A(0)), W.view(ST, A(1))
        o = W.get(hv, "ordering")
        leaves = 1 << b
        where = "finalize_commitment_hash, batches of %d" % leaves
        per = 83887
        for ix in range(b + 1):
            H = W.handler("finalize_commitment_hash", cells={(hv, "batching_rate"): Int(b), (hv, "finalization_ix"): Int(ix)}, unroll=True)
            R.count("steps")
            n_ok = 0
            for p in H.ok:
                if p.holds(eq(add(o, leaves), 0)):
                    continue  # a leaf position plus a batch size is not zero
                n_ok += 1
                want = {}

                def put(level, pos, val):
                    want[p.canon(add(pos, (1 << level) - 1))] = p.canon(val)

                def up(k):
                    return app("div", o, Int(1 << k)) if k else o
                # level ix of the batch tree
                first = sum(leaves >> j for j in range(ix))
                for i in range(leaves >> ix):
                    put(HEIGHT - ix, add(up(ix), i) if i else up(ix), N("idx", W.get(hv, "hash_tree"), Int(first + i)))
                if ix == b:
                    for i in range(HEIGHT - b):
                        put(HEIGHT - b - 1 - i, up(b + 1 + i), N("idx", W.get(hv, "above_hashes"), Int(i)))
                have = {}
                for w in child_writes(p, sv):
                    pos = located(p, w, 32, per)
                    R.need(pos is not None and not w[4], "node", where, "every write to the tree is one node at its own place", p.site(), nice(w[5]))
                    if pos is not None:
                        have[p.canon(pos)] = p.canon(w[3])
                R.count("nodes", len(have))
                miss = [nice(k) for k in want if have.get(k) is not want[k]]
                more = [nice(k) for k in have if k not in want]
                R.need(not miss and not more, "node", where, "exactly the batch's nodes are stored, each at its level and position", p.site(), "missing or different: %s; unexpected: %s" % (miss[:4], more[:4]))
                last = ix == b
                R.need(final_is(p, CH + ".finalization_ix", hv, ix + 1), "progress", where, "the insertion advances level by level", p.site())
                if last:
                    R.need(final_is(p, ST + ".next_commitment_ptr", sv, add(o, leaves)), "next leaf", where, "the next free leaf follows the batch", p.site())
                    R.need(final_is(p, CH + ".is_active", hv, 0) and final_is(p, CH + ".setup", hv, 0), "idle", where, "the computation is idle and needs new siblings", p.site())
                    hs = p.sets(ST + ".active_mt_root_history", sv)
                    R.need(len(hs) == 1 and p.same(hs[0][2], app("rem", o, Int(HISTORY))) and root_read(hs[0][3], sv), "root", where, "the new root is remembered", p.site(), nice(hs[0][3]) if hs else "")
                    c = p.final(ST + ".mt_roots_count", sv)
                    R.need(c is not None and is_succ(p, c, ST + ".mt_roots_count", sv), "root", where, "one more root is counted", p.site(), nice(c) if c is not None else "")
                allowed = {CH + ".finalization_ix"} | ({ST + ".next_commitment_ptr", CH + ".is_active", CH + ".setup", ST + ".active_mt_root_history", ST + ".mt_roots_count"} if last else set())
                for x in p.sets():
                    R.need(x[0] in allowed, "nothing else", where, "inserting changes nothing else", p.site(), x[0])
            R.need(n_ok >= 1, "reachable", where, "every level can be inserted", H.loc())
        H = W.handler("finalize_commitment_hash", cells={(hv, "batching_rate"): Int(b), (hv, "finalization_ix"): Int(b + 1)}, unroll=True)
        R.need(not H.ok, "once", where, "a batch is inserted once", H.loc())
    return job


def root_read(n, sv):
    """n is the root node read back from the tree"""
    if n.op in ("fld", "slice"):
        for x in walk(n):
            if x.op == "idx" and x.a[0].op == "fld" and x.a[0].a[1] == "child_accounts" and x.a[0].a[0] is sv:
                return x.a[1] is Int(0) and any((piece_of(s) or (0, 0, 0))[1:] == (Int(0), Int(32)) for s in (walk(n) if n.op == "fld" else [n]))
    return False


def is_succ(p, n, cell, view):
    """n == (the cell's value at some time) + 1"""
    d = dict(poly_dict(p.canon(n)))
    if d.pop((), 0) != 1 or len(d) != 1:
        return False
    (m, c), = d.items()
    return c == 1 and len(m) == 1 and m[0].op == "get" and short_cell(m[0].a[0]) == cell and m[0].a[1] is view


@prop("C07", ("elusiv",), "specialised per batching rate and level: the insertion writes exactly the batch's nodes at their level and position, then advances leaf pointer and root")
def c07(R, W):
    """The tree insertion is analysed once per batching rate and level with loops unrolled: each write into the tree's child accounts is located (child = index / 83887, offset = index % 83887) and the set of (node, value) pairs must be exactly the one the tree's definition gives for that leaf position."""
    parallel(R, [("rate %d" % b, insert_job(W, b)) for b in reversed(RATES)])
    R.floor("steps", 15)
    R.floor("nodes", 100)


WRITERS = {
    CH: {"open_single_instance_accounts", "init_commitment_hash_setup", "init_commitment_hash", "compute_commitment_hash", "finalize_commitment_hash", "reset_active_merkle_tree"},
    ST: {"finalize_commitment_hash", "reset_active_merkle_tree", "enable_storage_child_account"},
    CQ: {"finalize_base_commitment_hash", "init_commitment_hash", "finalize_verification_transfer_lamports", "finalize_verification_transfer_token", "reset_active_merkle_tree"},
    MQ: {"finalize_base_commitment_hash", "init_commitment_hash", "finalize_verification_transfer_lamports", "finalize_verification_transfer_token"},
    "MetadataAccount": {"init_commitment_hash", "create_new_accounts_v1", "enable_metadata_child_account"},
    "BaseCommitmentBufferAccount": {"store_base_commitment"},
    "CommitmentBufferAccount": {"init_verification", "finalize_verification_send"},
    BH: {"store_base_commitment", "compute_base_commitment_hash", "finalize_base_commitment_hash"},
}


def writers_job(W, h):
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        for p in H.ok:
            for x in p.sets():
                T = x[0].split(".")[0]
                R.count("stores")
                if T in WRITERS:
                    R.need(h in WRITERS[T], "writers", h, "only the instructions of the commitment pipeline change the %s" % T, p.site(), x[0])
            for v in p.views():
                T = v.a[0].split("::")[-1]
                if T in ("StorageAccount", "MetadataAccount") and child_writes(p, v):
                    R.need(h in WRITERS[T], "writers", h, "only the instructions of the commitment pipeline change the %s's nodes" % T, p.site())
    return job


@prop("C08", ("elusiv",), "over all instructions, who stores into the tree, the queues, the hashing computation and the remembered values")
def c08(R, W):
    """Effect inventory: every store of every successful exit of every instruction of the payment program is attributed to its account type; the tree, queues, hashing computation and remembered values may only be stored to by their own instructions."""
    parallel(R, [(h, writers_job(W, h)) for h in W.handler_names()])
    R.floor("handlers", 33)
    R.floor("stores", 40)


@prop("C09", ("elusiv",), "a successful deposit or withdrawal start has checked that its commitment is none of the remembered ones, and remembers it")
def c09(R, W):
    """Path facts and effects of deposit and withdrawal start: the value compared with all remembered values is the very value stored into the ring; the search function itself is analysed per length (0, 1, 2 entries, loops unrolled) to return nothing only when some byte differs in every entry."""
    H = W.handler("store_base_commitment", extra_pure=FIND)
    v = W.view("BaseCommitmentBufferAccount", A(13))
    val = fld(H.arg(2), "base_commitment.0")
    for p in H.ok:
        R.count("exits")
        R.need(absent(p, v, val), "duplicate", H.name, "a deposit whose base commitment is still remembered is refused", p.site(), p.describe())
        pushed(R, p, v, val, "remembered", H.name)
    H = W.handler("init_verification", extra_pure=FIND)
    v = W.view("CommitmentBufferAccount", A(7))
    for p in H.ok:
        R.count("exits")
        oc = fld(N("fld", N("as", H.arg(3), "Send"), "0"), "join_split.output_commitment")
        vals = [x[3] for x in p.sets("CommitmentBufferAccount.values", v)]
        ok = len(vals) == 1 and any(p.same(vals[0], x) for x in (fld(oc, "0"), app("elusiv::types::RawU256::reduce", oc)))
        R.need(ok, "remembered", H.name, "the new commitment of the withdrawal is what is remembered", p.site(), nice(N("args", *vals)))
        if vals:
            R.need(absent(p, v, vals[0]), "duplicate", H.name, "a withdrawal whose new commitment is still remembered is refused", p.site(), p.describe())
            pushed(R, p, v, vals[0], "remembered", H.name)
    R.floor("exits", 2)
    find_exact(R, W)


def find_exact(R, W):
    l = [f for f in W.P.fns.values() if f["name"].endswith("elusiv::bytes::find") and "[u8; 32]" in f["inst"]]
    R.need(len(l) == 1, "search", "bytes::find", "the search over 32-byte values exists", "", str(len(l)))
    if len(l) != 1:
        return
    bs = lambda t: [N("sym", "%s%d" % (t, j)) for j in range(32)]
    val = bs("value")
    # one entry; two entries the first of which differs in its first, second or last byte
    cases = [[], [bs("entry")]]
    for d in (0, 1, 31):
        cases.append([val[:d] + [None] + val[d + 1:], bs("entry")])
        cases.append([bs("entry"), val[:d] + [None] + val[d + 1:]])
    for case in cases:
        v, entries = list(val), []
        for e in case:
            for j, x in enumerate(e):
                if x is None:
                    v[j] = Int(7)
            entries.append([Int(9) if x is None else x for x in e])
        entries = [[v[j] if x is val[j] else x for j, x in enumerate(e)] for e in entries]
        E = proj.engine(W.P, opts={"unroll_all": True, "unroll_max": 200})
        rs = E.run_entry(l[0], [N("arr", *v), N("arr", *[x for e in entries for x in e]), Int(len(entries))])
        R.count("searches")
        for s, r in rs:
            R.count("search exits")

            def same_byte(i, j):
                return known(s, mk_eq(entries[i][j], v[j]))
            if r.op == "adt" and r.a[1] == "None":
                ok = all(any(same_byte(i, j) is False for j in range(32)) for i in range(len(entries)))
                R.need(ok, "search", "bytes::find", "nothing is found only when every entry differs in some byte", l[0]["span"], "%d entries" % len(entries))
            elif r.op == "adt" and r.a[1] == "Some" and r.a[2].op == "int":
                i = r.a[2].a[0]
                R.need(0 <= i < len(entries) and all(same_byte(i, j) is True for j in range(32)), "search", "bytes::find", "a found entry equals the value in all 32 bytes", l[0]["span"], "%d entries" % len(entries))
            else:
                R.need(False, "search", "bytes::find", "the result is an entry or nothing", l[0]["span"], show(r, 6))
    R.floor("search exits", 30)


# ---------------------------------------------------------------- the siblings of a batch
# the value of an empty subtree of height 0..20, Montgomery form, little endian: the first is
# poseidon(0, 0), each of the others the hash of the one before with itself
EMPTY = (
    "829a01fae4f8e22b1b4ca5ad5b54a5834ee098a77b735bd57431a7656d29a108",
    "50b4feaeb79752e57b182c6207a6984ebf5e6dc9d7e56c42889666509843b718",
    "f56fdd59a3fd78fbc066b31c20a0dc02d2fab63095664e87f2b2f0819e1cc22d",
    "6e58ea3b67b9d42ee340b22fcc79b87a8ce47a7a6d0404cb1d63fc16c0b95220",
    "2584ba0c4ab469e2d5d3c1e11b328a043f5cea0d1108539eec8c046b13bde31f",
    "c67b4a68ca203df0335e6fb6247a82963e5059ffa18e1af2cfb98581fea5aa00",
    "4dd60b46e179bc509022284c4ba37c9992b2e1b4f3261480dc18c2b346a9a01c",
    "4dc7695fdeb763e585c1fa1d235c42d196917acd8867cdcf20b5fca7594a3412",
    "363f05d4d2cca7b40d87546181acd14f1d21f9535c3d13c45dfbb32afaa3c516",
    "beab72b4311584a18d104dbf69ef69690840fd9fc40263b58122052478f08117",
    "e4f44df15cd40969d4f1bea1110ea66ba4e275ec3839ae243d72cd22f01f0d21",
    "b159372c0d35324c8f5fe23ff3fdf89901218d3d544eafaa115c08f2ddf6e205",
    "ed736191e841bed7a395136f9fa614613debec5500f7ad6ef4d347ebdfd2dc03",
    "cc5180e4ec4b20348de932af63145a84262d19dff70a7021004f908a3bbb0a14",
    "794af051ca62f7b8442b34b6a502719aa31a49ba3abeda8186008fbb48f1331d",
    "173f6cd904333bd65eff5ab013cdf034628a1a60c21e7cb9713b478716bddf15",
    "1869e4f7fb4386284462475025833eb5dfeed358e6599fb341e5ddcaa077021f",
    "ec6e0d9aabf53541d3d255ea5822dcd43ead632aa2aebb0ba8f0ca3394b88e22",
    "33fbba7f378f62141641f322f3f05d40161059883aeedbbd89f09388e3c70812",
    "4459addee6aafc4ee7227ea42bbb89f483feee8523a9afa0916e5e8366897328",
    "d7d0a92515d6f57edd30c2e9cfb11d1255a7f282d447074e720aad653c546d09",
)


def lin(p, n, pos, r, m):
    """value of an index term when the position `pos` is 2m + r: (factor of m, constant), or None"""
    n = p.canon(n)

    def val(x):
        if x is pos:
            return (2, r)
        if x.op == "int":
            return (0, x.a[0])
        if x.op == "poly":
            k, c = 0, 0
            for mono, f in poly_dict(x).items():
                if len(mono) > 1:
                    return None
                y = (0, 1) if not mono else val(mono[0])
                if y is None:
                    return None
                k, c = k + f * y[0], c + f * y[1]
            return (k, c)
        if x.op == "ite":
            t = truth(x.a[0])
            return None if t is None else val(x.a[1] if t else x.a[2])
        if x.op == "as" or x.op == "fld":
            return None
        if x.op in ("eq", "lt", "not", "and", "or"):
            t = truth(x)
            return None if t is None else (0, int(t))
        if x.op != "app":
            return None
        f, a = x.a[0], [val(y) if isinstance(y, Node) else None for y in x.a[1:]]
        if len(a) == 1 and str(f).startswith(("trunc_", "cast_")):
            return a[0]
        if len(a) != 2 or None in a:
            return None
        (k, c), (l, d) = a
        if f in ("add", "sub", "saturating_sub", "wrapping_sub", "wrapping_add", "saturating_add"):
            g = 1 if "add" in f else -1
            return (k + g * l, c + g * d) if "saturating" not in f or "add" in f or (k >= l and c >= d) else None
        if f == "mul" and (k == 0 or l == 0):
            return (k * d + l * c, c * d)
        if f in ("rem", "and", "bitand") and l == 0 and d == (2 if f == "rem" else 1) and k % 2 == 0:
            return (0, c % 2)
        if f in ("xor", "bitxor") and l == 0 and k % 2 == 0 and 0 <= c < 2 and 0 <= d < 2:
            return (k, c ^ d)
        if f in ("bitor", "or") and l == 0 and k % 2 == 0 and 0 <= c < 2 and 0 <= d < 2:
            return (k, c | d)
        if f in ("div", "shr") and l == 0 and d == (2 if f == "div" else 1) and k % 2 == 0:
            return (k // 2, c // 2)
        if f == "shl" and l == 0 and d < 8:
            return (k << d, c << d)
        return None

    def truth(c):
        if c.op == "int":
            return c.a[0] != 0
        if c.op == "not":
            t = truth(c.a[0])
            return None if t is None else not t
        if c.op == "eq":
            a, b = val(p.canon(c.a[0])), val(p.canon(c.a[1]))
            return a[1] == b[1] if a and b and a[0] == b[0] else None
        if c.op == "lt":
            a, b = val(p.canon(c.a[0])), val(p.canon(c.a[1]))
            return a[1] < b[1] if a and b and a[0] == b[0] else None
        return None
    return val(n)


def beside(p, n, pos):
    """n is the neighbour of pos: pos + 1 for an even one, pos - 1 for an odd one"""
    pos = p.canon(pos)
    return lin(p, n, pos, 0, None) == (2, 1) and lin(p, n, pos, 1, None) == (2, 0)


def filled(p, index, ptr, k):
    """is a node of the level k above the leaves known to have a used leaf below it (True), to have none (False), or is it open (None)?"""
    n = 1 << k
    used = p.truth(eq(ptr, 0))
    used = None if used is None else not used
    if used is None:
        used = p.truth(lt(0, ptr))
    if used is None and p.truth(lt(ptr, 1)) is not None:
        used = not p.truth(lt(ptr, 1))
    if used is False:
        return False
    if used and index is Int(0):
        return True
    # beyond the last used node
    last = p.truth(lt(app("div", sub(ptr, 1), Int(n)) if k else sub(ptr, 1), index))
    if last or last is False and used:
        return not last
    for y in (lt(mul(n, index), ptr), lt(app("shl", index, Int(k)), ptr), lt(index, app("div", add(ptr, n - 1), Int(n)))):
        if p.truth(y) is not None:
            return p.truth(y)
    return None


@prop("C10", ("elusiv",), "unrolled over the 20 levels and specialised per level: which node is stored as sibling, and what reading a node yields")
def c10(R, W):
    """The setup of a batch is analysed with its loop over the levels unrolled: the value stored as sibling of level i must be the node of level 20-i beside (position >> i), decided for an even and an odd position as linear terms. Reading a node is analysed once per level 0..20 with a symbolic index: it yields the empty subtree's value exactly if no used leaf lies below it, and otherwise the 32 bytes at its own place (child = index / 83887)."""
    sv, hv = W.view(ST, A(1)), W.view(CH, A(0))
    NODE = r"::StorageAccount(::)?<.*>::get_node$"
    H = W.handler("init_commitment_hash_setup", extra_opaque=[NODE], unroll=True, ite=True)
    full = 0
    for p in H.ok:
        if not p.sets():
            continue
        full += 1
        got = {}
        for x in p.sets(CH + ".siblings", hv):
            R.need(x[2] is not None and x[2].op == "int" and x[2].a[0] not in got, "sibling", H.name, "every sibling is stored once, at its level", p.site())
            if x[2] is not None and x[2].op == "int":
                got[x[2].a[0]] = x[3]
        R.need(set(got) == set(range(HEIGHT)), "sibling", H.name, "the siblings of all levels are stored", p.site(), sorted(got))
        for i, v in sorted(got.items()):
            v = p.canon(v)
            R.count("siblings")
            n = v.a[0].a[0] if v.op == "fld" and v.a[0].op == "as" and v.a[0].a[1] == "Ok" else None
            ok = n is not None and n.op == "app" and re.search(NODE, str(n.a[0])) and len(n.a) == 4 and n.a[1] is sv
            R.need(bool(ok), "sibling", H.name, "a sibling is a node read from the tree", p.site(), nice(v))
            if ok:
                R.need(p.canon(n.a[3]) is Int(HEIGHT - i), "sibling", H.name, "the sibling of a level is read from that level", p.site(), "level %d: %s" % (i, nice(n.a[3])))
                pos = p.canon(W.get(sv, "next_commitment_ptr"))
                pos = p.canon(app("div", pos, Int(1 << i))) if i else pos
                R.need(beside(p, n.a[2], pos), "sibling", H.name, "the sibling of a level is the node beside the path of the next free leaf", p.site(), "level %d: %s" % (i, nice(n.a[2])))
    R.need(full >= 1, "reachable", H.name, "the setup can succeed", H.loc())
    fns = [f for f in W.P.fns.values() if re.search(NODE, f["inst"])]
    R.need(len(fns) == 1, "anchor", ST, "the function that reads a node is found", "elusiv/src/state/storage.rs")
    ptr = W.get(sv, "next_commitment_ptr")
    for level in range(HEIGHT + 1) if len(fns) == 1 else ():
        index = N("sym", "index") if level else Int(0)
        G = W.handler(fns[0]["name"], args=[sv, index, Int(level)])
        k = HEIGHT - level
        where = "node of level %d" % level
        kinds = set()
        for p in G.ok:
            R.count("reads")
            v = p.canon(p.ret)
            f = filled(p, index, ptr, k)
            R.need(f is not None, "default", where, "reading a node asks whether a used leaf lies below it", p.site(), "; ".join(nice(x) for x, _ in facts_all(p))[:300])
            if f is None:
                continue
            kinds.add(f)
            x = v.a[2] if v.op == "adt" and v.a[1] == "Ok" else fld(N("as", v, "Ok"), "0")
            if not f:
                R.need(x.op == "bytes" and x.a[0] == EMPTY[k] or x.op == "arr" and all(y.op == "int" for y in x.a) and bytes(y.a[0] for y in x.a).hex() == EMPTY[k], "default", where, "an unused node has the value of an empty subtree of its height", p.site(), nice(x))
            else:
                at = add(index, (1 << level) - 1) if level else Int(0)
                R.need(node_at(p, x, sv, at), "place", where, "a used node is read from its own place", p.site(), nice(x))
        R.need(kinds == {True, False}, "reachable", where, "both used and unused nodes can be read", G.loc())
    R.floor("siblings", HEIGHT)
    R.floor("reads", 2 * (HEIGHT + 1))


def node_at(p, x, sv, at):
    """x is read from the 32 bytes of node `at` in the tree's child accounts"""
    for s in walk(x):
        c = piece_of(s) if s.op == "slice" else None
        if c is None or c[2] is None:
            continue
        q = [y for y in walk(s.a[0]) if y.op == "idx" and y.a[0].op == "fld" and y.a[0].a[1] == "child_accounts" and y.a[0].a[0] is sv]
        if len(q) != 1:
            continue
        return p.same(q[0].a[1], app("div", at, Int(83887))) and p.same(c[1], mul(32, app("rem", at, Int(83887)))) and p.same(sub(c[2], c[1]), Int(32))
    return False
