"""Withdrawals: start, verification, finalisation."""
import itertools
from .lib import *
from .. import proj
from .commitment import (FIND, SCALAR_MODULUS, MONT, POSEIDON_00_0, POSEIDON_0_0, BUFLEN, ST, CQ, MQ, final_is, enqueued, request_fields, root_read, pushed, absent, compared)

VA = "VerificationAccount"
ARITY, TREES, INPUTS = 4, 2, 14
# which inputs of a request name a root of their own; the others spend from the first tree
SHAPES = [s for n in range(1, ARITY + 1) for s in itertools.product((1, 0), repeat=n) if s[0] and sum(s) <= TREES]
BAD_SHAPES = [()] + [s for n in range(1, ARITY + 1) for s in itertools.product((1, 0), repeat=n) if not s[0] or sum(s) > TREES] + [(1, 0, 0, 0, 0)]
SEND_DATA = "processor::proof::FinalizeSendData"


def record(W, short, base, **over):
    """a value of the struct with some fields given and the others those of base"""
    full = W.full(short)
    v = W.P.adts[full]["variants"][0]
    return N("adt", full, v[0], *[over[f[0]] if f[0] in over else fld(base, f[0]) for f in v[2]])


def shaped(W, shape, base=None):
    """a withdrawal request whose number of inputs and of named roots is fixed, everything else arbitrary"""
    b = N("fld", N("as", base or N("sym", "request"), "Send"), "0")
    ins = []
    for i, own in enumerate(shape):
        root = N("adt", "std::option::Option", "Some", N("sym", "root%d" % i)) if own else N("adt", "std::option::Option", "None")
        ins.append(record(W, "InputCommitment", N("sym", "input%d" % i), root=root, nullifier_hash=N("sym", "nullifier%d" % i)))
    js = record(W, "JoinSplitPublicInputs", fld(b, "join_split"), input_commitments=N("arr", *ins))
    return N("adt", W.full("ProofRequest"), "Send", record(W, "SendPublicInputs", b, join_split=js))


def body(req, n):
    return fld(N("fld", N("as", N("sym", "request"), "Send"), "0"), n)


def js(n):
    return body(None, "join_split." + n)


def trees_of(shape):
    """index of the tree each input spends from"""
    out, k = [], -1
    for own in shape:
        k += own
        out.append(k if own else 0)
    return out


def start(W, shape, **kw):
    names = ("verification_account_index", "vkey_id", "tree_indices", None, "skip_nullifier_pda")
    args = [ACCOUNTS] + [shaped(W, shape) if n is None else N("sym", n) for n in names]
    return W.handler("init_verification", args=args, extra_pure=FIND, unroll=12, **kw)


def reduced(n):
    return app("elusiv::types::RawU256::reduce", n)


def const_bytes(n):
    """value of a constant 32-byte string, little endian"""
    if n.op == "bytes":
        return int.from_bytes(bytes.fromhex(n.a[0]), "little")
    if n.op == "arr" and all(isinstance(x, Node) and x.op == "int" for x in n.a):
        return int.from_bytes(bytes(x.a[0] & 255 for x in n.a), "little")
    return None


def differs_from(p, raw, value):
    return any(f.op == "eq" and not pol and value in (compared(p, f.a[0], f.a[1], raw), compared(p, f.a[1], f.a[0], raw)) for f, pol in facts_all(p))


def root_current(p, r, sv):
    """the reduced root r is the active tree's current root, or one of those it remembers"""
    W = p.H.W
    for f, pol in facts_all(p):
        if f.op == "eq" and pol:
            for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if p.same(a, r):
                    if root_read(b, sv):
                        return True
                    # the empty tree has one root
                    if is_const(b) and p.holds(eq(W.get(sv, "next_commitment_ptr"), 0)):
                        return True
        if f.op == "is" and pol and f.a[1] == "Some" and f.a[0].op == "app" and str(f.a[0].a[0]).endswith("bytes::find"):
            _, x, sl, n = f.a[0].a
            if p.same(x, r) and sl.op == "slice" and sl.a[0].op == "fld" and sl.a[0].a[0] is sv and sl.a[0].a[1] == "active_mt_root_history" and sl.a[1] is Int(0):
                c = app("min", W.get(sv, "mt_roots_count"), Int(100))
                if p.same(sl.a[2], mul(32, c)):
                    return True
    return False


def spendable(p, nv, x):
    """the nullifier account accepts the nullifier hash x"""
    for f, pol in facts_all(p):
        if pol and f.op == "fld" and f.a[1] == "0" and f.a[0].op == "as" and f.a[0].a[1] == "Ok":
            c = f.a[0].a[0]
            if c.op == "app" and "can_insert_nullifier_hash" in str(c.a[0]) and c.a[1] is nv and p.same(c.a[2], x):
                return True
    return False


def distinct_trees(p):
    ti = N("sym", "tree_indices")
    if p.truth(eq(N("idx", ti, Int(0)), N("idx", ti, Int(1)))) is False:
        return True
    for f, pol in facts_all(p):
        if pol and f.op == "eq":
            for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if b.op == "app" and "Set" in str(b.a[0]) and str(b.a[0]).endswith("::len") and any(x is ti for x in walk(b)) and (a is Int(2) or (a.op == "len" and a.a[0] is ti) or (a.op == "app" and a.a[0] == "len" and a.a[1] is ti)):
                    return True
    return False


def start_job(W, shape):
    def job(R):
        H = start(W, shape)
        w = "%s, inputs %s" % (H.name, "".join("R" if x else "-" for x in shape))
        sv = W.view(ST, A(6))
        t = trees_of(shape)
        R.count("shapes")
        R.count("exits", len(H.ok))
        R.need(len(H.ok) >= 1, "reachable", w, "such a withdrawal can be started", H.loc())
        act = W.get(sv, "trees_count")
        ti = lambda k: N("idx", N("sym", "tree_indices"), Int(k))
        for p in H.ok:
            need = lambda rule, what, c: R.need(bool(c), rule, w, what, p.site(), p.describe())
            need("verifying key", "the verifying key is set up", p.truth(eq(W.get(W.view("VKeyAccount", A(2)), "version"), 0)) is False)
            need("verifying key", "the verifying key is the one of the request's kind", p.holds(eq(H.arg(1), 0)) and derived(W, p, A(2), "VKeyAccount", None, u32le(H.arg(1))))
            need("amount", "amount and fee together are the proven amount without wrapping", p.holds(app("nowrap", N("str", "u64"), add(js("amount"), js("fee")))) or nowrap(p, add(js("amount"), js("fee"))))
            need("amount", "the optional fee is part of the amount", p.truth(lt(js("amount"), js("optional_fee.amount"))) is False)
            need("output", "the new commitment is not the empty commitment", differs_from(p, js("output_commitment"), POSEIDON_00_0))
            nx, rec = W.get(sv, "next_commitment_ptr"), js("recent_commitment_index")
            need("recent index", "the recent commitment index lies within the window of remembered commitments", p.truth(lt(nx, rec)) is False and p.holds(lt(sub(nx, rec), Int(BUFLEN))))
            for i, own in enumerate(shape):
                if own:
                    r = reduced(N("sym", "root%d" % i))
                    nv = W.view("NullifierAccount", A(8 + t[i]))
                    if p.holds(eq(ti(t[i]), act)):
                        need("root", "the root of an input in the active tree is one of that tree", root_current(p, r, sv))
                    else:
                        need("root", "the root of an input in a closed tree is that tree's root", p.truth(eq(ti(t[i]), act)) is False and p.holds(eq(r, W.get(nv, "root"))))
                x = N("sym", "nullifier%d" % i)
                need("unspent", "every nullifier is unspent in the tree its input belongs to", spendable(p, W.view("NullifierAccount", A(8 + t[i])), reduced(x)))
                need("tree", "the nullifier account is the one of the named tree", derived(W, p, A(8 + t[i]), "NullifierAccount", None, u32le(ti(t[i]))))
                for j in range(i):
                    if t[i] == t[j]:
                        need("double", "no nullifier occurs twice in one tree", p.truth(eq(x, N("sym", "nullifier%d" % j))) is False or p.truth(eq(fld(x, "0"), fld(N("sym", "nullifier%d" % j), "0"))) is False)
            if sum(shape) > 1:
                need("trees", "two named roots are of two different trees", distinct_trees(p))
    return job


def nowrap(p, x):
    x = p.canon(x)
    for f, pol in facts_all(p):
        if pol and f.op in ("nowrap", "app") and "nowrap" in show(f, 1) and any(isinstance(c, Node) and p.canon(c) is x for c in f.a):
            return True
    return False


@prop("T01", ("elusiv",), "every successful start of a withdrawal, analysed per number of inputs and named roots, carries the guards on key, amounts, roots, nullifiers and trees")
def t01(R, W):
    """The start of a withdrawal is analysed once for each shape of request (1 to 4 inputs, each naming a root or not; loops unrolled): every successful exit must have taken the specified comparisons with the specified outcome, shapes outside the specification must have no successful exit."""
    parallel(R, [(str(s), start_job(W, s)) for s in SHAPES])
    for s in BAD_SHAPES:
        H = start(W, s)
        R.count("shapes")
        R.need(not H.ok, "refused shape", H.name, "requests without first root, with too many roots or with too few or too many inputs are refused", H.loc(), str(s))
    H = W.handler("init_verification", extra_pure=FIND)
    for p in H.ok:
        R.need(p.holds(mk_is(H.arg(3), "Send")), "kind", H.name, "only withdrawals can be started", p.site())
    R.floor("shapes", 20)
    R.floor("exits", 15)


def signals(shape):
    """the public signals of the circuit, in order"""
    z = [None] * (ARITY - len(shape))
    u = lambda n: app("elusiv::fields::u64_to_u256_skip_mr", n)
    return [N("sym", "nullifier%d" % i) for i in range(len(shape))] + z + [N("sym", "root%d" % i) if own else None for i, own in enumerate(shape)] + z + \
        [u(add(js("amount"), js("fee"))), js("output_commitment"), u(js("recent_commitment_index")), u(js("fee_version")), u(js("token_id")), body(None, "hashed_inputs")]


def is_signal(p, n, want):
    """n holds the bytes of the wanted signal"""
    if n.op == "slice" and n.a[1] is Int(0) and n.a[2] is Int(32):
        n = n.a[0]
    if n.op == "adt" and len(n.a) == 3 and str(n.a[0]).endswith("RawU256"):
        n = n.a[2]
    if want is None:
        return const_bytes(n) == 0
    return p.same(n, want) or p.same(n, fld(want, "0"))


def public_inputs_written(p, v):
    """{offset: bytes term} of the writes into the stored public inputs"""
    out = {}
    for e, ls in p.flat():
        if e.a[0] == "copy_into" and any(x.op == "fld" and x.a[0] is v and x.a[1] == "public_input" for x in walk(e.a[1])):
            d = e.a[1]
            lo, hi = (d.a[1], d.a[2]) if d.op == "slice" else (None, None)
            if ls or lo is None or lo.op != "int" or hi is not Int(lo.a[0] + 32) or lo.a[0] % 32 or lo.a[0] in out:
                return None
            out[lo.a[0]] = e.a[2]
    for x in p.sets(VA + ".public_input", v):
        if x[4] or x[2] is None or x[2].op != "int":
            return None
        out[32 * x[2].a[0]] = x[3]
    return out


def instructions_of(p, n, shape, vk):
    """n is the schedule of the public-input preparation for exactly the request's signals"""
    if not (n.op == "app" and str(n.a[0]).endswith("prepare_public_inputs_instructions") and len(n.a) == 3):
        return False
    l = n.a[1]
    sig = signals(shape)
    return l.op == "arr" and len(l.a) == len(sig) and all(is_signal(p, x, y) for x, y in zip(l.a, sig)) and any(x.op == "get" and x.a[0].endswith("public_inputs_count") and x.a[1] is vk for x in walk(n.a[2]))


def recorded_job(W, shape):
    def job(R):
        H = start(W, shape, opaque=None)
        w = "%s, inputs %s" % (H.name, "".join("R" if x else "-" for x in shape))
        v = W.view(VA, A(1))
        vk = W.view("VKeyAccount", A(2))
        R.count("shapes")
        R.count("exits", len(H.ok))
        names = [f[0] for f in W.P.adts[W.full("VerificationAccountData")]["variants"][0][2]]
        for p in H.ok:
            R.need(final_is(p, VA + ".vkey_id", v, H.arg(1)), "recorded", w, "the verification records its verifying key", p.site())
            rq = p.final(VA + ".request", v)
            R.need(rq is not None and p.same(rq, H.arg(3)), "recorded", w, "the verification records the request itself", p.site(), nice(rq) if rq is not None else "")
            pi = public_inputs_written(p, v)
            sig = signals(shape)
            ok = pi is not None and sorted(pi) == [32 * i for i in range(INPUTS)] and all(is_signal(p, pi[32 * i], s) for i, s in enumerate(sig))
            R.need(ok, "public inputs", w, "the public inputs to be verified are exactly the request's, in the order of the circuit", p.site(), "; ".join(nice(pi[k])[:40] for k in sorted(pi)) if pi else str(pi))
            ts = p.sets(VA + ".tree_indices", v)
            ti = N("sym", "tree_indices")
            if len(ts) == 1 and ts[0][4]:
                ok = ts[0][2].op == "ivar" and p.same(ts[0][3], N("idx", ti, ts[0][2])) and ts[0][2].a[1] is Int(0) and ts[0][2].a[2] in (Int(TREES), N("len", ti), app("len", ti))
            else:
                ok = {x[2]: x[3] for x in ts} == {Int(k): N("idx", ti, Int(k)) for k in range(TREES)}
            R.need(ok, "recorded", w, "the verification records the trees the inputs belong to", p.site(), str([nice(x[3]) for x in ts]))
            n = p.final(VA + ".prepare_inputs_instructions_count", v)
            lst = next((x for x in walk(n) if x.op == "app" and str(x.a[0]).endswith("prepare_public_inputs_instructions")), None) if n is not None else None
            R.need(lst is not None and instructions_of(p, lst, shape, vk) and p.same(n, N("len", lst)) or (lst is not None and instructions_of(p, lst, shape, vk) and p.same(n, app("len", lst))),
                   "schedule", w, "the number of preparation steps is the one of these public inputs", p.site(), nice(n) if n is not None else "")
            ss = p.sets(VA + ".prepare_inputs_instructions", v)
            ok = lst is not None and len(ss) >= 1 and all(x[2] is not None and any(y is lst for y in walk(x[3])) and any(y.op == "idx" and y.a[0] is lst and y.a[1] is x[2] for y in walk(x[3])) for x in ss)
            R.need(ok, "schedule", w, "step i of the preparation is the i-th of its schedule", p.site(), str([nice(x[3]) for x in ss])[:300])
            d = p.final(VA + ".other_data", v)
            ok = d is not None and d.op == "adt"
            if ok:
                f = dict(zip(names, d.a[2:]))
                R.need(p.same(f["fee_payer"], bytes_of(key(A(0)))) or p.same(fld(f["fee_payer"], "0"), bytes_of(key(A(0)))), "recorded", w, "the verification records who started it", p.site(), nice(f["fee_payer"]))
                R.need(p.same(f["skip_nullifier_pda"], H.arg(4)) or (p.truth(H.arg(4)) is not None and f["skip_nullifier_pda"] is Int(int(p.truth(H.arg(4))))), "recorded", w, "the verification records whether it holds the lock on its nullifiers", p.site(), nice(f["skip_nullifier_pda"]))
                R.need(f["recipient_wallet"].op == "adt" and f["recipient_wallet"].a[1] == "None", "recorded", w, "no recipient is recorded yet", p.site())
            else:
                R.need(False, "recorded", w, "the verification records who started it", p.site())
            allowed = {VA + "." + x for x in ("vkey_id", "request", "public_input", "tree_indices", "prepare_inputs_instructions_count", "prepare_inputs_instructions", "other_data")}
            for x in p.sets():
                R.need(x[0] in allowed and x[1] is v or x[0].startswith("CommitmentBufferAccount."), "nothing else", w, "starting a withdrawal changes nothing else", p.site(), x[0])
    return job


@prop("T02", ("elusiv",), "a started withdrawal stores exactly the request, its public inputs in circuit order, their schedule, key, trees and relayer (analysed per request shape)")
def t02(R, W):
    """Effects of every successful start of a withdrawal, analysed per request shape with loops unrolled: the final value of each field of the verification account must be the specified term of the request; no other field is stored."""
    parallel(R, [(str(s), recorded_job(W, s)) for s in SHAPES])
    R.floor("shapes", 10)
    R.floor("exits", 15)


# ---------------------------------------------------------------- life cycle

STEPS = {   # instruction -> (position of the verification account, required state, states it may leave)
    "init_verification_transfer_fee": (9, "None", {"FeeTransferred"}),
    "init_verification_proof": (1, "FeeTransferred", {"ProofSetup"}),
    "compute_verification": (1, None, set()),
    "finalize_verification_send": (5, "ProofSetup", {"InsertNullifiers", "Finalized"}),
    "finalize_verification_insert_nullifier": (1, "InsertNullifiers", {"Finalized"}),
    "finalize_verification_transfer_lamports": (7, "Finalized", {"Closed"}),
    "finalize_verification_transfer_token": (11, "Finalized", {"Closed"}),
}
STATES = ["None", "FeeTransferred", "ProofSetup", "InsertNullifiers", "Finalized", "Closed"]
FIELD_WRITERS = {
    "state": set(STEPS) - {"compute_verification"},
    "is_verified": {"compute_verification"},
    "request": {"init_verification"}, "public_input": {"init_verification"}, "tree_indices": {"init_verification"}, "vkey_id": {"init_verification"},
    "prepare_inputs_instructions": {"init_verification"}, "prepare_inputs_instructions_count": {"init_verification"},
    "other_data": {"init_verification", "init_verification_transfer_fee", "finalize_verification_send"},
    "a": {"init_verification_proof"}, "b": {"init_verification_proof"}, "c": {"init_verification_proof"},
    "instruction": {"compute_verification", "finalize_verification_send", "finalize_verification_insert_nullifier"},
    "round": {"compute_verification"}, "step": {"compute_verification"}, "prepared_inputs": {"compute_verification"}, "r": {"compute_verification"},
    "f": {"compute_verification"}, "alt_b": {"compute_verification"}, "coeff_index": {"compute_verification"}, "rams": {"compute_verification"},
}


def rooted(n):
    """(view, field) when n is a place inside a lazily read field of an account"""
    f = None
    for _ in range(4000):
        if n.op in ("fld", "idx", "slice", "as"):
            if n.op == "fld" and isinstance(n.a[0], Node) and n.a[0].op == "view":
                f = n.a[1]
            n = n.a[0]
        elif n.op == "out" and n.a[0].op == "app" and isinstance(n.a[1], int) and n.a[1] + 1 < len(n.a[0].a):
            n = n.a[0].a[n.a[1] + 1]
        else:
            break
    return (n, f) if n.op == "view" and f is not None else None


def bare(n):
    """the account a view with lazily written fields belongs to"""
    while True:
        if n.op == "upd":
            n = n.a[0]
        elif n.op == "out" and n.a[0].op == "app" and str(n.a[0].a[0]).endswith("::serialize_rams") and n.a[1] == 0:
            n = n.a[0].a[1]
        else:
            return n


def sets_of(p, cell, v):
    """stores into a field of v, also after lazily written fields changed"""
    return [x for x in p.sets(cell) if bare(x[1]) is v]


def stores_of(p, T):
    """(field, event) of every store of p into a field of an account of type T, also into parts of a lazily read field"""
    out = []
    for e, ls in p.flat():
        k = e.a[0]
        if k == "set":
            c = short_cell(e.a[1])
            if c.startswith(T + "."):
                out.append((c.split(".")[1], e))
            continue
        for t in ([e.a[1]] if k in ("write", "copy_into") else list(e.a[2].a) if k == "call" else []):
            r = rooted(t)
            if r and r[0].a[0].split("::")[-1] == T:
                out.append((r[1], e))
    return out


def life_job(W, h):
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        for p in H.ok:
            for f, e in stores_of(p, VA):
                R.count("stores")
                R.need(h in FIELD_WRITERS.get(f, ()), "writers", h, "a withdrawal's %s is changed only by the instructions whose task it is" % f, p.site())
        if h not in STEPS:
            return
        acct, before, after = STEPS[h]
        v = W.view(VA, A(acct))
        st = W.get(v, "state")
        R.need(len(H.ok) >= 1, "reachable", h, "the instruction can succeed", H.loc())
        R.count("steps")
        for p in H.ok:
            R.count("exits")
            if before is not None:
                ok = p.holds(mk_is(st, before)) or all(p.truth(mk_is(st, x)) is False for x in STATES if x != before)
                R.need(ok, "order", h, "the instruction runs only in the state %s of the withdrawal" % before, p.site(), p.describe())
            for c, w, i, val, ls, fn, e in p.sets(VA + ".state"):
                ok = bare(w) is v and i is None and val.op == "adt" and val.a[1] in after
                R.need(ok, "order", h, "the withdrawal advances to the next state only", p.site(), nice(val))
            if after == {"Closed"} or before in ("None", "FeeTransferred", "ProofSetup"):
                R.need(bool(sets_of(p, VA + ".state", v)), "order", h, "the withdrawal leaves the state it was in", p.site(), p.describe())
    return job


@prop("T03", ("elusiv",), "over all instructions: required and stored state of a verification account, and who stores into which of its fields")
def t03(R, W):
    """Typestate and effect inventory: on every successful exit of every instruction the verification's state is a path fact and the only state stored is the next one; each field of the verification account is stored to by its own instructions only."""
    parallel(R, [(h, life_job(W, h)) for h in W.handler_names()])
    R.floor("handlers", 33)
    R.floor("stores", 40)
    R.floor("steps", 7)
    R.floor("exits", 15)


# --- T04: the stepwise proof verification ---
PARTIAL = r"^elusiv::proof::verifier::(?!verify_partial)\w+_partial\b"
LAZY_GET, LAZY_SET = r"^elusiv::types::Lazy(::)?<.*>::get$", r"^elusiv::types::Lazy(::)?<.*>::set$"
VKEY_FNS = r"^elusiv::proof::vkey::VerifyingKey(::)?<.*>::(new|alpha_beta)$"
ROUNDS = {"CombinedMillerLoop": "combined_miller_loop_partial", "FinalExponentiation": "final_exponentiation_partial"}
PREP = "PublicInputPreparation"


def verifying(W, step, k=None, r=None):
    v = W.view(VA, A(1))
    cells = {(v, "step"): N("adt", W.full("VerificationStep"), step)}
    if k is not None:
        cells[(v, "instruction")] = Int(k)
        cells[(v, "round")] = Int(r)
    op = [x for x in proj.OPAQUE if "verifier" not in x] + [PARTIAL, r"serialize_rams$", VKEY_FNS, LAZY_SET]
    return W.handler("compute_verification", opaque=op, pure=proj.PURE + [LAZY_GET], cells=cells, unroll=True)


def lazy(v, name):
    return app("elusiv::types::Lazy::<'a, N>::get", fld(v, name))


def is_lazy(n, v, name):
    """n is the stored value of a lazily read field of the account"""
    while n.op == "fld" and n.a[1] == "0":
        n = n.a[0]
    return n.op == "app" and re.search(LAZY_GET, str(n.a[0])) and n.a[1].op == "fld" and n.a[1].a[1] == name and bare(n.a[1].a[0]) is v


def the_vkey(W, n):
    """the verifying key read from the active key data of the passed account"""
    k = W.view("VKeyAccount", A(2))
    while n.op == "fld" and n.a[1] == "0" or n.op == "as" and n.a[1] == "Some":
        n = n.a[0]
    if n.op != "app" or not re.search(r"VerifyingKey.*::new$", str(n.a[0])):
        return False
    d, c = n.a[1], n.a[2]
    ch = [x for x in walk(d) if x.op == "idx" and x.a[0].op == "fld" and x.a[0].a[1] == "child_accounts"]
    ok = len(ch) == 1 and ch[0].a[0].a[0] is k and ch[0].a[1] is Int(0)
    # behind the first byte of the child account
    ok = ok and contents(d) is not None and any(x is ch[0] for x in walk(contents(d)))
    return ok and c.op == "get" and c.a[0].endswith("VKeyAccount.public_inputs_count") and c.a[1] is k


def lazy_sets(p, v):
    """values stored into lazily read fields of v: [(field, value)]"""
    out = []
    for nme, a, ls, e in p.calls(LAZY_SET):
        if a[0].op == "fld" and bare(a[0].a[0]) is v:
            out.append((a[0].a[1], a[1]))
        else:
            out.append(("?", a[0]))
    return out


def calls_to(x, call):
    """x is the value of that call"""
    return x.op == "app" and x.a[0] == call[0] and [y for y in x.a[1:] if y.op != "ver"] == call[1]


def failed_part(p, calls):
    """one of the rounds of this instruction failed or gave no result"""
    for f, pol in facts_all(p):
        if f.op == "is" and ((f.a[1] in ("Ok", "Some") and not pol) or (f.a[1] in ("Err", "None") and pol)):
            x = f.a[0]
            while x.op in ("as", "fld"):
                x = x.a[0]
            if any(calls_to(x, c) for c in calls):
                return True
    return False


def result_of(n, call):
    """n is the value the call returned in Ok(Some(_)) or Some(_)"""
    tags = []
    while n.op in ("fld", "as"):
        if n.op == "as":
            tags.append(n.a[1])
        elif n.a[1] != "0":
            return False
        n = n.a[0]
    return calls_to(n, call) and tags in (["Some", "Ok"], ["Some"])


def verdict_of(p, v):
    s = sets_of(p, VA + ".is_verified", v)
    if not s:
        return None
    return s[-1][3] if len(s) == 1 and not s[0][4] else False


def is_some_false(n):
    return n.op == "adt" and n.a[1] == "Some" and n.a[2] is Int(0)


def common(R, W, H, w):
    v, k = W.view(VA, A(1)), W.view("VKeyAccount", A(2))
    R.need(len(H.ok) >= 1, "reachable", w, "the computation can proceed", H.loc())
    for p in H.ok:
        R.count("exits")
        need = lambda rule, what, c: R.need(bool(c), rule, w, what, p.site(), p.describe())
        need("key", "only a verifying key that is set up is used", p.truth(eq(W.get(k, "version"), 0)) is False)
        need("key", "the verifying key is the one recorded when the withdrawal started", p.holds(eq(W.get(v, "vkey_id"), N("sym", "vkey_id"))) and derived(W, p, A(2), "VKeyAccount", None, u32le(N("sym", "vkey_id"))))
        need("verdict", "a verdict is never replaced", p.truth(is_some(W.get(v, "is_verified"))) is False or p.holds(mk_is(W.get(v, "is_verified"), "None")))


def prep_job(W):
    def job(R):
        H = verifying(W, PREP)
        w = "compute_verification, " + PREP
        v = W.view(VA, A(1))
        k, r = W.get(v, "instruction"), W.get(v, "round")
        common(R, W, H, w)
        rounds = N("idx", fld(v, "prepare_inputs_instructions"), k)
        seen = set()
        for p in H.ok:
            need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
            cs = [c for c in p.calls(PARTIAL)]
            ls = lazy_sets(p, v)
            s = {c[0].split(".")[1]: c[3] for c in p.sets() if bare(c[1]) is v}
            if not cs:
                need("order", "an instruction without computation changes nothing", not s and not ls)
                continue
            c = cs[0]
            need("order", "an instruction prepares exactly the scheduled rounds", len(cs) == 1 and not c[2] and c[0].endswith("prepare_public_inputs_partial")
                 and p.same(c[1][0], r) and c[1][1] is N("idx", W.get(v, "prepare_inputs_instructions"), k) and c[1][2] is v and the_vkey(W, c[1][3]), N("args", *c[1]))
            if "is_verified" in s:
                need("verdict", "a failing preparation rejects the proof", is_some_false(s["is_verified"]) and failed_part(p, cs))
                need("verdict", "a failing preparation changes nothing else", set(s) == {"is_verified"} and not ls)
                seen.add("failed")
                continue
            # 33 rounds for each public input of the key
            total = p.truth(eq(add(r, c[1][1]), mul(33, N("fld", c[1][3], "public_inputs_count"))))
            need("saved", "intermediate values are kept for the next instruction", p.calls("serialize_rams$"))
            if "step" in s:
                seen.add("done")
                need("order", "the preparation is complete only after all rounds of all public inputs", total is True)
                need("result", "the result of the preparation is what the pairing uses", [f for f, x in ls] == ["prepared_inputs"] and result_of(unwrap(ls[0][1]), c))
                need("order", "the pairing starts with its first round", s["step"].op == "adt" and s["step"].a[1] == "CombinedMillerLoop" and s.get("round") is Int(0) and s.get("instruction") is Int(0) and len(s) == 3)
            else:
                seen.add("more")
                need("order", "the next instruction continues where this one stopped", set(s) == {"round", "instruction"} and p.same(untrunc(s["round"]), add(r, c[1][1])) and p.same(untrunc(s["instruction"]), add(k, 1)) and not ls)
                need("order", "the preparation goes on only while rounds are left", total is False)
        R.need(seen == {"failed", "done", "more"}, "reachable", w, "the preparation continues, completes and can fail", H.loc(), str(seen))
    return job


def unwrap(n):
    while n.op == "adt" and len(n.a) == 3:
        n = n.a[2]
    return n


def untrunc(n):
    """the fields counting rounds and instructions have 32 bits themselves"""
    if n.op == "app" and n.a[0] == "trunc_u32" and n.a[1].op == "get":
        return n.a[1]
    if n.op == "app" and n.a[0] == "add":
        return add(untrunc(n.a[1]), untrunc(n.a[2]))
    if n.op == "poly":
        d = poly_dict(n)
        return poly_node({tuple(untrunc(x) for x in m): c for m, c in d.items()})
    return n


def split_chain(W, step, n):
    """starting points (instruction, round) that divide the chain of a step, from the compiled table; each part proves that it reaches the next"""
    tab = [c for c in W.P.consts if c[0].endswith("::INSTRUCTION_ROUNDS") and str(c[2]).endswith("::" + step) and c[4][0] == "bytes"]
    pts = [(0, 0)]
    if len(tab) == 1:
        rs = list(bytes.fromhex(tab[0][4][1]))
        cut = max(1, -(-sum(rs) // n))
        at = 0
        for k, r in enumerate(rs):
            if at - pts[-1][1] >= cut:
                pts.append((k, at))
            at += r
    return list(zip(pts, pts[1:] + [None]))


def table_job(W, step, what, first, last):
    """the chain of all instructions of one step, from its first round (or the first of this part) on"""
    def job(R):
        v = W.view(VA, A(1))
        k, r = first
        done = False
        while k < 400:
            if last is not None and k >= last[0]:
                R.need((k, r) == last, "order", "compute_verification, " + step, "the parts of the step join", "", "%s %s" % (k, r))
                return
            H = verifying(W, step, k, r)
            w = "compute_verification, " + step
            common(R, W, H, w)
            R.count("instructions")
            nxt, done, seen = set(), False, set()
            for p in H.ok:
                need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
                cs = p.calls(PARTIAL)
                ls = lazy_sets(p, v)
                s = {c[0].split(".")[1]: c[3] for c in p.sets() if bare(c[1]) is v}
                if not cs:
                    need("order", "an instruction without computation changes nothing", not s and not ls)
                    continue
                n = len(cs)
                need("order", "an instruction computes consecutive rounds starting with the next one", all(not c[2] and c[0].endswith(ROUNDS[step]) and c[1][0] is Int(r + i) for i, c in enumerate(cs)), N("args", *[c[1][0] for c in cs]))
                need("inputs", "each round works on the stored proof and the recorded key", all(what(W, p, v, cs, i) for i in range(n)), N("args", *cs[-1][1]))
                verdict = s.get("is_verified")
                if verdict is not None and is_some_false(verdict):
                    seen.add("failed")
                    need("verdict", "a proof is rejected without comparison only when its computation fails", failed_part(p, cs))
                    continue
                need("saved", "intermediate values are kept for the next instruction", p.calls("serialize_rams$"))
                if step == "CombinedMillerLoop":
                    need("verdict", "the pairing alone gives no verdict", verdict is None)
                    co = s.pop("coeff_index", None)
                    need("threading", "the line coefficient index is carried on", co is not None and threaded(co, cs[-1], 8))
                    if "step" in s:
                        done = True
                        need("result", "the final exponentiation is applied to the result of the pairing", [f for f, x in ls] == ["f"] and result_of(unwrap(ls[0][1]), cs[-1]))
                        need("order", "the final exponentiation starts with its first round", s["step"].op == "adt" and s["step"].a[1] == "FinalExponentiation" and s.get("round") is Int(0) and s.get("instruction") is Int(0) and len(s) == 3)
                        continue
                    need("threading", "the intermediate points are carried on", sorted(f for f, x in ls) == ["alt_b", "r"] and all(threaded(x, cs[-1], 9 if f == "alt_b" else 7) for f, x in ls))
                elif verdict is not None:
                    done = True
                    need("verdict", "the verdict is whether the result equals the pairing value of the key", verdict.op == "adt" and verdict.a[1] == "Some" and compares(W, verdict.a[2], cs[-1], p))
                    need("order", "nothing else is decided", set(s) <= {"is_verified", "round", "instruction"} and [f for f, x in ls] in ([], ["f"]))
                    continue
                else:
                    need("threading", "the value to exponentiate stays the same", not ls)
                ok = set(s) == {"round", "instruction"} and s["instruction"] is Int(k + 1) and s["round"] is Int(r + n)
                need("order", "the next instruction continues where this one stopped", ok)
                nxt.add(r + n)
            R.need(len(nxt) + done == 1, "order", w, "each instruction either continues or completes the step", H.loc(), "%s %s" % (k, nxt))
            if done or len(nxt) != 1:
                break
            R.count("rounds", min(nxt) - r)
            k, r = k + 1, min(nxt)
        R.need(done, "order", w, "the step completes", H.loc())
    return job


def threaded(n, call, i):
    """n is what the call left in its i-th argument (possibly narrowed)"""
    while n.op == "app" and str(n.a[0]).startswith("trunc"):
        n = n.a[1]
    return n.op == "out" and calls_to(n.a[0], call) and n.a[1] == i


def pairing_inputs(W, p, v, cs, i):
    a = cs[i][1]
    ok = len(a) == 10 and a[1] is v and the_vkey(W, a[2]) and all(is_lazy(a[3 + j], v, f) for j, f in enumerate("abc")) and is_lazy(a[6], v, "prepared_inputs")
    if i == 0:
        return ok and is_lazy(a[7], v, "r") and a[8] is W.get(v, "coeff_index") and is_lazy(a[9], v, "alt_b")
    return ok and all(threaded(a[j], cs[i - 1], j) for j in (7, 8, 9))


def exponentiation_inputs(W, p, v, cs, i):
    a = cs[i][1]
    return len(a) == 3 and a[1] is v and is_lazy(a[2], v, "f")


def compares(W, n, call, p):
    if n is Int(1):
        return any(pol and f.op == "eq" and compares(W, f, call, p) for f, pol in facts_all(p))
    if n.op != "eq":
        return False
    for a, b in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
        if a.op == "app" and str(a.a[0]).endswith("::alpha_beta") and the_vkey(W, a.a[1]) and result_of(b, call):
            return True
    return False


@prop("T04", ("elusiv",), "over every instruction and round of the three computation steps: one finite chain each, with the operands of each round and the state stored after it")
def t04(R, W):
    """Specialised dataflow over the computation instruction: for each step and each (instruction, round) reachable from the step's start, every exit is inspected: rounds are called consecutively, each on the stored proof, prepared inputs and recorded key, mutable values threaded through; the verdict is the comparison on the last round's result, or false where a round's own failure is a path fact."""
    parallel(R, [(PREP, prep_job(W))] + [("%s %s" % (st, a), table_job(W, st, f, a, b)) for st, f, n in (("CombinedMillerLoop", pairing_inputs, 22), ("FinalExponentiation", exponentiation_inputs, 4)) for a, b in split_chain(W, st, n)])
    R.floor("instructions", 215 + 17)
    R.floor("exits", 240)
    R.floor("rounds", 2000)


# --- T05: nullifiers of an accepted withdrawal ---
NV = "NullifierAccount"


def nullifier_job(W, shape):
    def job(R):
        v, nv = W.view(VA, A(1)), W.view(NV, A(2))
        n = len(shape)
        own = trees_of(shape)
        w = "finalize_verification_insert_nullifier, inputs %s" % "".join("R" if x else "-" for x in shape)
        for k in range(n + 2):
            H = W.handler("finalize_verification_insert_nullifier", cells={(v, "request"): shaped(W, shape), (v, "instruction"): Int(k)}, unroll=12)
            R.count("cases")
            if k < n and not any(own[:k + 1]):
                # (inputs of a second tree cannot be finalised yet)
                R.need(len(H.ok) >= 1, "reachable", w, "the nullifier can be inserted", H.loc())
            for p in H.ok:
                R.count("exits")
                need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
                ins = p.calls(r"::try_insert_nullifier_hash$")
                mov = p.calls(r"::move_nullifier_hashes_to_next_account$")
                need("tree", "the nullifier account belongs to the tree of the withdrawal", derived(W, p, A(2), NV, None, u32le(N("idx", W.get(v, "tree_indices"), Int(0)))))
                if k < n:
                    need("insert", "the next nullifier of the request is inserted, in the tree it spends from", own[k] == 0 and len(ins) == 1 and not ins[0][2] and ins[0][1][0] is nv and p.same(ins[0][1][1], reduced(N("sym", "nullifier%d" % k))), N("args", *[x[1][1] for x in ins]))
                    need("insert", "a failing insertion fails the instruction", all(succeeded(p, c) for c in ins))
                    need("count", "the inserted nullifier is counted", final_is(p, VA + ".instruction", v, Int(k + 1)))
                else:
                    need("insert", "no nullifier is inserted twice", not ins)
                    need("count", "the count of inserted nullifiers does not go back", all(c[3].op == "int" and c[3].a[0] >= n for c in sets_of(p, VA + ".instruction", v)))
                need("insert", "a failing move of waiting values fails the instruction", all(succeeded(p, c) for c in mov))
                for c in sets_of(p, VA + ".state", v):
                    need("complete", "the withdrawal is payable only after all its nullifiers are inserted", k >= n - 1 and (k < n and len(ins) == 1 or k >= n))
                    need("complete", "the withdrawal is payable only when no value of the spent set waits for its place", none_waiting(p, nv))
                need("others", "no other step touches the spent set", all(x[0].rsplit("::", 1)[-1] in ("try_insert_nullifier_hash", "move_nullifier_hashes_to_next_account", "is_moved_nullifier_empty") for x in p.calls("NullifierAccount") if not re.search(r"::(get|find_child)\w*$", x[0])))
    return job


def succeeded(p, call):
    return any((pol and f.op == "is" and f.a[1] == "Ok" or not pol and f.op == "is" and f.a[1] == "Err") and calls_to(f.a[0], call) for f, pol in facts_all(p))


def none_waiting(p, nv):
    """the last look at the spent set's waiting values found none"""
    last = None
    for c in p.calls(r"::(is_moved_nullifier_empty|try_insert_nullifier_hash|move_nullifier_hashes_to_next_account)$"):
        last = c
    if last is None or not last[0].endswith("is_moved_nullifier_empty") or last[1][0] is not nv:
        return False
    return any(pol and calls_to(f, last) for f, pol in facts_all(p))


@prop("T05", ("elusiv",), "for every shape of request and every count of inserted nullifiers: the calls into the spent set, the counter and the state stored")
def t05(R, W):
    """Specialised dataflow over the nullifier insertion: for each shape of request and each value of the counter, every successful exit inserts exactly the counter's nullifier into the account derived for the request's tree and advances the counter by one; the state Finalized is stored only behind the last one with the waiting values found empty."""
    parallel(R, [(str(s), nullifier_job(W, s)) for s in SHAPES])
    R.floor("cases", 45)
    R.floor("exits", 45)


# --- T06/T07: what a finalised withdrawal is bound to ---
LOAD_IX, LOAD_CUR = ("solana_program::sysvar::instructions::" + x for x in ("load_instruction_at_checked", "load_current_index_checked"))
MEMO_PROGRAM = "054a535a992921064d24e87160da387c7c35b5ddbc92bb81e41fa8404105448d"


def flat_bytes(n):
    """the pieces of a byte string put together from pieces"""
    if n.op in ("concat",) or n.op == "app" and n.a[0] == "concat":
        xs = n.a if n.op == "concat" else n.a[1:]
        return [y for x in xs for y in flat_bytes(x)]
    if n.op == "pushed" or n.op == "app" and n.a[0] == "pushed":
        x, v = n.a[-2:]
        return flat_bytes(x) + [v]
    if n.op == "arr" and len(n.a) <= 1:
        return list(n.a)
    return [n]


def masked(n):
    """(h) when n is the bytes h with the highest three bits of the last one cleared"""
    if n.op != "upd" or n.a[1][0] != "i" or n.a[1][1] not in (31, Int(31)):
        return None
    h, x = n.a[0], n.a[2]
    b = N("idx", h, Int(31))
    if x.op == "app" and x.a[0] == "rem" and x.a[1] is b and x.a[2] is Int(32) or x is app("and", b, Int(31)) or x is app("and", Int(31), b):
        return h
    return None


def hashed(n):
    """the byte string whose SHA-256 is n"""
    while n.op == "app" and (str(n.a[0]).endswith("to_bytes") or str(n.a[0]).endswith("Hash::to_bytes")):
        n = n.a[1]
    if n.op == "app" and str(n.a[0]).endswith("hash::hash"):
        return n.a[1]
    return None


def bound_inputs(p, V):
    """the pieces of the string whose masked hash equals the data hash of the request"""
    for a, b in pos_eqs(p):
        if p.same(b, V.body("hashed_inputs")):
            m = masked(a)
            h = hashed(m) if m is not None else None
            if h is not None:
                return flat_bytes(h)
    return None


def load_ix(p, n):
    """index i when n is the transaction's i-th instruction as read from the instructions account"""
    if n.op == "fld" and n.a[1] == "0" and n.a[0].op == "as" and n.a[0].a[1] == "Ok":
        c = n.a[0].a[0]
        if c.op == "app" and c.a[0] == LOAD_IX and c.a[2] is A(8):
            return c.a[1]
    return None


def ix_of(i):
    return N("fld", N("as", app(LOAD_IX, i, A(8)), "Ok"), "0")


def is_count(p, n):
    """n is the number of instructions of the transaction: the first index behind the current one at which there is none"""
    miss = mk_is(app(LOAD_IX, n, A(8)), "Ok")
    if p.truth(miss) is not False:
        return False
    cur = N("fld", N("as", app(LOAD_CUR, A(8)), "Ok"), "0")
    for f in walk(n):
        if f.op == "phi" and p.step_of(f) == 1 and p.canon(sub(add(sub(n, cur), f.a[-1]), f)) is Int(0):
            if any(pol and g.op == "forall" and g.a[0] == f.a[0] and (miss in g.a[1:] or any(p.canon(y) is p.canon(miss) for y in g.a[1:])) for g, pol in facts_all(p)):
                return True
    return False


def send_exits(R, W):
    H = W.handler("finalize_verification_send", extra_pure=FIND)
    R.need(len(H.ok) >= 2, "reachable", H.name, "a verified and a rejected withdrawal can be finalised", H.loc())
    R.count("exits", len(H.ok))
    return H


@prop("T06", ("elusiv",), "every successful exit of the finalisation: the byte string hashed against the proven data hash, piece by piece")
def t06(R, W):
    """Backwards slice of the finalisation's hash guard on every successful exit: the pieces of the hashed string are, in order, the recipient, identifier, nonce, encrypted owner, reference, account kind, metadata and optional fee actually used, followed by the memo of the right instruction when one is used; the recipient recorded for the payout is that recipient."""
    H = send_exits(R, W)
    w = H.name
    kinds = set()
    for p in H.ok:
        V = Verif(p, 5)
        need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
        need("request", "only a withdrawal of the supported kind is finalised", V.kind == "Send")
        b = bound_inputs(p, V)
        need("hash", "the data is bound to the data hash of the proof", b is not None)
        if b is None:
            continue
        d = N("sym", "data")
        ref = [x for x in b[4:5]]
        want = [key(A(0)), key(A(1)), fld(d, "iv"), fld(d, "encrypted_owner"), None, V.body("recipient_is_associated_token_account"), V.js("metadata"), V.js("optional_fee.collector"), N("le", "u64", V.js("optional_fee.amount"))]
        names = ["recipient", "identifier", "nonce", "encrypted owner", "reference", "kind of recipient account", "metadata", "collector of the optional fee", "optional fee"]
        need("hash", "the hashed string has exactly its parts", len(b) in (9, 10))
        for i, x in enumerate(want):
            if i >= len(b) or x is None:
                continue
            ok = p.same(strip_bytes(b[i]), strip_bytes(x)) or i == 5 and (p.truth(x) is True and p.same(b[i], Int(1)) or p.truth(x) is False and p.same(b[i], Int(0)))
            need("hash", "the proof is bound to the %s" % names[i], ok, b[i])
            R.count("parts")
        if len(b) > 4:
            same = p.truth(eq(key(A(2)), key(A(8))))
            ok = same is False and p.same(strip_bytes(b[4]), strip_bytes(key(A(2)))) or same is True and const_bytes(b[4]) == 0
            need("hash", "the proof is bound to the reference or to its absence", ok, b[4])
        memo = p.truth(N("sym", "uses_memo"))
        need("memo", "a memo is bound exactly when one is used", memo is (len(b) == 10))
        if len(b) == 10:
            kinds.add("memo")
            src = b[9]
            i = load_ix(p, src.a[0]) if src.op == "fld" and src.a[1] == "data" else None
            need("memo", "the memo is read from an instruction of the transaction", i is not None, src)
            if i is not None:
                off = 2 if p.holds(V.body("solana_pay_transfer")) else 1 if p.truth(V.body("solana_pay_transfer")) is False else None
                need("memo", "the memo's instruction is the last but the forwarding transfer", off is not None and is_count(p, p.canon(add(i, off))), i)
                need("memo", "the memo's instruction is one of the memo program", any(p.same(x, fld(ix_of(i), "program_id")) and y.op == "adt" and const_bytes(unwrap(y)) == const_bytes(N("bytes", MEMO_PROGRAM)) or p.same(x, fld(ix_of(i), "program_id")) and const_bytes(unwrap(y)) == const_bytes(N("bytes", MEMO_PROGRAM)) for x, y in pos_eqs(p)))
        od = sets_of(p, VA + ".other_data", V.v)
        ok = len(od) == 1 and od[0][3].op == "upd" and od[0][3].a[0] is V.d and od[0][3].a[1][-1] == "recipient_wallet" and strip_bytes(some_val(od[0][3].a[2])) is strip_bytes(key(A(0)))
        need("recipient", "the recipient of the payout is the proven recipient", ok, N("args", *[x[3] for x in od]))
        kinds.add(V.rejected())
    R.need({True, False, "memo"} <= kinds, "reachable", w, "both outcomes and memos occur", H.loc(), str(kinds))
    R.floor("parts", 60)


def some_val(n):
    return n.a[2] if n.op == "adt" and n.a[1] == "Some" else N("unit")


@prop("T07", ("elusiv",), "every successful exit of the finalisation of an accepted withdrawal: facts on the transaction's instructions and on the caller's data")
def t07(R, W):
    """Facts on every successful exit: the verdict is accepted and the transaction consists of this instruction, any number of insertions and the payout of the request's kind for the same index (loop invariant of the scan); the caller's total, token and position agree with request and tree. On rejected exits the new commitment is taken out of the remembered ones."""
    H = send_exits(R, W)
    w = H.name
    ids = {x[0]: int(x[1]) for x in W.variants()}
    for p in H.ok:
        V = Verif(p, 5)
        need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
        need("verdict", "a verdict has been reached", p.holds(is_some(V.is_verified)))
        rej = V.rejected()
        need("verdict", "the verdict selects the outcome", rej is not None)
        st = [x[3].a[1] for x in sets_of(p, VA + ".state", V.v) if x[3].op == "adt"]
        if rej:
            R.count("rejected")
            need("state", "a rejected withdrawal goes straight to its settlement", st == ["Finalized"])
            bv = W.view("CommitmentBufferAccount", A(7))
            buf = p.sets("CommitmentBufferAccount.values")
            out = reduced(V.js("output_commitment"))
            if buf:
                R.count("forgotten")
                need("buffer", "only the commitment of the rejected withdrawal is forgotten", len(buf) == 1 and buf[0][1] is bv and const_bytes(buf[0][3]) == 0 and not buf[0][4] and position_of(p, bv, out, buf[0][2]), buf[0][2])
            else:
                need("buffer", "the commitment of a rejected withdrawal is forgotten if it is remembered", absent(p, bv, out))
            continue
        R.count("accepted")
        need("state", "an accepted withdrawal goes on to the insertion of its nullifiers", st == ["InsertNullifiers"])
        need("count", "the insertion starts with the first nullifier", final_is(p, VA + ".instruction", V.v, Int(0)))
        cur = N("fld", N("as", app(LOAD_CUR, A(8)), "Ok"), "0")
        idx = N("sym", "verification_account_index")

        def is_step(i, name):
            x = ix_of(i)
            d = fld(x, "data")
            return any(p.same(a, fld(x, "program_id")) and (b.op == "static" and b.a[0] == "ID" or b is W.pk(W.program_id) or show(b) == "static ID") for a, b in pos_eqs(p)) and p.holds(eq(N("idx", d, Int(0)), ids[name])) and p.holds(eq(N("idx", d, Int(1)), idx))
        need("layout", "the instruction itself is the finalisation of this withdrawal", is_step(cur, "FinalizeVerificationSend"))
        tok = p.truth(eq(V.js("token_id"), 0))
        pay = {True: "FinalizeVerificationTransferLamports", False: "FinalizeVerificationTransferToken"}.get(tok)
        need("layout", "the kind of payout follows from the token of the request", pay is not None)
        last = None
        for f, pol in facts_all(p):
            if pol and f.op == "is" and f.a[1] == "Ok":
                i = f.a[0].a[1] if f.a[0].op == "app" and f.a[0].a[0] == LOAD_IX else None
                if i is not None and pay is not None and is_step(i, pay):
                    last = i
        need("layout", "the transaction contains the payout of this withdrawal", last is not None)
        if last is not None:
            k = p.canon(sub(last, add(cur, 1)))
            ok = k is Int(0)
            for f in walk(last):
                # the scan's counter, from its first value in steps of one
                if f.op == "phi" and p.step_of(f) == 1 and p.canon(sub(add(k, f.a[-1]), f)) is Int(0):
                    ok = ok or scanned(W, p, f, last, ids["FinalizeVerificationInsertNullifier"], idx)
            need("layout", "only insertions of this withdrawal lie between finalisation and payout", ok, k)
        d = N("sym", "data")
        need("data", "the announced total is the proven amount with its fee", p.holds(eq(fld(d, "total_amount"), add(V.js("amount"), V.js("fee")))))
        need("data", "the announced token is the token of the request", p.holds(eq(fld(d, "token_id"), V.js("token_id"))))
        sv, qv = W.view(ST, A(6)), W.view(CQ, A(4))
        nx, tc = W.get(sv, "next_commitment_ptr"), W.get(sv, "trees_count")
        need("data", "the announced position and tree are those the new commitment reaches at the earliest", position(W, p, d, nx, tc, qv))
    R.floor("accepted", 4)
    R.floor("rejected", 2)
    R.floor("forgotten", 1)


def position_of(p, view, value, i):
    """i is the place at which the value was found in the buffer"""
    f = p.canon(i)
    if f.op != "fld" or f.a[1] != "0" or f.a[0].op != "as" or f.a[0].a[1] != "Some":
        return False
    c = f.a[0].a[0]
    if c.op != "app" or not str(c.a[0]).endswith("bytes::find") or not p.same(c.a[1], value):
        return False
    sl = c.a[2]
    return sl.op == "slice" and sl.a[0].op == "fld" and sl.a[0].a[0] is view and sl.a[0].a[1] == "values" and sl.a[1] is Int(0) and p.same(sl.a[2], mul(32, p.H.W.get(view, "length")))


def scanned(W, p, k, last, variant, idx):
    """every earlier position of the scan held an insertion for the same withdrawal"""
    x = ix_of(last)
    d = fld(x, "data")
    want = [mk_is(app(LOAD_IX, last, A(8)), "Ok"), eq(N("idx", d, Int(0)), variant), eq(N("idx", d, Int(1)), idx)]
    for f, pol in facts_all(p):
        if pol and f.op == "forall" and f.a[0] == k.a[0]:
            body = [p.canon(y) for y in f.a[1:]]
            prog = any(y.op == "eq" and any(z is fld(x, "program_id") for z in y.a) and any(show(z) == "static ID" or z is W.pk(W.program_id) for z in y.a) for y in list(f.a[1:]) + body)
            if prog and all(y in f.a[1:] or p.canon(y) in body for y in want):
                return True
    return False


def position(W, p, d, nx, tc, qv):
    """index and tree of the earliest place behind all queued commitments"""
    ln = queue_len(W, qv)
    okc = okt = False
    for f, pol in facts_all(p):
        if f.op == "lt" and not pol and f.a[1] is fld(d, "commitment_index"):
            x = f.a[0]
            okc = okc or x.op == "app" and x.a[0] == "rem" and x.a[2] is Int(1 << 20) and any(p.same(x.a[1], add(nx, l)) for l in ln)
        if f.op == "le" and pol and f.a[0] is fld(d, "commitment_index"):
            x = f.a[1]
            okc = okc or x.op == "app" and x.a[0] == "rem" and x.a[2] is Int(1 << 20) and any(p.same(x.a[1], add(nx, l)) for l in ln)
    for l in ln:
        if p.holds(eq(fld(d, "mt_index"), add(tc, app("div", add(nx, l), Int(1 << 20))))):
            okt = True
    return okc and okt


def queue_len(W, qv):
    """number of entries of a ring queue of 240 places"""
    h, t = W.get(qv, "head"), W.get(qv, "tail")
    return [sub(t, h), sub(add(t, Int(240)), h), app("rem", sub(add(t, Int(240)), h), Int(240))]


# --- T08: what a payout leaves behind ---
@prop("T08", ("elusiv",), "every successful exit of both payouts: the queue entries stored, the parties' identity and the state left")
def t08(R, W):
    """Effects of every successful exit of both payouts: an accepted withdrawal stores exactly one queue entry built from its own request together with its metadata, a rejected one stores none; relayer and recipient are those recorded, and the state stored is the last one."""
    for name, acc, q, rcp in (("finalize_verification_transfer_lamports", 7, 5, (1,)), ("finalize_verification_transfer_token", 11, 9, (2, 3))):
        H = W.handler(name)
        seen = set()
        R.count("exits", len(H.ok))
        for p in H.ok:
            V = Verif(p, acc)
            need = lambda rule, what, c, x=None: R.need(bool(c), rule, name, what, p.site(), nice(x) if x is not None else p.describe())
            need("request", "the stored request is decoded", V.kind is not None)
            if V.kind is None:
                continue
            rej = V.rejected()
            need("verdict", "the verdict selects the outcome", rej is not None)
            def recorded(acct, field):
                k, f = strip_bytes(key(acct)), V.f(field)
                return any(p.same(strip_bytes(a), k) and strip_bytes(b) is f or p.same(strip_bytes(b), k) and strip_bytes(a) is f for a, b in pos_eqs(p))
            need("relayer", "the relayer is the one who started the withdrawal", recorded(A(0), "fee_payer.0"))
            if acc == 11:
                need("relayer", "the relayer is compensated at the token account the fees came from", recorded(A(1), "fee_payer_account.0"))
            st = [x[3].a[1] for x in sets_of(p, VA + ".state", V.v) if x[3].op == "adt"]
            need("closed", "nothing can be done with the withdrawal afterwards", st == ["Closed"])
            seen.add((V.kind, rej))
            if rej:
                R.count("rejected")
                need("queued", "a rejected withdrawal adds no commitment", not p.sets(CQ, W.view(CQ, A(q))) and not p.sets(MQ, W.view(MQ, A(q + 1))) and not p.sets(CQ + ".raw_data") and not p.sets(MQ + ".raw_data"))
                continue
            R.count("accepted")

            def val(n):
                d = request_fields(W, n)
                return d is not None and p.same(d["commitment"], reduced(V.js("output_commitment"))) and p.same(d["fee_version"], V.js("fee_version")) and p.same(d["min_batching_rate"], V.f("min_batching_rate")) and set(d) == {"commitment", "fee_version", "min_batching_rate"}
            enqueued(R, p, CQ, q, val, "queued", name, "the new commitment of the proof is queued with its fee version and the rate paid for")
            enqueued(R, p, MQ, q + 1, lambda n: p.same(n, V.js("metadata")), "metadata", name, "the metadata of the proof is queued along with it")
            if V.kind == "Send" and p.truth(eq(V.js("amount"), 0)) is not True:
                w = some_of(V.f("recipient_wallet"))
                ok = any(strip_bytes(a) is fld(w, "0") and strip_bytes(b) in [strip_bytes(key(A(r))) for r in rcp] or strip_bytes(b) is fld(w, "0") and strip_bytes(a) in [strip_bytes(key(A(r))) for r in rcp] for a, b in pos_eqs(p))
                need("recipient", "the recipient is the one recorded when the withdrawal was finalised", ok)
        R.need({("Send", True), ("Send", False)} <= seen, "reachable", name, "both outcomes occur", H.loc(), str(seen))
    R.floor("accepted", 4)
    R.floor("rejected", 1)


# --- T09: one withdrawal of the same notes at a time ---
def mark_of(p, nd, hashes, created):
    """account nd is compared with the address derived from exactly the given nullifiers"""
    for a, b in pos_eqs(p):
        if a is key(A(nd)):
            if b.op == "fld" and b.a[0].op == "as" and b.a[0].a[1] == "Ok":
                b = b.a[0].a[0]
            if b.op == "app" and b.a[0] == ("create_pda" if created else "find_pda_key") and mark_seeds(b.a[1], hashes) and len(b.a[1].a) == (3 if created else 2):
                return True
    return False


def mark_seeds(seeds, hashes):
    s = seeds.a
    if seeds.op != "arr" or len(s) < 2 or not (s[0].op == "bytes" and s[0].a[0] == b"NullifierDuplicate".hex()):
        return False
    h = s[1]
    while h.op == "app" and str(h.a[0]).endswith(("to_bytes", "bytes_of")) or h.op == "bytes_of":
        h = h.a[-1]
    return h.op == "app" and str(h.a[0]).endswith("hash::hashv") and h.a[1].op == "arr" and len(h.a[1].a) == len(hashes) and all(strip_bytes(x) is y for x, y in zip(h.a[1].a, hashes))


def guard_job(W, shape):
    def job(R):
        H = start(W, shape)
        sh = "inputs %s" % "".join("R" if x else "-" for x in shape)
        w = "%s, %s" % (H.name, sh)
        hs = [N("fld", N("sym", "nullifier%d" % i), "0") for i in range(len(shape))]
        skip = N("sym", "skip_nullifier_pda")
        seen = set()
        need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
        for p in H.ok:
            R.count("exits")
            sk = p.truth(skip)
            need("skip", "skipping the mark is the relayer's explicit choice", sk is not None)
            seen.add(sk)
            made = [(ins, seeds) for nm, ins, seeds, ls, e in p.invokes() if nm == "solana_program::system_instruction::create_account"]
            if sk is False:
                need("mark", "a mark for exactly these nullifiers is created", sum(ins.a[2] is key(A(3)) and any(mark_seeds(x, hs) for x in seeds.a) for ins, seeds in made) == 1)
                need("mark", "the mark is the account at the nullifiers' own address", mark_of(p, 3, hs, False))
            elif sk:
                need("skip", "the mark that is skipped is the one of these nullifiers", mark_of(p, 3, hs, True))
                need("skip", "the mark that is skipped exists", p.truth(eq(app("bal", A(3)), 0)) is False)
                need("skip", "no mark is created for it", not any(ins.a[2] is key(A(3)) for ins, _ in made))
            idx = N("sym", "verification_account_index")
            need("index", "the number of parallel withdrawals of a relayer is bounded", p.truth(lt(128, idx)) is False or p.truth(le(idx, 128)) is True or p.truth(lt(idx, 129)) is True)
            need("fresh", "the withdrawal gets a fresh record", any(ins.a[2] is key(A(1)) for ins, _ in made))
        R.need(seen == {True, False}, "reachable", w, "marks are created and skipped", H.loc(), str(seen))
        for name, acc, nd in (("finalize_verification_transfer_lamports", 7, 8), ("finalize_verification_transfer_token", 11, 12)):
            v = W.view(VA, A(acc))
            H = W.handler(name, cells={(v, "request"): shaped(W, shape)}, unroll=12)
            w = "%s, %s" % (name, sh)
            R.need(len(H.ok) >= 2, "reachable", w, "the withdrawal can be settled", H.loc())
            for p in H.ok:
                R.count("payouts")
                need("mark", "the mark handed in is the one of the withdrawal's nullifiers", mark_of(p, nd, hs, True))
    return job


@prop("T09", ("elusiv",), "per request shape, every successful start creates or names the mark of exactly its nullifiers; every successful payout names the same")
def t09(R, W):
    """Facts and account creations of every successful start, per request shape: the mark is created at the address derived from all nullifiers of the request, or, when skipping is asked for, that very account exists already. Both payouts check the same address against the stored request."""
    parallel(R, [(str(s), guard_job(W, s)) for s in SHAPES])
    R.floor("exits", 15)
    R.floor("payouts", 30)


# --- T10: the proof ---
@prop("T10", ("elusiv",), "every successful exit of the proof's submission: guards and stored points")
def t10(R, W):
    """Facts and effects of every successful exit of the proof's submission: the relayer recorded at the start hands it in while no verdict exists, its three points are stored as given, and each is compared with the curve equation."""
    H = W.handler("init_verification_proof", extra_opaque=[r"::is_on_curve$", LAZY_SET])
    v = W.view(VA, A(1))
    w = H.name
    R.need(len(H.ok) >= 1, "reachable", w, "a proof can be submitted", H.loc())
    for p in H.ok:
        R.count("exits")
        need = lambda rule, what, c, x=None: R.need(bool(c), rule, w, what, p.site(), nice(x) if x is not None else p.describe())
        fp = fld(W.get(v, "other_data"), "fee_payer.0")
        need("relayer", "only the relayer who started the withdrawal submits its proof", any(strip_bytes(a) is fp and p.same(strip_bytes(b), strip_bytes(key(A(0)))) or strip_bytes(b) is fp and p.same(strip_bytes(a), strip_bytes(key(A(0)))) for a, b in pos_eqs(p)))
        need("relayer", "the relayer signs", p.holds(signer(A(0))))
        need("state", "no verdict exists yet", p.truth(is_some(W.get(v, "is_verified"))) is False)
        ls = lazy_sets(p, v)
        for n in "abc":
            xs = [x for m, x in ls if m == n]
            R.count("points", len(xs))
            need("stored", "the point %s of the proof is stored as given" % n, len(xs) == 1 and p.same(xs[0], fld(H.arg(1), n)), N("args", *xs))
            need("curve", "the point %s of the proof lies on the curve" % n, any(pol and f.op == "app" and str(f.a[0]).endswith("::is_on_curve") and f.a[1] is fld(H.arg(1), n + ".0") for f, pol in facts_all(p)))
    R.floor("points", 3)
