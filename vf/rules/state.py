"""Trees, child accounts, verifying keys, fee versions and set-up."""
from .lib import *
from .. import proj
from .commitment import ST, CQ, MQ, HASHING, root_read
from .verification import NV, stores_of

CH, VK, GOV, FEE, MD = "CommitmentHashingAccount", "VKeyAccount", "GovernorAccount", "FeeAccount", "MetadataAccount"
LEAVES = 1 << 20


def writers_job(W, h, owners):
    """every store into a listed field comes from an instruction listed for it"""
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        for p in H.ok:
            for T in dict.fromkeys(t for t, _ in owners):
                for f, e in stores_of(p, T):
                    who = owners.get((T, f), owners.get((T, "*")))
                    if who is None or f == "child_accounts":
                        continue
                    R.count("stores")
                    R.need(h in who, "writers", h, "%s.%s is changed only by the instructions whose task it is" % (T, f), p.site(), nice(e))
    return job


def last(p, cell, v):
    return p.final(cell, v)


# ---------------------------------------------------------------- M01: change of the tree

TREE_WRITERS = {
    (ST, "trees_count"): ("reset_active_merkle_tree",),
    (ST, "next_commitment_ptr"): ("reset_active_merkle_tree", "finalize_commitment_hash"),
    (ST, "mt_roots_count"): ("reset_active_merkle_tree", "finalize_commitment_hash"),
    (ST, "active_mt_root_history"): ("finalize_commitment_hash", "reset_active_merkle_tree"),
    (NV, "root"): ("reset_active_merkle_tree",),
    (NV, "nullifier_hash_count"): ("finalize_verification_insert_nullifier",),
    (NV, "max_values"): ("finalize_verification_insert_nullifier",),
    (NV, "moved_values"): ("finalize_verification_insert_nullifier",),
    (NV, "moved_values_count"): ("finalize_verification_insert_nullifier",),
    (NV, "moved_values_target"): ("finalize_verification_insert_nullifier",),
}


def reset_job(W, b):
    def job(R):
        w = "reset_active_merkle_tree"
        q, sv, nv, hv = W.view(CQ, A(1)), W.view(ST, A(0)), W.view(NV, A(2)), W.view(CH, A(3))
        names = [f[0] for f in W.P.adts[W.full("CommitmentHashRequest")]["variants"][0][2]]
        raw = N("each", W.get(q, "raw_data"), names.index("min_batching_rate"), "min_batching_rate", Int(b))
        H = W.handler(w, opaque=HASHING, cells={(q, "raw_data"): raw}, unroll=True)
        R.need(len(H.ok) >= 1, "M01/exit", w, "a full tree can be closed", H.loc())
        idx = H.arg(0)
        ptr = W.get(sv, "next_commitment_ptr")
        for p in H.ok:
            if infeasible(p):
                continue
            R.count("exits, next batch of 2^%d" % b)
            at = p.site()
            R.need(p.holds(eq(idx, W.get(sv, "trees_count"))), "M01/active", w, "the tree closed is the active one", at)
            R.need(p.truth(W.get(hv, "is_active")) is False, "M01/idle", w, "no hash for the closed tree is being computed", at)
            R.need(final_value(p, CH + ".setup", hv) is Int(0), "M01/idle", w, "a prepared but not started hash of the closed tree is dropped", at)
            full = p.truth(lt(ptr, Int(LEAVES))) is False
            nofit = p.truth(lt(add(ptr, Int(1 << b)), Int(LEAVES))) is False
            head = p.truth(eq(W.get(q, "head"), W.get(q, "tail"))) is False
            R.need(full or nofit and head, "M01/full", w, "the tree is full, or the next batch does not fit", at, p.describe())
            new = last(p, ST + ".trees_count", sv)
            R.need(new is not None and p.same(new, add(idx, 1)), "M01/next", w, "the next tree becomes the active one", at, nice(new) if new is not None else "")
            root = last(p, NV + ".root", nv)
            good = root is not None and (root_read(root, sv) or is_const(root) and p.holds(eq(ptr, 0)))
            R.need(good, "M01/root", w, "the closed tree's root is kept with its nullifiers", at, nice(root) if root is not None else "")
            z = last(p, ST + ".next_commitment_ptr", sv)
            R.need(z is Int(0), "M01/empty", w, "the next tree starts empty", at)
            z = last(p, ST + ".mt_roots_count", sv)
            R.need(z is Int(0), "M01/empty", w, "roots of the closed tree are no roots of the next one", at)
            R.need(not p.sets(None, q), "M01/queue", w, "the commitment queue keeps its entries", at)
    return job


def final_value(p, cell, v):
    return p.final(cell, v)


@prop("M01", ("elusiv",), "every successful exit of the tree change, per batch size at the head of the queue; inventory of stores into tree state over all instructions")
def m01(R, W):
    """Closing the active tree is analysed for an arbitrary state and each size of the batch waiting first: guards (index, no running computation, full or batch does not fit) and stored effects
    (root kept, counters reset, prepared hash dropped). Every store into tree or spent-set state in the whole program must come from the instruction in charge of it."""
    parallel(R, [("reset%d" % b, reset_job(W, b)) for b in RATES] + [(h, writers_job(W, h, TREE_WRITERS)) for h in W.handler_names()])
    R.floor("handlers", 33)
    R.floor("stores", 10)


# ---------------------------------------------------------------- M02: child accounts

CHILD_WRITERS = {
    (ST, "pubkeys"): ("enable_storage_child_account",),
    (NV, "pubkeys"): ("enable_nullifier_child_account",),
    (MD, "pubkeys"): ("enable_metadata_child_account",),
    (VK, "pubkeys"): ("create_new_vkey_version", "update_vkey_version"),
}
STORAGE_CHILD, NULLIFIER_CHILD, METADATA_CHILD = 1 + 83887 * 32, 1 + 38 + 65536 * 36, 1 + 65536 * 17
VKEY_FIXED, VKEY_PER_INPUT = 1 + 65 + 449 + 34944 + 387, 65 * 32 * 255
ATTACH = {
    # instruction: (parent type, parent account, child account, index argument or constant, size of the child)
    "enable_storage_child_account": (ST, 0, 1, "child_index", STORAGE_CHILD),
    "enable_nullifier_child_account": (NV, 0, 1, "child_index", NULLIFIER_CHILD),
    "enable_metadata_child_account": (MD, 0, 1, "child_index", METADATA_CHILD),
    "create_new_vkey_version": (VK, 1, 2, 1, None),
}


def attach_job(W, h):
    def job(R):
        T, pa, ca, ix, size = ATTACH[h]
        H = W.handler(h)
        v, c = W.view(T, A(pa)), A(ca)
        R.need(len(H.ok) >= 1, "M02/exit", h, "an account can be attached", H.loc())
        if size is None:
            size = add(Int(VKEY_FIXED), mul(Int(VKEY_PER_INPUT), W.get(v, "public_inputs_count")))
        size = size if isinstance(size, Node) else Int(size)
        i = Int(ix) if isinstance(ix, int) else N("sym", ix)
        data = fld(c, "data")
        for p in H.ok:
            R.count("attachments")
            at = p.site()
            cell = N("idx", W.get(v, "pubkeys"), i)
            R.need(p.truth(is_some(cell)) is False, "M02/free", h, "a slot that has an account keeps it", at)
            R.need(len_is(p, data, size), "M02/size", h, "the attached account has exactly the size its slot needs", at)
            R.need(any(p.same(a, owner(c)) and own_id(W, p, b) for a, b in pos_eqs(p)), "M02/owner", h, "the attached account belongs to the program", at)
            rent = False
            for f, pol in facts_all(p):
                if not pol and f.op == "lt" and p.same(f.a[0], app("bal", c)) and f.a[1].op == "app" and str(f.a[1].a[0]).endswith("minimum_balance") and p.same(f.a[1].a[-1], size):
                    rent = True
            R.need(rent, "M02/rent", h, "the attached account holds the rent for its size", at)
            used = marked = False
            for f, pol in facts_all(p):
                if not pol and f.op == "fld" and f.a[1] == "is_in_use" and in_use_byte(f.a[0], data):
                    used = True
                if pol and f.op == "is" and f.a[1] == "Ok" and "BorshSerialize>::serialize" in str(f.a[0].a[0]) and f.a[0].a[1] is Int(1) and in_use_byte(f.a[0].a[2], data):
                    marked = True
            R.need(used, "M02/exclusive", h, "an account attached before is not attached again", at)
            R.need(marked, "M02/exclusive", h, "the attached account is marked as in use", at)
            l = p.sets(T + ".pubkeys")
            good = len(l) == 1 and l[0][1] is v and l[0][2] is not None and p.same(l[0][2], i) and inner(l[0][3]) is not None and p.same(inner(l[0][3]), key(c))
            R.need(good, "M02/slot", h, "exactly the named slot receives the account", at, "; ".join(nice(x[3]) for x in l))
            if T == NV:
                res = [a for n, a, ls, e in p.calls(r"ElusivMap\b.*::reset$")]
                ok = False
                for a in res:
                    m = a[0]
                    if m.op == "app" and str(m.a[0]).endswith("::new"):
                        r = piece_of(m.a[1])
                        ok |= r is not None and r[0] is data and r[1] is Int(0)
                R.need(ok, "M02/empty", h, "a bucket of spent nullifiers starts empty", at)
    return job


def len_is(p, data, size):
    for a, b in pos_eqs(p):
        if (b.op == "len" and b.a[0] is data or b.op == "app" and b.a[0] == "len" and b.a[1] is data) and p.same(a, size):
            return True
    return False


def inner(v):
    """x of Some(x), also after a conversion between option types"""
    while v.op == "app" and str(v.a[0]).startswith("into<"):
        v = v.a[1]
    return v.a[2] if v.op == "adt" and v.a[1] == "Some" else None


def is_none(v):
    while v.op == "app" and str(v.a[0]).startswith("into<"):
        v = v.a[1]
    return v.op == "adt" and v.a[1] == "None"


@prop("M02", ("elusiv",), "every successful exit of the four attaching instructions; inventory of stores into child slots over all instructions")
def m02(R, W):
    """Each attaching instruction is analysed for arbitrary accounts: slot free, exact size, rent, owner, not in use, mark set, exactly the named slot stored; spent-set buckets are emptied. Every store into a child slot in the program must be one of those or the switch of a verifying key."""
    parallel(R, [(h, attach_job(W, h)) for h in ATTACH] + [(h, writers_job(W, h, CHILD_WRITERS)) for h in W.handler_names()])
    R.floor("handlers", 33)
    R.floor("attachments", 4)
    R.floor("stores", 3)


# ---------------------------------------------------------------- V01, V02: verifying keys

VKEY_MODIFY = ("create_new_vkey_version", "set_vkey_data", "update_vkey_version", "freeze_vkey", "change_vkey_authority")
VKEY_WRITERS = {
    (VK, "authority"): ("create_vkey_account", "change_vkey_authority"),
    (VK, "public_inputs_count"): ("create_vkey_account",),
    (VK, "version"): ("update_vkey_version",),
    (VK, "is_frozen"): ("freeze_vkey",),
    (VK, "pubkeys"): ("create_new_vkey_version", "update_vkey_version"),
    (VK, "*"): (),
}
PACKET = 964


def opt_same(p, v, x):
    """v is the option x, or Some of it"""
    while v.op == "app" and str(v.a[0]).startswith("into<"):
        v = v.a[1]
    if v.op == "adt" and v.a[0].endswith("Option"):
        # the option taken apart and rebuilt
        some = p.truth(is_some(x))
        if v.a[1] == "Some":
            return some is True and p.same(v.a[2], some_of(x)) or p.same(x, v)
        return some is False or p.same(x, v)
    return p.same(v, x)


def vkey_job(W, h):
    def job(R):
        H = W.handler(h)
        v = W.view(VK, A(1))
        R.need(len(H.ok) >= 1, "V01/exit", h, "the instruction can succeed", H.loc())
        for p in H.ok:
            R.count("modifying exits")
            at = p.site()
            R.need(p.truth(W.get(v, "is_frozen")) is False, "V01/frozen", h, "a frozen key is never modified", at)
            au = W.get(v, "authority")
            free = p.truth(is_some(au)) is False
            R.need(free or p.holds(eq(some_of(au), key(A(0)))), "V01/authority", h, "only the key's authority modifies it", at)
            R.need(p.holds(signer(A(0))), "V01/authority", h, "the authority has signed", at)
            R.need(derived(W, p, A(1), VK, offset=u32le(N("sym", "vkey_id"))), "V01/key", h, "the key modified is the one named", at)
            fields = {x[0].split(".")[1] for x in p.sets() if x[0].startswith(VK + ".")}
            R.need(all(x[1] is v for x in p.sets() if x[0].startswith(VK + ".")), "V01/key", h, "only the key named is modified", at)
            want = {"create_new_vkey_version": {"pubkeys"}, "set_vkey_data": set(), "update_vkey_version": {"pubkeys", "version"}, "freeze_vkey": {"is_frozen"}, "change_vkey_authority": {"authority"}}[h]
            R.need(fields == want, "V01/effect", h, "exactly the fields the instruction is for are changed", at, ", ".join(sorted(fields ^ want)))
            if h == "freeze_vkey":
                R.need(p.final(VK + ".is_frozen", v) is Int(1), "V01/effect", h, "the key becomes frozen", at)
            if h == "change_vkey_authority":
                x = p.final(VK + ".authority", v)
                R.need(x is not None and (inner(x) is not None and p.same(inner(x), N("sym", "authority")) or opt_same(p, x, N("sym", "authority"))), "V01/effect", h, "the authority named takes over", at, nice(x) if x is not None else "")
    return job


def vkey_create(W):
    def job(R):
        h = "create_vkey_account"
        H = W.handler(h)
        v = W.view(VK, A(1))
        for p in H.ok:
            R.count("creations")
            at = p.site()
            R.need(p.holds(signer(A(0))), "V01/create", h, "the payer has signed", at)
            R.need(created(p, 1), "V01/create", h, "the key's account is created, so none existed", at)
            x = p.sets(VK + ".authority")
            R.need(len(x) == 1 and opt_same(p, x[0][3], N("sym", "deploy_authority")), "V01/create", h, "the authority is the one named", at)
            x = p.sets(VK + ".public_inputs_count")
            R.need(len(x) == 1 and p.same(x[0][3], N("sym", "public_inputs_count")), "V01/create", h, "the number of public inputs is the one named", at)
            R.need(p.holds(lt(N("sym", "vkey_id"), Int(1))) or p.holds(eq(N("sym", "vkey_id"), Int(0))), "V01/create", h, "only known verifying keys exist", at)
    return job


def created(p, i):
    """account i is created on the path by the system program, at its derived address"""
    return any(m == "create_account" and any(x is key(A(i)) or x is A(i) for y in ins for x in walk(y)) for m, ins in creations(p))


def creations(p):
    out = []
    for name, ins, seeds, loops, ev in p.invokes():
        if "create_account" in str(name) or any("create_account" in show(x, 3) for x in ([ins] if isinstance(ins, Node) else [])):
            out.append(("create_account", [ins] if isinstance(ins, Node) else list(ins)))
    return out


def upd_job(W):
    def job(R):
        h = "update_vkey_version"
        H = W.handler(h)
        v = W.view(VK, A(1))
        old, new = N("idx", W.get(v, "pubkeys"), Int(0)), N("idx", W.get(v, "pubkeys"), Int(1))
        for p in H.ok:
            R.count("switches")
            at = p.site()
            R.need(p.holds(is_some(new)), "V02/switch", h, "there is a new version to switch to", at)
            slots = {}
            for c, w, i, val, ls, fn, e in p.sets(VK + ".pubkeys"):
                R.need(i is not None and i.op == "int", "V02/switch", h, "the slots changed are known", at)
                slots[i.a[0] if i is not None and i.op == "int" else None] = val
            x = slots.get(0)
            R.need(x is not None and (inner(x) is not None and p.same(inner(x), some_of(new)) or opt_same(p, x, new)), "V02/switch", h, "the new version becomes the used one", at, nice(x) if x is not None else "")
            x = slots.get(1)
            R.need(x is not None and is_none(x), "V02/switch", h, "the place of the next version becomes free", at, nice(x) if x is not None else "")
            R.need(set(slots) == {0, 1}, "V02/switch", h, "no other slot changes", at)
            x = p.final(VK + ".version", v)
            ver = W.get(v, "version")
            R.need(x is not None and p.same(x, add(ver, 1)), "V02/version", h, "the version grows by one", at)
            R.need(p.holds(app("nowrap", N("sym", "u32"), add(ver, 1))) or any(f.op == "nowrap" or f.op == "app" and f.a[0] == "nowrap" for f, pol in facts_all(p) if pol and ver in walk(f)), "V02/version", h, "the version never wraps", at)
            has = p.truth(is_some(old))
            if R.need(has is not None, "V02/old", h, "it is known whether there is an old version", at):
                pairs = []
                if has:
                    R.need(p.holds(eq(some_of(old), key(A(2)))), "V02/old", h, "the account closed is the one of the old version", at)
                    b = app("bal", A(2))
                    pairs = [(key(A(2)), neg(b)), (key(A(0)), b)]
                lamports_are(R, p, "V02/old", h, "the old version's account is closed in favour of the authority, and no other funds move", pairs)
    return job


def data_job(W):
    def job(R):
        h = "set_vkey_data"
        H = W.handler(h)
        v = W.view(VK, A(1))
        start = mul(N("sym", "data_position"), Int(PACKET))
        total = add(Int(VKEY_FIXED - 1), mul(Int(VKEY_PER_INPUT), W.get(v, "public_inputs_count")))
        for p in H.ok:
            R.count("packets")
            at = p.site()
            wr = [e for e, ls in p.flat() if e.a[0] in ("copy_into", "write")]
            if not R.need(len(wr) == 1 and wr[0].a[0] == "copy_into", "V02/data", h, "one range of bytes is written", at, "%d" % len(wr)):
                continue
            dst, src = wr[0].a[1], wr[0].a[2]
            if not R.need(dst.op == "slice" and src.op == "slice", "V02/data", h, "the range written is known", at, nice(dst)):
                continue
            child = None
            r = piece_of(dst)
            if r is not None:
                for y in walk(r[0]):
                    if y.op == "idx" and "child_accounts" in show(y.a[0], 3) and any(z is v for z in walk(y)) or y.op == "idx" and VK in show(y.a[0], 3):
                        child = y.a[1]
            lo, hi = (r[1], r[2]) if r is not None and r[2] is not None else (dst.a[1], dst.a[2])
            R.need(child is Int(1), "V02/data", h, "only the version being prepared is written, never the one in use", at, nice(dst))
            R.need(p.same(lo, start), "V02/data", h, "a packet is written at its own position", at, nice(dst.a[1]))
            inside = p.same(hi, add(start, PACKET)) and p.truth(lt(total, add(start, PACKET))) is False
            cut = p.same(hi, total)
            R.need(inside or cut, "V02/data", h, "a packet is written whole, or up to the end of the key", at, nice(dst.a[2]))
            R.need(any(y.op == "sym" and y.a[0] == "packet" for y in walk(src.a[0])) and src.a[1] is Int(0) and p.same(sub(src.a[2], src.a[1]), sub(hi, lo)), "V02/data", h, "the bytes written are the packet's first ones", at, nice(src))
    return job


def vkey_bytes_job(W, h):
    """no instruction but the packet upload writes into a verifying key's bytes"""
    def job(R):
        H = W.handler(h)
        for p in H.ok:
            for e, ls in p.flat():
                if e.a[0] in ("copy_into", "write"):
                    d = show(e.a[1], 12)
                    if re.search(r"VKeyAccount@accounts\[\d+\]\.child_accounts", d):
                        R.count("key byte writes")
                        R.need(h == "set_vkey_data", "V02/bytes", h, "a verifying key's bytes change only by its upload", p.site(), nice(e.a[1]))
    return job


@prop("V01", ("elusiv",), "every successful exit of the key-modifying instructions, and an inventory of stores into verifying-key state over all instructions")
def v01(R, W):
    """Every instruction that changes a verifying key's record is analysed for arbitrary callers: not frozen, authority (if any) equal to the signing caller, only the intended fields of the named key stored. Creation creates the account at its derived address. Every store into a key's record in the program must come from its instruction."""
    parallel(R, [(h, vkey_job(W, h)) for h in VKEY_MODIFY] + [("create", vkey_create(W))] + [(h, writers_job(W, h, VKEY_WRITERS)) for h in W.handler_names()])
    R.floor("modifying exits", 5)
    R.floor("creations", 1)
    R.floor("stores", 4)


@prop("V02", ("elusiv",), "every successful exit of upload and switch, with the written byte range as a polynomial; inventory of writes into key bytes over all instructions")
def v02(R, W):
    """The upload's written range and source are compared with the specified ones as polynomials over position and key size; the switch's slot stores, version and closing balances are compared exactly. No other instruction writes into a key's bytes."""
    parallel(R, [("switch", upd_job(W)), ("data", data_job(W))] + [(h, vkey_bytes_job(W, h)) for h in W.handler_names()])
    R.floor("switches", 1)
    R.floor("packets", 1)
    R.floor("key byte writes", 1)


# ---------------------------------------------------------------- G01: fee versions

GOV_WRITERS = {
    (GOV, "program_fee"): ("init_new_fee_version",),
    (GOV, "commitment_batching_rate"): ("setup_governor_account",),
    (GOV, "*"): (),
    (FEE, "*"): ("init_new_fee_version",),
}
MAX_RATE = 4


def fee_job(W):
    def job(R):
        h = "init_new_fee_version"
        H = W.handler(h, unroll=12)
        g, f = W.view(GOV, A(1)), W.view(FEE, A(2))
        fv, pf = N("sym", "fee_version"), N("sym", "program_fee")
        F = Fee(W, pf)
        ml = [c for c in W.P.consts if "CombinedMillerLoop as" in c[0] and c[0].endswith("::TX_COUNT")]
        fe = [c for c in W.P.consts if "FinalExponentiation as" in c[0] and c[0].endswith("::TX_COUNT")]
        if not R.need(len(ml) == 1 and len(fe) == 1, "G01/anchor", h, "the number of verification transactions is known", H.loc()):
            return
        txs = int(ml[0][4][1]) + int(fe[0][4][1]) + 2
        R.need(len(H.ok) >= 1, "G01/exit", h, "a fee version can be set", H.loc())
        for p in H.ok:
            R.count("fee versions")
            at = p.site()
            R.need(p.holds(eq(fv, W.get(g, "fee_version"))), "G01/version", h, "fees are set for the governor's current version only", at)
            R.need(created(p, 2), "G01/once", h, "the record of a fee version is created with its fees, so they are set once", at)
            R.need(derived(W, p, A(2), FEE, offset=u32le(fv)), "G01/once", h, "the record is that of the version named", at)
            for T, v in ((FEE, f), (GOV, g)):
                l = p.sets(T + ".program_fee")
                R.need(len(l) == 1 and l[0][1].a[0] == v.a[0] and l[0][2] is None and p.same(l[0][3], pf), "G01/fees", h, "record and governor take over exactly the fees given", at, "; ".join(nice(x[3]) for x in l))
            n = fld(pf, "proof_base_tx_count")
            R.need(p.holds(eq(n, Int(txs))), "G01/valid", h, "the number of transactions paid for is that of the verification", at)
            for b in range(MAX_RATE + 1):
                fee = F.commitment_hash(b)
                R.need(p.truth(lt(fee, F.f("base_commitment_subvention"))) is False, "G01/valid", h, "the deposit subvention never exceeds the hashing fee of a batch of 2^%d" % b, at)
                pfee = add(mul(n, F.f("lamports_per_tx")), fee)
                R.need(p.truth(lt(pfee, F.f("proof_subvention"))) is False, "G01/valid", h, "the withdrawal subvention never exceeds the cheapest verification with a batch of 2^%d" % b, at)
    return job


def governor_job(W):
    def job(R):
        h = "setup_governor_account"
        H = W.handler(h)
        g = W.view(GOV, A(1))
        R.need(len(H.ok) >= 1, "G01/exit", h, "the governor can be set up", H.loc())
        for p in H.ok:
            at = p.site()
            R.need(created(p, 1) and derived(W, p, A(1), GOV), "G01/governor", h, "there is one governor, created at its address", at)
            l = p.sets(GOV + ".commitment_batching_rate")
            R.need(len(l) == 1 and l[0][3].op == "int" and 0 <= l[0][3].a[0] <= MAX_RATE, "G01/governor", h, "the batching rate is within the limits of a batch", at)
    return job


@prop("G01", ("elusiv",), "every successful exit of governor set-up and fee version, per batch size; inventory of stores into fee and governor records over all instructions")
def g01(R, W):
    """Setting a fee version is analysed for arbitrary fees with the validity loop unrolled over all batch sizes: version, creation of the record, both stored copies, and the bounds on the subventions as polynomials over the fees given. Every store into a fee or governor record must come from these two instructions."""
    parallel(R, [("fee", fee_job(W)), ("governor", governor_job(W))] + [(h, writers_job(W, h, GOV_WRITERS)) for h in W.handler_names()])
    R.floor("fee versions", 1)
    R.floor("stores", 2)
    R.floor("handlers", 33)
