"""Creation of program accounts."""
from .lib import *
from .verification import mark_seeds, strip_bytes

IX = lambda s: u32le(N("sym", s))
KEY = lambda i: key(A(i))
# instruction: [(record, payer, account, address components or None when another rule decides them)]
OPENS = {
    "elusiv": {
        "create_new_accounts_v1": [("CommitmentBufferAccount", 0, 1, []), ("MetadataQueueAccount", 0, 2, []), ("MetadataAccount", 0, 3, [])],
        "create_vkey_account": [("VKeyAccount", 0, 1, [IX("vkey_id")])],
        "init_new_fee_version": [("FeeAccount", 0, 2, [IX("fee_version")])],
        "init_verification": [("VerificationAccount", 0, 1, [KEY(0), IX("verification_account_index")]), ("NullifierDuplicateAccount", 0, 3, None)],
        "open_nullifier_account": [("NullifierAccount", 0, 1, [IX("mt_index")])],
        "open_single_instance_accounts": [("PoolAccount", 0, 1, []), ("FeeCollectorAccount", 0, 2, []), ("CommitmentHashingAccount", 0, 3, []), ("CommitmentQueueAccount", 0, 4, []), ("StorageAccount", 0, 5, []), ("BaseCommitmentBufferAccount", 0, 6, [])],
        "setup_governor_account": [("GovernorAccount", 0, 1, [])],
        "store_base_commitment": [("BaseCommitmentHashingAccount", 2, 12, [IX("hash_account_index")])],
    },
    "warden": {
        "add_metadata_attester": [("BasicWardenAttesterMapAccount", 0, 1, [N("sym", "attester")])],
        "init": [("WardensAccount", 0, 1, []), ("BasicWardenNetworkAccount", 0, 2, []), ("ApaWardenNetworkAccount", 0, 3, []), ("ApaProposalsAccount", 0, 4, [])],
        "open_basic_warden_stats_account": [("BasicWardenStatsAccount", 1, 2, [KEY(0), IX("year")])],
        "propose_apa_proposal": [("ApaProposalAccount", 0, 1, [IX("proposal_id")]), ("ApaTargetMapAccount", 0, 3, [fld(N("sym", "proposal"), "target")])],
        "register_basic_warden": [("BasicWardenAccount", 0, 1, [IX("warden_id")]), ("BasicWardenMapAccount", 0, 2, [KEY(0)])],
        "register_warden_operator": [("WardenOperatorAccount", 0, 1, [KEY(0)])],
        "start_apa_genesis_warden_application": [("ApaWardenAccount", 0, 2, ["warden"])],
    },
}
# the runtime refuses to grow an account by more within one instruction (MAX_PERMITTED_DATA_INCREASE)
CREATE_LIMIT = 10 * 1024
# the exits of these may do without the record, when it exists already
OPTIONAL = {("init_verification", "NullifierDuplicateAccount"), ("propose_apa_proposal", "ApaTargetMapAccount")}


def seeds_list(s):
    while s.op in ("arr", "tup") and len(s.a) == 1 and s.a[0].op in ("arr", "tup"):
        s = s.a[0]
    return list(s.a) if s.op in ("arr", "tup") else []


def create_calls(p):
    out = []
    for name, ins, seeds, loops, ev in p.invokes():
        n = ins if isinstance(ins, Node) else ins[0]
        if n.op == "app" and str(n.a[0]).endswith("create_account") and len(n.a) == 6:
            out.append((n.a[1], n.a[2], n.a[3], n.a[4], n.a[5], seeds_list(seeds), loops))
        elif any(y.op == "app" and "create_account" in str(y.a[0]) for y in walk(n)) or "allocate" in show(n, 3):
            out.append(None)
    return out


def one_byte(n):
    return n.a[0] if n.op in ("arr", "tup") and len(n.a) == 1 else n


def open_job(W, h, table):
    def job(R):
        H = W.handler(h)
        rows = table.get(h, [])
        R.count("handlers")
        pid = W.pk(W.program_id)
        for p in H.ok:
            at = p.site()
            todo = {T: (pay, acct, comp) for T, pay, acct, comp in rows}
            for c in create_calls(p):
                R.count("creations")
                if not R.need(c is not None and not c[6], "P/create", h, "every account is created once, by one plain request", at):
                    continue
                payer, new, lam, size, own, seeds, _ = c
                T = None
                if seeds and seeds[0].op == "bytes":
                    T = {v: k for k, v in W.seeds.items()}.get(bytes.fromhex(seeds[0].a[0]))
                if not R.need(T in todo, "P/create", h, "only the records the instruction is for are created", at, "%s %s" % (T, nice(new))):
                    continue
                pay, acct, comp = todo.pop(T)
                k = key(A(acct))
                R.need(p.same(payer, key(A(pay))), "P/payer", h, "the designated payer pays for the record %s" % T, at, nice(payer))
                R.need(p.same(new, k), "P/account", h, "the record %s is created in the account designated for it" % T, at, nice(new))
                R.need(p.same(size, Int(W.acct_size[T])), "P/size", h, "the record %s is created with its exact size" % T, at, nice(size))
                R.need(p.canon(size).op == "int" and p.canon(size).a[0] <= CREATE_LIMIT, "P/limit", h, "the record %s is not larger than one instruction can create" % T, at, nice(size))
                R.need(own_id(W, p, own), "P/owner", h, "the record %s is created for the program itself" % T, at, nice(own))
                R.need(lam.op == "app" and str(lam.a[0]).endswith("minimum_balance") and p.same(lam.a[-1], size), "P/rent", h, "the record %s gets exactly the rent for its size" % T, at, nice(lam))
                bump = one_byte(seeds[-1])
                body = seeds[1:-1]
                # the address signed for is the account's address
                if not body and W.first_pda.get(T) is not None:
                    good = p.holds(eq(k, W.pda_key(T))) or p.same(k, W.pda_key(T))
                else:
                    good = False
                    for a, b in pos_eqs(p):
                        d = pda_node(b)
                        if d and (a is k or p.canon(a) is p.canon(k)) and p.same(d[1], pid) and len(d[0]) == len(seeds) - 1:
                            good |= all(p.same(strip_bytes(x), strip_bytes(y)) for x, y in zip(d[0], seeds[:-1])) and (d[2] is None or p.same(one_byte(d[2]), bump))
                R.need(good, "P/address", h, "the record %s is created at the address its seeds derive" % T, at, "; ".join(nice(x) for x in seeds))
                if comp is not None:
                    want = [warden_id(W) if x == "warden" else x for x in comp]
                    R.need(len(body) == len(want) and all(p.same(strip_bytes(x), strip_bytes(y)) for x, y in zip(body, want)), "P/address", h, "the record %s belongs to the owner and index given" % T, at, "; ".join(nice(x) for x in body))
                R.need(header(p, A(acct), bump), "P/header", h, "the record %s starts with its bump and version zero, and is otherwise empty" % T, at)
            left = [T for T in todo if (h, T) not in OPTIONAL]
            R.need(not left, "P/create", h, "every success creates all records of the instruction", at, ", ".join(left))
    return job


def warden_id(W):
    return u32le(W.get(W.view("BasicWardenMapAccount", A(1)), "warden_id"))


def header(p, acct, bump):
    """bump, then zero, serialised to the start of the account's data"""
    data = fld(acct, "data")
    for f, pol in p.s.facts:
        if pol and f.op == "is" and f.a[1] == "Ok" and "u8 as borsh::BorshSerialize>::serialize" in str(f.a[0].a[0]) and f.a[0].a[1] is Int(0):
            o = f.a[0].a[2]
            if o.op == "app" and o.a[0] == "out":
                o = o.a[1]
            elif o.op == "out":
                o = o.a[0]
            if o.op == "app" and "u8 as borsh::BorshSerialize>::serialize" in str(o.a[0]) and p.same(one_byte(o.a[1]), bump) and o.a[2] is data:
                return True
    return False


def run(R, W, which):
    parallel(R, [(h, open_job(W, h, OPENS[which])) for h in W.handler_names()])


@prop("P01", ("elusiv",), "every account creation on every successful exit of every instruction: record, payer, address, size, owner, rent and header")
def p01(R, W):
    """All account creations of the payment program are enumerated over all instructions' successful exits and compared with the specified table: payer, account, derived address (seeds signed with equal those of the address check), exact size, owner, rent and the header written."""
    run(R, W, "elusiv")
    R.floor("handlers", 33)
    R.floor("creations", 17)


@prop("P02", ("warden",), "every account creation on every successful exit of every instruction: record, payer, address, size, owner, rent and header")
def p02(R, W):
    """All account creations of the warden network program are enumerated over all instructions' successful exits and compared with the specified table: payer, account, derived address (seeds signed with equal those of the address check), exact size, owner, rent and the header written."""
    run(R, W, "warden")
    R.floor("handlers", 15)
    R.floor("creations", 11)


def header_bump(p, b, acct):
    """b is the bump stored at the start of the account's own data (or contains nothing of any account's data)"""
    b = p.canon(one_byte(b))
    data = fld(acct, "data")
    if p.same(b, N("idx", data, Int(0))):
        return True
    if b.op == "fld" and b.a[1] == "bump_seed":                 # decoded as the header record from the first two bytes
        for x in walk(b.a[0]):
            if x.op == "slice" and x.a[0] is data and x.a[1] is Int(0):
                return True
    return False


def bump_job(W, h):
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        for p in H.ok:
            at = p.site()
            for a, b in pos_eqs(p):
                d = pda_node(b)
                k = p.canon(a)
                if d is None or k.op != "fld" or k.a[1] != "key":
                    continue
                R.count("recognitions")
                if d[2] is None:
                    continue
                bump = p.canon(one_byte(d[2]))
                if not any(x is ACCOUNTS for x in walk(bump)):      # searched for, or named by the caller
                    continue
                R.need(header_bump(p, d[2], k.a[0]), "bump", h, "a stored record is recognised by the bump its creation stored", at, "%s by %s" % (nice(k), nice(bump)))
            for e, ls in p.flat():
                if e.a[0] == "set":
                    R.need("pda_data" not in show(e, 3), "header", h, "the header of a record is never rewritten", at, nice(e))
    return job


@prop("P03", ("elusiv", "warden"), "on every successful exit of every instruction of both programs, each derived-address equality whose bump is read from account data reads it from the first byte of that same account, where creation (P01, P02) serialised it")
def p03(R, W, WW):
    """All equalities between an account's address and a derived address are enumerated on all successful exits of all instructions of both programs. Where the bump is taken from stored data, the term must be the first byte of the very account that is checked: that is where the creation rules find the bump written."""
    for w in (W, WW):
        parallel(R, [(h, bump_job(w, h)) for h in w.handler_names()])
    R.floor("handlers", 48)
    R.floor("recognitions", 30)
