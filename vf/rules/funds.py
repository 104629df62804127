"""What moves between accounts."""
from .lib import *


@prop("F01", ("elusiv",), "per successful exit: the net lamports / token balance change of every account equals the specified linear form in amount, fees and rent")
def f01(R, W):
    """Symbolic net-balance dataflow over the MIR of the deposit entry point: on every successful exit the balance delta of each account is extracted as a polynomial and compared with the specified one."""
    H = W.handler("store_base_commitment")
    w = H.name
    req = H.arg(2)
    am, tid, rate = fld(req, "amount"), fld(req, "token_id"), fld(req, "min_batching_rate")
    g = W.view("GovernorAccount", A(10))
    fee = Fee(W, W.get(g, "program_fee"))
    sender, sender_a, fp, fp_a, pool, pool_a, fc, fc_a = [key(A(i)) for i in range(8)]
    net = app("div", mul(fee.f("base_commitment_network_fee"), am), Int(10000))
    native, token = 0, 0
    for p in H.ok:
        R.count("exits")
        b = rate_of(p, rate)
        if not R.need(b is not None, "rate", w, "a successful deposit has a known batching rate between 0 and 4", p.site(), p.describe()):
            continue
        cf = add(fee.base_hash(), fee.commitment_hash(b))
        sub_l = fee.f("base_commitment_subvention")
        rent = [(fp, neg(r)) for r in creations(p, fp)] + [(key(A(12)), r) for r in creations(p, fp)]
        if p.holds(eq(tid, 0)):
            native += 1
            lamports_are(R, p, "flow", w, "native deposit: amount to the pool, hashing fee to the fee payer and on to the pool, network fee to the collector, subvention from the collector",
                         [(sender, neg(am)), (pool_a, am), (sender, neg(sub(cf, sub_l))), (fp_a, sub(cf, sub_l)), (fp, neg(cf)), (pool, cf),
                          (sender, neg(net)), (fc_a, net), (fc, neg(sub_l)), (fp_a, sub_l)] + rent)
            tokens_are(R, p, "flow", w, "native deposit moves no tokens", [])
            R.need(p.holds(eq(pool_a, pool)) and p.holds(eq(fc_a, fc)), "native accounts", w, "a native deposit pays the pool and fee collector accounts themselves", p.site())
        else:
            token += 1
            R.need(p.truth(eq(tid, 0)) is False, "token", w, "a deposit is either native or a token deposit", p.site())
            lamports_are(R, p, "flow", w, "token deposit: the fee payer covers the hashing fee and rent in lamports", [(fp, neg(cf)), (pool, cf)] + rent)
            cf_t, sub_t = priced(p, cf, 8, 9, tid), priced(p, sub_l, 8, 9, tid)
            if R.need(cf_t is not None and sub_t is not None, "flow", w, "token deposit: fee and subvention are converted at the oracle price of the token", p.site()):
                tokens_are(R, p, "flow", w, "token deposit: amount to the pool's token account, fees and subvention as specified",
                           [(sender_a, neg(am)), (pool_a, am), (sender_a, neg(sub(cf_t, sub_t))), (fp_a, sub(cf_t, sub_t)),
                            (sender_a, neg(net)), (fc_a, net), (fc_a, neg(sub_t)), (fp_a, sub_t)])
    R.count("native exits", native)
    R.count("token exits", token)
    R.floor("native exits", 2)
    R.floor("token exits", 2)


def creations(p, payer):
    """rents paid by payer for accounts opened on p"""
    out = []
    for nm, ins, seeds, ls, e in p.invokes():
        if nm == "solana_program::system_instruction::create_account":
            out.append(ins.a[3])
    return out


def priced(p, lamports, sol, tok, tid):
    """`lamports` converted into token `tid` at the oracle prices held by accounts `sol` and `tok`"""
    t = token_const(p, tid)
    if t is None:
        return None
    E = "elusiv_types::Price::"
    dec = app("neg", fld(t, "decimals"))

    def usd(i, exp):
        cur = some_of(app("pyth_sdk::PriceFeed::get_current_price", ok_of(app("elusiv_types::load_price_feed_from_account_info", A(i)))))
        return some_of(app(E + "cmul", cur, Int(1), exp))
    t0 = t.a[0].a[0]
    exp0 = [f for f in p.H.W.P.adts[t0.a[0]]["variants"][0][2]]
    names = [f[0] for f in exp0]
    base0 = t0.a[2 + names.index("price_base_exp")]
    v = some_of(app(E + "mul", usd(sol, app("neg", base0)), N("adt", "elusiv_types::Price", None, lamports, Int(0), Int(0))))
    v = some_of(app(E + "get_price_in_quote", v, usd(tok, app("neg", fld(t, "price_base_exp"))), dec))
    return fld(some_of(app(E + "scale_to_exponent", v, dec)), "price")


@prop("F02", ("elusiv",), "per successful exit of the computation entry points: pool pays exactly the specified compensation to the computing/original fee payer and nothing else moves")
def f02(R, W):
    """Symbolic net-balance dataflow over MIR: on every successful exit of the two commitment-hash compensation instructions the balance deltas equal the specified linear forms of the fee account's values."""
    H = W.handler("finalize_base_commitment_hash")
    fee = Fee(W, W.get(W.view("FeeAccount", A(2)), "program_fee"))
    pool, fp, h = key(A(1)), key(A(0)), A(3)
    bal = app("bal", h)
    for p in H.ok:
        R.count("exits")
        hv = W.view("BaseCommitmentHashingAccount", h)
        R.need(p.holds(eq(W.get(hv, "fee_version"), N("sym", "fee_version"))) and derived(W, p, A(2), "FeeAccount", None, u32le(N("sym", "fee_version"))), "version", H.name, "the compensation is that of the fee version the deposit paid for", p.site(), p.describe())
        R.need(p.holds(eq(W.get(hv, "fee_payer"), bytes_of(fp))), "payer", H.name, "the compensation goes to the relayer who opened the computation", p.site(), p.describe())
        lamports_are(R, p, "flow", H.name, "the pool repays the base hashing cost to the original fee payer, who also gets the closed account's rent back",
                     [(pool, neg(fee.base_hash())), (fp, fee.base_hash()), (key(h), neg(bal)), (fp, bal)])
        tokens_are(R, p, "flow", H.name, "no tokens move", [])
    H = W.handler("compute_commitment_hash")
    fee = Fee(W, W.get(W.view("FeeAccount", A(1)), "program_fee"))
    for p in H.ok:
        R.count("exits")
        hv = W.view("CommitmentHashingAccount", A(3))
        R.need(p.holds(eq(W.get(hv, "fee_version"), N("sym", "fee_version"))) and derived(W, p, A(1), "FeeAccount", None, u32le(N("sym", "fee_version"))), "version", H.name, "the compensation is that of the fee version the batch was paid for", p.site(), p.describe())
        lamports_are(R, p, "flow", H.name, "the pool pays the computing party one hashing transaction", [(key(A(2)), neg(fee.hash_tx())), (key(A(0)), fee.hash_tx())])
        tokens_are(R, p, "flow", H.name, "no tokens move", [])
    R.floor("exits", 2)


def close_flow(p, closed, dest):
    b = app("bal", closed)
    return [(key(closed), neg(b)), (dest, b)]


def settled(R, p, w, V, pool, dest, closed, lam, tok, what):
    """compare lamports and token flows, reading closed accounts' balances at any snapshot"""
    have, bad = p.lamports()
    R.need(not bad, "flow", w, what + " (every balance change is resolved)", p.site(), "; ".join(b[0] for b in bad)[:300])
    for c in closed:
        lam = lam + close_flow(p, c, dest)
    net = {}
    for k, v in have.items():
        for c in closed:
            v = debal(p, v, c)
        net[k] = poly_node(poly_dict(v))
    d = flow_diff(p, net, flow(p, lam))
    R.need(not d, "flow", w, what + ": lamports", p.site(), d[:700] + " | exit: " + p.describe())
    d = flow_diff(p, p.tokens(), flow(p, tok))
    R.need(not d, "flow", w, what + ": tokens", p.site(), d[:700] + " | exit: " + p.describe())


@prop("F04", ("elusiv",), "per successful exit of the native payout entry point: net lamports change of every account equals the specified linear form in amount, optional fee and recorded fees")
def f04(R, W):
    """Symbolic net-balance dataflow over MIR of the native payout: recipient, optional fee collector, relayer, fee collector and closed accounts receive exactly the specified linear forms; a rejected proof pays only the collector."""
    H = W.handler("finalize_verification_transfer_lamports")
    w = H.name
    fp, rec, pool, fc, ofc = [key(A(i)) for i in range(5)]
    for p in H.ok:
        R.count("exits")
        V = Verif(p, 7)
        if not R.need(V.kind is not None, "request", w, "the kind of the stored request is decided before funds move", p.site()):
            continue
        skip, rej = p.truth(V.f("skip_nullifier_pda")), V.rejected()
        R.need(skip is not None, "close", w, "whether the duplicate guard account belongs to this request is decided", p.site())
        closed = [A(7)] + ([] if skip else [A(8)])
        if rej is None:
            R.need(False, "outcome", w, "the recorded proof outcome is decided before funds move", p.site(), p.describe())
            continue
        if rej:
            R.count("rejected")
            settled(R, p, w, V, pool, fc, closed, [(pool, neg(V.f("subvention"))), (fc, V.f("subvention")),
                                                 (pool, neg(V.f("commitment_hash_fee.0"))), (fc, V.f("commitment_hash_fee.0"))], [], "a rejected proof pays subvention, hashing fee and rent to the fee collector only")
            continue
        R.need(named(p, A(0), V.f("fee_payer.0")), "relayer", w, "the relayer is the recorded one", p.site())
        cost = add(V.f("commitment_hash_fee_token"), V.f("proof_verification_fee"))
        lam = [(pool, neg(cost)), (fp, cost), (pool, neg(V.f("network_fee"))), (fc, V.f("network_fee"))]
        if V.kind == "Send":
            am, of = V.js("amount"), V.js("optional_fee.amount")
            zero = p.truth(eq(am, 0))
            if not R.need(zero is not None, "payout", w, "whether an amount is paid out is decided", p.site()):
                continue
            if not zero:
                R.count("payouts")
                sp = p.truth(V.body("solana_pay_transfer"))
                R.need(sp is not None, "payout", w, "the payout mode is decided", p.site())
                to = fp if sp else rec
                lam += [(pool, neg(sub(am, of))), (to, sub(am, of))]
                R.need(named(p, A(1), fld(some_of(V.f("recipient_wallet")), "0")), "recipient", w, "the recipient is the recorded one", p.site())
                if p.truth(eq(of, 0)) is not True:
                    lam += [(pool, neg(of)), (ofc, of)]
                    R.need(named(p, A(4), V.js("optional_fee.collector")), "collector", w, "the optional fee goes to the collector the request names", p.site())
        settled(R, p, w, V, pool, fp, closed, lam, [], "native payout: amount minus optional fee to the recipient, optional fee to its collector, recorded fees to relayer and collector")
    R.floor("payouts", 4)
    R.floor("rejected", 2)
    R.floor("exits", 5)


@prop("F05", ("elusiv",), "per successful exit of the token payout entry point: net token and lamports change of every account equals the specified linear form")
def f05(R, W):
    """Symbolic net-balance dataflow over MIR of the token payout: token and lamport deltas of every account equal the specified linear forms in amount, optional fee, recorded fees and token-account rent."""
    H = W.handler("finalize_verification_transfer_token")
    w = H.name
    fp, fpa, rec, rw, pool, pool_a, fc, fca, ofc = [key(A(i)) for i in range(9)]
    for p in H.ok:
        R.count("exits")
        V = Verif(p, 11)
        if not R.need(V.kind is not None, "request", w, "the kind of the stored request is decided before funds move", p.site()):
            continue
        skip, rej = p.truth(V.f("skip_nullifier_pda")), V.rejected()
        R.need(skip is not None, "close", w, "whether the duplicate guard account belongs to this request is decided", p.site())
        closed = [A(11)] + ([] if skip else [A(12)])
        if rej is None:
            R.need(False, "outcome", w, "the recorded proof outcome is decided before funds move", p.site(), p.describe())
            continue
        rent = ata_rent(p)
        if rej:
            R.count("rejected")
            lam = [(pool, neg(V.f("commitment_hash_fee.0"))), (fc, V.f("commitment_hash_fee.0"))]
            reserved = V.kind == "Send" and p.truth(V.body("recipient_is_associated_token_account"))
            R.need(reserved is not None, "payout", w, "a rejected proof returns the token-account rent only where it was reserved", p.site(), p.describe())
            if reserved:
                if not R.need(rent is not None, "flow", w, "the reserved token-account rent is returned", p.site()):
                    continue
                lam += [(pool, neg(rent)), (fc, rent)]
            settled(R, p, w, V, pool, fc, closed, lam, [(pool_a, neg(V.f("subvention"))), (fca, V.f("subvention"))],
                    "a rejected proof pays subvention, hashing fee, reserved rent and account rent to the fee collector only")
            continue
        R.need(named(p, A(0), V.f("fee_payer.0")) and named(p, A(1), V.f("fee_payer_account.0")), "relayer", w, "the relayer and its token account are the recorded ones", p.site())
        cost = add(V.f("commitment_hash_fee_token"), V.f("proof_verification_fee"))
        tok = [(pool_a, neg(cost)), (fpa, cost), (pool_a, neg(V.f("network_fee"))), (fca, V.f("network_fee"))]
        lam = []
        if V.kind == "Send":
            am, of = V.js("amount"), V.js("optional_fee.amount")
            zero = p.truth(eq(am, 0))
            if not R.need(zero is not None, "payout", w, "whether an amount is paid out is decided", p.site()):
                continue
            if not zero:
                R.count("payouts")
                sp, ata = p.truth(V.body("solana_pay_transfer")), p.truth(V.body("recipient_is_associated_token_account"))
                R.need(sp is not None and ata is not None, "payout", w, "the payout mode is decided", p.site())
                made = [x for x in p.invokes() if x[0].startswith("spl_associated_token_account::")]
                out = sub(am, of)
                if made:
                    R.count("creations")
                    ins = made[0][1]
                    tc = token_const(p, V.js("token_id"))
                    ok = len(made) == 1 and ata and tc is not None and p.same(ins.a[1], fp) and p.same(ins.a[2], rw) and p.same(ins.a[3], fld(tc, "mint")) and p.holds(eq(app("bal", A(2)), 0))
                    R.need(ok, "account creation", w, "a missing token account is created for the recipient wallet and the request's mint, at the relayer's expense", p.site(), show(ins)[:200])
                    out = sub(out, V.f("associated_token_account_rent"))
                    tok += [(pool_a, neg(V.f("associated_token_account_rent"))), (fpa, V.f("associated_token_account_rent"))]
                elif ata:
                    R.need(p.truth(eq(app("bal", A(2)), 0)) is False, "account creation", w, "a missing token account is created before the payout", p.site())
                if ata:
                    if not R.need(rent is not None, "flow", w, "the reserved token-account rent is returned", p.site()):
                        continue
                    lam += [(pool, neg(rent)), (fp, rent)]
                to = rec
                wallet = fld(some_of(V.f("recipient_wallet")), "0")
                if ata:
                    tc = token_const(p, V.js("token_id"))
                    R.need(named(p, A(3), wallet) and tc is not None and ata_fact(p, A(2), rw, fld(tc, "mint")), "recipient", w, "the recipient is the recorded wallet's associated token account for the request's mint", p.site())
                else:
                    R.need(named(p, A(2), wallet), "recipient", w, "the recipient is the recorded one", p.site())
                if not ata and not good_token_account(p, A(2), V.js("token_id")):
                    R.count("diverted")
                    to = fca
                tok += [(pool_a, neg(out)), (fpa if sp else to, out)]
                if p.truth(eq(of, 0)) is not True:
                    tok += [(pool_a, neg(of)), (ofc, of)]
                    R.need(named(p, A(8), V.js("optional_fee.collector")), "collector", w, "the optional fee goes to the collector the request names", p.site())
        settled(R, p, w, V, pool, fp, closed, lam, tok, "token payout: amount minus deductions to the recipient, recorded fees to relayer and collector")
    R.floor("payouts", 8)
    R.floor("rejected", 2)
    R.floor("creations", 4)
    R.floor("diverted", 2)


def good_token_account(p, acct, tid):
    """acct is known to be a token account of the token's mint"""
    if not any(f.op == "eq" and pol and owner(acct) in f.a and any(x.op == "static" and x.a[0].endswith("spl_token::ID") for x in f.a) for f, pol in p.s.facts):
        return False
    tc = token_const(p, tid)
    for a, b in pos_eqs(p):
        if a.op == "fld" and a.a[1] == "mint" and acct in set(walk(a)) and tc is not None and p.same(b, fld(tc, "mint")):
            return True
    return False


def adt_fields(W, n):
    """field name -> term of a struct value"""
    names = [f[0] for f in W.P.adts[n.a[0]]["variants"][0][2]]
    return dict(zip(names, n.a[2:]))


@prop("F03", ("elusiv",), "per successful exit: net flows, the recorded fee data and the fee guard equal the specified forms of the governor's fee at the oracle price")
def f03(R, W):
    """Symbolic net-balance and value-flow analysis over MIR of the relayer fee transfer: pool, collector and relayer deltas, the fee amounts recorded for the later payout, and the guard on the fee the user authorised equal the specified forms."""
    H = W.handler("init_verification_transfer_fee")
    w = H.name
    fp, fpa, pool, pool_a, fc, fca = [key(A(i)) for i in range(6)]
    g = W.view("GovernorAccount", A(8))
    fee = Fee(W, W.get(g, "program_fee"))
    rate = W.get(g, "commitment_batching_rate")
    for p in H.ok:
        R.count("exits")
        V = Verif(p, 9)
        b = rate_of(p, rate)
        if not R.need(V.kind is not None, "request", w, "the kind of the stored request is decided", p.site()) or not R.need(b is not None, "rate", w, "the batching rate is between 0 and 4", p.site()):
            continue
        tid, am = V.js("token_id"), V.js("amount")
        native = p.truth(eq(tid, 0))
        if not R.need(native is not None, "token", w, "the transfer is either native or a token transfer", p.site()):
            continue
        R.count("native" if native else "token")

        def conv(x):
            return x if native else priced(p, x, 6, 7, tid)
        cf = fee.commitment_hash(b)
        sub_l = fee.f("proof_subvention")
        pv = add(mul(add(W.get(V.v, "prepare_inputs_instructions_count"), fld(W.get(g, "program_fee"), "proof_base_tx_count")), fee.f("lamports_per_tx")), fee.f("warden_proof_reward"))
        ata = p.truth(V.body("recipient_is_associated_token_account")) if V.kind == "Send" else False
        R.need(ata is not None, "rent", w, "whether token-account rent is reserved is decided", p.site())
        rent = ata_rent(p) if ata else Int(0)
        if not R.need(rent is not None, "rent", w, "token-account rent is reserved for a payout to an associated token account", p.site()):
            continue
        sub_t, pv_t, cf_t = conv(sub_l), conv(pv), conv(cf)
        net = app("div", mul(fee.f("proof_network_fee"), am), Int(10000))
        up = add(cf, rent)
        what = "the relayer funds commitment hashing and reserved rent, the collector pays the subvention"
        if native:
            lamports_are(R, p, "flow", w, what, [(fp, neg(up)), (pool, up), (fc, neg(sub_l)), (pool_a, sub_l)])
            tokens_are(R, p, "flow", w, what, [])
        else:
            lamports_are(R, p, "flow", w, what, [(fp, neg(up)), (pool, up)])
            tokens_are(R, p, "flow", w, what, [(fca, neg(sub_t)), (pool_a, sub_t)])
        for a, o in ((pool_a, pool), (fca, fc)):
            if native:
                R.need(p.holds(eq(a, o)), "program account", w, "native fees move between the pool and collector accounts themselves", p.site())
        R.need(p.holds(le(sub(add(cf_t, pv_t, net), sub_t), V.js("fee"))), "fee guard", w, "the authorised fee covers hashing, verification and network fee less the subvention", p.site(), p.describe())
        R.need(p.holds(eq(V.js("fee_version"), W.get(g, "fee_version"))), "fee version", w, "the request names the governor's current fee version", p.site())
        if ata:
            R.count("reserved")
            R.need(not native, "rent", w, "a native payout never names an associated token account", p.site())
            R.need(p.holds(le(add(conv(rent), V.js("optional_fee.amount")), am)), "rent guard", w, "the amount covers the token-account rent and the optional fee", p.site(), p.describe())
        if native and V.kind == "Send" and p.truth(eq(am, 0)) is not True:
            R.need(any(f.op == "lt" and not pol and p.same(f.a[0], am) and str(f.a[1].a[0]).endswith("minimum_balance") and f.a[1].a[-1] is Int(0) for f, pol in p.s.facts),
                   "rent guard", w, "a native payout leaves the recipient rent exempt", p.site(), p.describe())
        v = p.final("VerificationAccount.other_data", V.v)
        if R.need(v is not None and v.op == "adt", "recorded", w, "the fees are recorded for the payout", p.site()):
            have = adt_fields(W, v)
            want = {"fee_payer.0": bytes_of(fp), "fee_payer_account.0": bytes_of(fpa), "skip_nullifier_pda": V.f("skip_nullifier_pda"), "min_batching_rate": rate,
                    "token_id": tid, "subvention": sub_t, "network_fee": net, "commitment_hash_fee.0": cf, "commitment_hash_fee_token": cf_t,
                    "proof_verification_fee": pv_t, "associated_token_account_rent": conv(rent) if ata else Int(0)}
            for k, x in want.items():
                got = fld(v, k)
                R.need(p.same(got, x), "recorded", w, "the recorded %s is the charged one" % k.split(".")[0], p.site(), "records %s, specified %s" % (nice(p.canon(got)), nice(p.canon(x))))
            R.need(len(have) == len(want) + 1, "recorded", w, "every recorded field is specified", p.site(), ",".join(have))
    R.floor("native", 4)
    R.floor("token", 3)
    R.floor("reserved", 2)


FLOW_CHECKED = {"store_base_commitment": "F01", "finalize_base_commitment_hash": "F02", "compute_commitment_hash": "F02", "init_verification_transfer_fee": "F03",
                "finalize_verification_transfer_lamports": "F04", "finalize_verification_transfer_token": "F05"}
# accounts that are closed on purpose: handler -> (closed account, beneficiary)
CLOSES = {("elusiv", "update_vkey_version"): (2, 0), ("elusiv", "close_program_account"): (2, 1), ("warden", "close_program_account"): (2, 1),
          ("warden", "revoke_metadata_attester"): (2, 0)}
# payer of newly opened accounts, where it is not the first account
PAYS = {("warden", "add_metadata_attester"): 0, ("warden", "open_basic_warden_stats_account"): 1}


def still_job(W, h):
    def job(R):
        H = W.handler(h)
        R.count("handlers")
        for p in H.ok:
            R.count("exits")
            have, bad = p.lamports()
            R.need(not bad, "flow", h, "every balance change is resolved", p.site(), "; ".join(b[0] for b in bad)[:300])
            if h in FLOW_CHECKED and W.which == "elusiv":
                continue
            R.need(not p.tokens(), "flow", h, "no tokens move", p.site(), str(p.tokens())[:300])
            payer = key(A(PAYS.get((W.which, h), 0)))
            want = []
            for nm, ins, seeds, ls, e in p.invokes():
                if nm == "solana_program::system_instruction::create_account":
                    want += [(payer, neg(ins.a[3])), (ins.a[2], ins.a[3])]
            if (W.which, h) in CLOSES:
                c, b = CLOSES[(W.which, h)]
                if p.canon(key(A(c))) in have:
                    R.count("closed")
                    want += close_flow(p, A(c), key(A(b)))
            d = flow_diff(p, have, flow(p, want))
            R.need(not d, "flow", h, "lamports move only as rent of opened accounts or the balance of a closed account", p.site(), d[:600])
    return job


def source_job(W, h):
    def job(R):
        H = W.handler(h)
        for p in H.ok:
            for nm, ins, seeds, ls, e in p.invokes():
                if nm.startswith("solana_program::system_instruction::") or nm.startswith("spl_associated_token_account::"):
                    src = ins.a[1]
                    who = src
                elif nm.startswith("spl_token::instruction::"):
                    who = ins.a[4] if len(ins.a) > 4 else None
                else:
                    continue
                R.count("calls")
                if seeds is not None and nm != "solana_program::system_instruction::create_account":
                    R.count("signed for")
                    R.need(program_signs(W, p, who, seeds), "authority", h, "the program signs only as the account it debits", p.site(), show(who)[:200])
                    continue
                R.need(has_signed(p, who), "authority", h, "whoever is debited by another program has signed the transaction", p.site(), show(who)[:200])
    return job


def has_signed(p, k):
    k = p.canon(k)
    for (f, pol) in p.s.facts:
        if pol and f.op == "fld" and f.a[1] == "is_signer" and p.canon(key(f.a[0])) is k:
            return True
    return False


def program_signs(W, p, who, seeds):
    """the signer seeds are those of the account `who`, which is one of the program's derived accounts"""
    for T, b in W.first_pda.items():
        if p.same(who, W.pk(b)):
            want = W.seeds[T].hex()
            return any(x.op == "bytes" and x.a[0] == want for x in walk(seeds))
    return False


@prop("F06", ("elusiv", "warden"), "per successful exit of every other entry point: lamports move only from the signing payer into an opened account, or from a closed account to its beneficiary; no tokens move")
def f06(R, W, WW):
    """Symbolic net-balance dataflow over MIR of all entry points of both programs outside the six payment flows: the only balance deltas are the rent of opened accounts and the balances of accounts closed to the specified beneficiary."""
    parallel(R, [(w.which + " " + h, still_job(w, h)) for w in (W, WW) for h in w.handler_names()])
    R.floor("handlers", 50)
    R.floor("closed", 4)


@prop("F07", ("elusiv", "warden"), "per cross-program call on a successful exit: the debited authority is a transaction signer, or a derived account of this program whose own seeds sign")
def f07(R, W, WW):
    """Path-sensitive dataflow over MIR: for every system, token and associated-token program call on every successful exit, the debited authority carries a signer fact or is a derived account signed for with its own seeds."""
    parallel(R, [(w.which + " " + h, source_job(w, h)) for w in (W, WW) for h in w.handler_names()])
    R.floor("calls", 15)
    R.floor("signed for", 4)


# program owned accounts that hold user funds: handler -> positions of pool / fee collector
HOLDERS = {"store_base_commitment": (4, 6), "finalize_base_commitment_hash": (1,), "compute_commitment_hash": (2,), "init_verification_transfer_fee": (2, 4),
           "finalize_verification_transfer_lamports": (2, 3), "finalize_verification_transfer_token": (4, 6)}


def final_balances(p):
    """{account node: last lamports value written on the path}"""
    out = {}
    for e, ls in p.flat():
        if e.a[0] == "write":
            c = e.a[1]
            if c.op == "app" and c.a[0] == "lamports":
                out[c.a[1]] = e.a[2]
    return out


@prop("F08", ("elusiv",), "per successful exit: every direct lamports debit of the pool or fee collector is dominated by a check that the remaining balance is at least the rent-exempt minimum of its size")
def f08(R, W):
    """Path-sensitive dataflow over MIR: wherever the pool's or the fee collector's balance cell is written with a smaller value, the path carries the fact that the new value is not below Rent::minimum_balance of the account's data length, and that the subtraction did not wrap."""
    for h, idx in HOLDERS.items():
        H = W.handler(h)
        for p in H.ok:
            R.count("exits")
            net, _ = p.lamports()
            for a, v in final_balances(p).items():
                if acct_pos(a) not in idx or credited(p, a, v):
                    continue
                R.count("debits")
                ok = False
                for f, pol in p.s.facts:
                    if f.op == "lt" and not pol and p.same(f.a[0], v) and f.a[1].op == "app" and str(f.a[1].a[0]).endswith("minimum_balance"):
                        ln = f.a[1].a[-1]
                        if ln.op == "len" or (ln.op == "app" and ln.a[0] == "len"):
                            ok = ok or a in set(walk(ln))
                R.need(ok, "rent exemption", h, "the account at position %d stays rent exempt after the debit" % acct_pos(a), p.site(), nice(p.canon(v)))
    # every position that can be debited is one of the tabled holders or an account being closed
    for h in W.handler_names():
        H = W.handler(h)
        for p in H.ok:
            for a, v in final_balances(p).items():
                i = acct_pos(a)
                if i is None:
                    R.need(False, "resolved", h, "the debited account is resolved", p.site(), show(a))
                    continue
                k = p.canon(key(a))
                if k in (W.pda_key("PoolAccount"), W.pda_key("FeeCollectorAccount")) and not credited(p, a, v):
                    R.need(i in HOLDERS.get(h, ()), "coverage", h, "the pool and fee collector are only debited by the payment instructions", p.site(), "position %s" % i)
    R.floor("debits", 15)


def credited(p, a, v):
    """the balance written into account a is not below the one it had"""
    b = [x for x in walk(v) if x.op == "app" and x.a[0] == "bal" and x.a[1] is a]
    d = padd(poly_dict(p.canon(v)), poly_dict(p.canon(b[0])), -1) if b else {(): -1}
    return all(c > 0 for c in d.values())


def acct_pos(n):
    if n.op == "idx" and n.a[0] is ACCOUNTS and n.a[1].op == "int":
        return n.a[1].a[0]
    return None


def is_static(n, suffix):
    return n.op == "static" and n.a[0].endswith(suffix)


def ata_fact(p, acct, wallet, mint):
    """acct's key is the associated token address of (wallet, mint) on p"""
    for a, b in pos_eqs(p):
        if p.same(a, key(acct)) and b.op == "app" and str(b.a[0]).endswith("get_associated_token_address") and p.same(b.a[1], wallet) and p.same(b.a[2], mint):
            return True
    return False


PROGRAM_TOKENS = {"store_base_commitment": ((4, 5), (6, 7), 14), "init_verification_transfer_fee": ((2, 3), (4, 5), 10),
                  "finalize_verification_transfer_token": ((4, 5), (6, 7), 14)}


@prop("F09", ("elusiv",), "per successful exit moving tokens: program token accounts are the associated accounts of pool/collector for the token's mint; the invoked program is the SPL token program; both ends are token accounts")
def f09(R, W):
    """Path-sensitive dataflow over MIR of all token movements: destination/source positions of the program are tied by equality facts to the associated token address of the derived account and the constant mint of the token id, the invoked program id is the SPL token program, and the relayer's token account is checked for the same mint."""
    for h, (pp, ff, tp) in PROGRAM_TOKENS.items():
        H = W.handler(h)
        tidn = None
        for p in H.ok:
            toks = p.spl()
            if not toks:
                continue
            R.count("exits")
            if h == "store_base_commitment":
                tid = fld(H.arg(2), "token_id")
            else:
                V = Verif(p, 9 if h == "init_verification_transfer_fee" else 11)
                if not R.need(V.kind is not None, "request", h, "the kind of the stored request is decided", p.site()):
                    continue
                tid = V.js("token_id")
            tc = token_const(p, tid)
            if not R.need(tc is not None, "mint", h, "the token's mint comes from the constant token table at the request's token id", p.site()):
                continue
            R.need(p.truth(eq(tid, 0)) is False, "mint", h, "tokens only move for a non-native token id", p.site())
            mint = fld(tc, "mint")
            for o, a in (pp, ff):
                R.need(ata_fact(p, A(a), key(A(o)), mint), "program account", h, "account %d is the associated token account of the program account %d for the request's mint" % (a, o), p.site())
            R.need(any(is_static(x, "spl_token::ID") and p.same(y, key(A(tp))) for x, y in pos_eqs(p)), "token program", h, "the token program account is the SPL token program", p.site())
            for s, d, au, v, seeds, e in toks:
                R.count("transfers")
                if not R.need(s is not None, "instruction", h, "only plain token transfers are issued", p.site(), show(v)[:200]):
                    continue
                ins = [x for x in walk(e) if x.op == "app" and x.a[0] == "spl_token::instruction::transfer"]
                R.need(bool(ins) and all(is_static(x.a[1], "spl_token::ID") for x in ins), "token program", h, "the transfer is addressed to the SPL token program", p.site())
                own = {p.canon(key(A(pp[1]))): key(A(pp[0])), p.canon(key(A(ff[1]))): key(A(ff[0]))}
                if s in own:
                    R.need(p.same(au, own[s]), "authority", h, "program token accounts are debited by their owner", p.site())
                else:
                    R.need(has_signed(p, au), "authority", h, "other token accounts are debited by a signer", p.site(), show(au))
                for x in (s, d):
                    i = [acct_pos(y.a[0]) for y in walk(x) if y.op == "fld" and y.a[1] == "key"]
                    R.need(bool(i) and all(any(is_static(b, "spl_token::ID") and p.same(a2, owner(A(k))) for a2, b in pos_eqs(p)) for k in i if k is not None),
                           "token account", h, "both ends of a transfer are owned by the token program", p.site(), show(x))
            if h == "init_verification_transfer_fee":
                R.need(good_token_account(p, A(1), tid), "fee account", h, "the relayer's token account holds the request's mint", p.site())
    R.floor("transfers", 40)
    R.floor("exits", 30)


@prop("F10", ("elusiv",), "per successful exit that prices an amount: both price feeds are read from the accounts whose addresses the constant token table names")
def f10(R, W):
    """Path-sensitive dataflow over MIR: each price feed that flows into a moved or recorded amount is read from an account whose key is constrained to the oracle key of the token table entry (native or request token)."""
    for h, sol, tok in (("store_base_commitment", 8, 9), ("init_verification_transfer_fee", 6, 7)):
        H = W.handler(h)
        for p in H.ok:
            used = set(acct_pos(n.a[1]) for n in p.all_nodes() if n.op == "app" and str(n.a[0]).endswith("load_price_feed_from_account_info"))
            if not used:
                continue
            R.count("exits")
            tid = fld(H.arg(2), "token_id") if h == "store_base_commitment" else Verif(p, 9).js("token_id")
            tc = token_const(p, tid)
            if not R.need(tc is not None, "price", h, "the token's parameters come from the constant token table", p.site()):
                continue
            t0 = tc.a[0].a[0]
            R.need(used <= {sol, tok}, "price", h, "prices are only read from the two oracle accounts", p.site(), str(used))
            R.need(p.holds(eq(key(A(tok)), fld(tc, "pyth_usd_price_key"))), "price", h, "the token's price is read from the oracle account the token table names", p.site())
            R.need(p.holds(eq(key(A(sol)), p.canon(fld(t0, "pyth_usd_price_key")))), "price", h, "the native price is read from the oracle account the token table names", p.site())
    R.floor("exits", 6)


def last_instruction(p, n, sysvar):
    """n is the index of the transaction's last instruction on p"""
    ld = "solana_program::sysvar::instructions::load_instruction_at_checked"
    for f, pol in p.s.facts:
        if f.op == "is" and not pol and f.a[1] == "Ok" and f.a[0].op == "app" and f.a[0].a[0] == ld and f.a[0].a[2] is sysvar:
            end = f.a[0].a[1]
            if p.same(n, sub(end, 1)):
                return True
    return False


@prop("F11", ("elusiv",), "per successful payout exit in relay mode: the last instruction of the transaction is constrained to be a transfer of the paid amount from the relayer to the recipient")
def f11(R, W):
    """Path-sensitive dataflow over MIR: on each exit that pays the relayer instead of the recipient, the facts constrain program id, data and every account of the transaction's last instruction to the transfer of exactly the paid amount from relayer to recipient."""
    ld = "solana_program::sysvar::instructions::load_instruction_at_checked"
    for h, va, sysv in (("finalize_verification_transfer_lamports", 7, 10), ("finalize_verification_transfer_token", 11, 17)):
        H = W.handler(h)
        sv = A(sysv)
        for p in H.ok:
            V = Verif(p, va)
            if V.kind != "Send" or V.rejected() or p.truth(eq(V.js("amount"), 0)) is not False or not p.truth(V.body("solana_pay_transfer")):
                continue
            R.count("relayed")
            R.need(any(is_static(x, "instructions::ID") and p.same(y, key(sv)) for x, y in pos_eqs(p)), "sysvar", h, "the instructions account is the genuine sysvar", p.site())
            out = sub(V.js("amount"), V.js("optional_fee.amount"))
            made = [x for x in p.invokes() if x[0].startswith("spl_associated_token_account::")]
            if made:
                out = sub(out, V.f("associated_token_account_rent"))
            if va == 7:
                src, dst, au = key(A(0)), key(A(1)), None
            else:
                src, au = key(A(1)), key(A(0))
                ata = p.truth(V.body("recipient_is_associated_token_account"))
                dst = key(A(2)) if ata or good_token_account(p, A(2), V.js("token_id")) else key(A(7))
            got = {"program_id": 0, "data": 0}
            idx = None
            want = None
            for a, b in pos_eqs(p):
                if a.op == "fld" and a.a[1] in got and a.a[0].op == "fld" and a.a[0].a[0].op == "as" and a.a[0].a[0].a[0].op == "app" and a.a[0].a[0].a[0].a[0] == ld:
                    c = b.a[0] if b.op == "fld" and b.a[1] == a.a[1] else None
                    if c is not None and c.op == "fld" and c.a[1] == "0" and c.a[0].op == "as":
                        c = c.a[0].a[0]
                    if c is None or c.op != "app":
                        continue
                    if va == 7:
                        ok = c.a[0] == "solana_program::system_instruction::transfer" and p.same(c.a[1], src) and p.same(c.a[2], dst) and p.same(c.a[3], out)
                    else:
                        ok = c.a[0] == "spl_token::instruction::transfer" and p.same(c.a[2], src) and p.same(c.a[3], dst) and p.same(c.a[4], au) and p.same(c.a[6], out) and any(is_static(x, "spl_token::ID") and p.same(y, c.a[1]) for x, y in list(pos_eqs(p)) + [(c.a[1], c.a[1])])
                    if ok:
                        got[a.a[1]] = 1
                        idx, want = a.a[0].a[0].a[0].a[1], c
            R.need(all(got.values()), "relayed transfer", h, "the transaction transfers exactly the paid amount from the relayer to the recipient", p.site(), "program and data constrained: %s" % got)
            R.need(idx is not None and last_instruction(p, idx, sv), "relayed transfer", h, "that transfer is the transaction's last instruction", p.site())
            accs = False
            for f, pol in p.s.facts:
                if pol and f.op == "forall" and want is not None:
                    ns = set(walk(f))
                    if want in ns and any(n.op == "fld" and n.a[1] == "pubkey" for n in ns) and any(n.op == "app" and n.a[0] == ld and n.a[1] is idx for n in ns):
                        accs = True
            R.need(accs, "relayed transfer", h, "all accounts of that transfer are the expected ones", p.site())
            R.need(idx is not None and unshared(p, idx, sv), "relayed transfer", h, "that transfer cannot stand in for a second payout of the same transaction", p.site(),
                   "nothing ties the transfer's position to this payout: two payouts of equal amount and recipient accept one transfer")
    R.floor("relayed", 8)


def unshared(p, idx, sysvar):
    """the instruction index is tied to the position of the running instruction, or what runs in between is constrained"""
    cur = "solana_program::sysvar::instructions::load_current_index_checked"

    def is_cur(n):
        return n.op == "app" and n.a[0] == cur
    for a, b in pos_eqs(p):
        d = padd(poly_dict(p.canon(a)), poly_dict(p.canon(b)), -1)
        i = poly_dict(p.canon(idx))
        if any(is_cur(x) for m in d for n in m for x in walk(n)) and any(m in d for m in i if m):
            return True
    for f, pol in p.s.facts:
        if pol and f.op == "forall":
            ns = set(walk(f))
            if any(n.op == "fld" and n.a[1] == "program_id" for n in ns) and any(is_static(n, "entrypoint::ID") for n in ns):
                return True
    return False
