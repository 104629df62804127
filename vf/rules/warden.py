"""The warden network program."""
import re
from .lib import *
from .state import inner, is_none, opt_same
from .verification import stores_of, nowrap

BW, NET, APA, STATS = "BasicWardenAccount", "BasicWardenNetworkAccount", "ApaWardenNetworkAccount", "BasicWardenStatsAccount"
STRUCTS = ("ElusivBasicWarden", "ElusivBasicWardenConfig", "WardenFeatures")


def is_now(n):
    """the clock's current time"""
    while n.op == "app" and n.a[0] in ("trunc_u64", "cast") or n.op == "fld" and n.a[1] != "unix_timestamp":
        n = n.a[-1] if n.op == "app" else n.a[0]
    return n.op == "fld" and n.a[1] == "unix_timestamp" and any(y.op == "app" and "clock" in str(y.a[0]) for y in walk(n))


def fields_of(W, T):
    return W.P.adts[W.full(T)]["variants"][0][2]


def F(W, T, x, name):
    """field of a record value"""
    for i, f in enumerate(fields_of(W, T)):
        if f[0] == name:
            return mk_fld(x, i, name)
    raise AnalysisError("field %s of %s not found" % (name, T))


def changes(W, p, new, old, T, pre=""):
    """{field path: new value} of the fields that differ"""
    out = {}
    if p.same(new, old):
        return out
    for f in fields_of(W, T):
        a, b = F(W, T, new, f[0]), F(W, T, old, f[0])
        if p.same(a, b):
            continue
        ty = str(f[1]).split("<")[0].split("::")[-1]
        if ty in STRUCTS:
            out.update(changes(W, p, a, b, ty, pre + f[0] + "."))
        else:
            out[pre + f[0]] = a
    return out


def effects(W, p):
    """[(cell, view, index or None, final value)] of the stores that change something"""
    fin = {}
    for c, v, i, val, ls, fn, e in p.sets():
        fin[(c, v, p.canon(i) if i is not None else None, ls)] = val
    out = []
    for (c, v, i, ls), val in fin.items():
        T, f = c.split(".")
        old = W.get(v, f)
        if i is not None:
            old = N("idx", old, i)
        if not p.same(val, old):
            out.append((c, v, i, val, ls))
    other = []
    for e, ls in p.flat():
        if e.a[0] in ("write", "copy_into") and "lamports" not in show(e.a[1], 4):
            other.append(e)
    return out, other


def exactly(R, W, p, rule, h, want):
    """the stores on the exit are the specified ones; want: [(cell, account, index node or None, value node or predicate)]"""
    have, other = effects(W, p)
    at = p.site()
    R.need(not other, rule, h, "every store is resolved to a field of a record", at, "; ".join(nice(e) for e in other)[:300])
    todo = list(want)
    for c, v, i, val, ls in have:
        R.count("stores")
        m = [w for w in todo if w[0] == c and v is W.view(c.split(".")[0], A(w[1])) and (p.same(i, w[2]) if i is not None and isinstance(w[2], Node) else callable(w[2]) and i is not None and w[2](i) or i is None and w[2] is None)]
        if not R.need(m and not ls, rule, h, "only the fields the instruction is for change", at, "%s%s = %s" % (c, "[%s]" % nice(i) if i is not None else "", nice(val))):
            continue
        todo.remove(m[0])
        x = m[0][3]
        R.need(x(val) if callable(x) else p.same(val, x), rule, h, "%s gets the specified value" % c, at, nice(val))
    R.need(not todo, rule, h, "every specified field is stored", at, ", ".join(w[0] for w in todo))


def exits(R, H, rule, h):
    ps = [p for p in H.ok if not infeasible(p)]
    R.need(len(ps) >= 1, rule, h, "the instruction can succeed", H.loc())
    for p in ps:
        R.count("exits")
        yield p


# ---------------------------------------------------------------- W01: registration

def declared(W, p, v, cfg):
    """the stored record of a new warden"""
    T = "ElusivBasicWarden"
    g = lambda f: F(W, T, v, f)
    ok = p.same(g("config"), cfg) and g("is_active") is Int(0) and g("is_operator_confirmed") is Int(0)
    ok = ok and is_none(g("is_metadata_valid")) and is_none(g("asn"))
    ok = ok and is_now(g("join_timestamp")) and is_now(g("activation_timestamp"))
    return ok and zeros(g("lut"))


@prop("W01", ("warden",), "every successful exit of the registration; inventory of stores into the member list and the id counter over all instructions")
def w01(R, W):
    """Registration is analysed for arbitrary accounts and arguments: who signs, the id taken, the entry appended and the record stored are compared field by field with the specified ones; stores to the member list and the id counter are enumerated over all instructions."""
    h = "register_basic_warden"
    H = W.handler(h)
    wid, cfg = H.arg(0), H.arg(1)
    n = W.get(W.view(NET, A(4)), "members_count")
    # what the record has entries for: id, three features, a mark per token and the region
    room = (W.acct_size[NET] - 2 - 4) // (4 + 3 + 11 + 2)
    nxt = W.get(W.view("WardensAccount", A(3)), "next_warden_id")
    for p in exits(R, H, "W01/exit", h):
        at = p.site()
        R.need(p.holds(signer(A(0))) and p.holds(eq(key(A(0)), fld(cfg, "key"))), "W01/self", h, "a warden registers with its own signature and key", at)
        R.need(p.holds(eq(wid, nxt)), "W01/id", h, "the id taken is the next free one", at)
        R.need(room > 0 and p.holds(lt(n, Int(room))), "W01/capacity", h, "the member list is not full", at)
        R.need(p.truth(fld(cfg, "warden_features.attestation")) is False, "W01/rights", h, "a warden cannot appoint itself an attester by registering", at)
        R.need(nowrap(p, add(wid, 1)) or p.holds(lt(wid, Int(2**32 - 1))), "W01/id", h, "the id counter cannot wrap", at)
        exactly(R, W, p, "W01/effects", h, [
            (NET + ".members", 4, n, wid), (NET + ".features", 4, n, fld(cfg, "basic_warden_features")), (NET + ".region", 4, n, fld(cfg, "region")),
            (NET + ".tokens", 4, n, fld(cfg, "tokens")), (NET + ".members_count", 4, None, add(n, 1)), ("WardensAccount.next_warden_id", 3, None, add(wid, 1)),
            (BW + ".warden", 1, None, lambda v: declared(W, p, v, cfg)), ("BasicWardenMapAccount.warden_id", 2, None, wid)])
    owners = {(NET, "members"): (h,), (NET, "features"): (h,), (NET, "tokens"): (h,), (NET, "members_count"): (h,), (NET, "region"): (h, "attest_basic_warden_metadata"),
              ("WardensAccount", "next_warden_id"): (h,), ("BasicWardenMapAccount", "warden_id"): (h,)}
    inventory(R, W, "W01", owners)


def inventory(R, W, pid, owners):
    for x in W.handler_names():
        R.count("handlers")
        for p in W.handler(x).ok:
            for T in dict.fromkeys(t for t, _ in owners):
                for f, e in stores_of(p, T):
                    who = owners.get((T, f))
                    R.count("stores in inventory")
                    R.need(who is not None and x in who, pid + "/writers", x, "%s.%s is changed only by the instructions whose task it is" % (T, f), p.site(), nice(e))
    R.floor("handlers", 15)


# ---------------------------------------------------------------- W02: records of wardens

AUTH = "zero"
RECORD = {
    # instruction: (account of the record, fields it may change, who must have signed as account 0)
    "update_basic_warden_state": (1, {"is_active", "activation_timestamp"}, "self"),
    "update_basic_warden_lut": (1, {"lut"}, "self"),
    "confirm_basic_warden_operation": (1, {"is_operator_confirmed", "config.operator"}, "operator"),
    "add_metadata_attester": (2, {"config.warden_features.attestation"}, "authority"),
    "revoke_metadata_attester": (3, {"config.warden_features.attestation"}, "authority"),
    "attest_basic_warden_metadata": (2, {"asn", "config.timezone", "config.uses_proxy", "config.region", "is_metadata_valid"}, "attester"),
}


def record(W, acct):
    return W.get(W.view(BW, A(acct)), "warden")


def authority(W):
    v = W.const.get("elusiv_warden_network::processor::basic_warden::METADATA_ATTESTER_AUTHORITY")
    return v


def may(W, p, who, acct):
    k = key(A(0))
    if not p.holds(signer(A(0))):
        return False
    rec = record(W, acct)
    if who == "self":
        return p.holds(eq(k, fld(rec, "config.key")))
    if who == "operator":
        op = fld(rec, "config.operator")
        return p.truth(is_some(op)) is False or p.holds(eq(some_of(op), k))
    if who == "authority":
        return p.holds(eq(k, W.pk(bytes(32))))
    if who == "attester":
        a = record(W, 1)
        return p.holds(eq(k, fld(a, "config.key"))) and p.holds(fld(a, "config.warden_features.attestation"))


@prop("W02", ("warden",), "every store into a warden's record on every successful exit of every instruction")
def w02(R, W):
    """Every store into a warden's record in the program is enumerated; the new record is compared field by field with the old one, and each changed field must be one the instruction is for, under the signature of the party entitled to it."""
    for h in W.handler_names():
        R.count("handlers")
        for p in W.handler(h).ok:
            if infeasible(p):
                continue
            at = p.site()
            for f, e in stores_of(p, BW):
                R.count("stores")
                if h == "register_basic_warden":
                    R.need(f == "warden", "W02/field", h, "the record is stored as a whole", at, nice(e))
                    continue
                if not R.need(h in RECORD and f == "warden" and e.a[0] == "set", "W02/writers", h, "only instructions whose task it is change a warden's record", at, nice(e)):
                    continue
                acct, may_change, who = RECORD[h]
                v = W.view(BW, A(acct))
                if not R.need(e.a[2] is v, "W02/record", h, "only the record of the warden concerned changes", at, nice(e)):
                    continue
                d = changes(W, p, e.a[4], record(W, acct), "ElusivBasicWarden")
                R.count("changed fields", len(d))
                bad = sorted(set(d) - may_change)
                R.need(not bad, "W02/field", h, "only the fields the instruction is for change", at, ", ".join(bad))
                if d:
                    R.need(may(W, p, who, acct), "W02/entitled", h, "the record changes under the signature of the party entitled to it (%s)" % who, at, p.describe())
    # availability
    h = "update_basic_warden_state"
    H = W.handler(h)
    rec = record(W, 1)
    act = H.arg(1)
    for p in exits(R, H, "W02/exit", h):
        at = p.site()
        new = p.final(BW + ".warden", W.view(BW, A(1)))
        if new is None:
            R.need(p.holds(eq(act, fld(rec, "is_active"))), "W02/state", h, "the requested state is stored", at)
            continue
        R.need(p.same(F(W, "ElusivBasicWarden", new, "is_active"), act), "W02/state", h, "the requested state is stored", at)
        ts = F(W, "ElusivBasicWarden", new, "activation_timestamp")
        same = p.truth(eq(act, fld(rec, "is_active")))
        if same is True:
            R.need(p.same(ts, fld(rec, "activation_timestamp")), "W02/time", h, "the time of the last change stays when nothing changes", at, nice(ts))
        elif same is False:
            R.need(is_now(ts), "W02/time", h, "a change of state is stamped with the current time", at, nice(ts))
        else:
            R.need(False, "W02/time", h, "whether the state changes is decided", at, nice(ts))
    h = "update_basic_warden_lut"
    for p in exits(R, W.handler(h), "W02/exit", h):
        new = p.final(BW + ".warden", W.view(BW, A(1)))
        R.need(new is not None and p.same(F(W, "ElusivBasicWarden", new, "lut"), key(A(2))), "W02/lut", h, "the table stored is the account given", p.site())
    R.floor("handlers", 15)
    R.floor("stores", 4)


# ---------------------------------------------------------------- W03: operators

OPR = "WardenOperatorAccount"


@prop("W03", ("warden",), "every successful exit of the registration and confirmation of operators")
def w03(R, W):
    """Operator registration and confirmation are analysed for arbitrary accounts and arguments: the record stored names the signing operator and its declared data, and a confirmation is by the operator the warden named."""
    h = "register_warden_operator"
    H = W.handler(h)
    ident, url, jur = H.arg(0), H.arg(1), H.arg(2)
    for p in exits(R, H, "W03/exit", h):
        R.need(p.holds(signer(A(0))), "W03/self", h, "an operator registers with its own signature", p.site())
        exactly(R, W, p, "W03/effects", h, [(OPR + ".key", 1, None, key(A(0))), (OPR + ".ident", 1, None, ident), (OPR + ".url", 1, None, url), (OPR + ".jurisdiction", 1, None, lambda v: opt_same(p, v, jur))])
    inventory(R, W, "W03", {(OPR, f): (h,) for f in ("key", "ident", "url", "jurisdiction")})
    h = "confirm_basic_warden_operation"
    rec = record(W, 1)
    op = fld(rec, "config.operator")
    for p in exits(R, W.handler(h), "W03/exit", h):
        at = p.site()
        R.need(p.holds(signer(A(0))), "W03/confirm", h, "an operator confirms with its own signature", at)
        new = p.final(BW + ".warden", W.view(BW, A(1)))
        if not R.need(new is not None, "W03/confirm", h, "the confirmation is stored", at):
            continue
        d = changes(W, p, new, rec, "ElusivBasicWarden")
        R.need(F(W, "ElusivBasicWarden", new, "is_operator_confirmed") is Int(1), "W03/confirm", h, "the confirmation is stored", at)
        if p.truth(is_some(op)) is False:
            v = d.get("config.operator")
            R.need(v is not None and inner(v) is not None and p.same(inner(v), key(A(0))), "W03/confirm", h, "the first operator to confirm a warden without one becomes its operator", at)
        else:
            R.need(p.holds(is_some(op)) and p.holds(eq(some_of(op), key(A(0)))), "W03/confirm", h, "a warden's operation is confirmed by the operator it named", at, p.describe())
            v = d.get("config.operator")
            R.need(v is None or inner(v) is not None and (p.same(inner(v), some_of(op)) or p.same(inner(v), key(A(0)))), "W03/confirm", h, "the operator named stays", at)


# ---------------------------------------------------------------- W04: activity statistics

TRACKED = {
    "finalize_base_commitment_hash": lambda W, p, a: p.holds(eq(bytes_of(key(a)), W.get(W.view("BaseCommitmentHashingAccount", A(3)), "fee_payer"))),
    "finalize_verification_transfer_lamports": lambda W, p, a: derived_for(W, p, A(7), "VerificationAccount", key(a)),
    "finalize_verification_transfer_token": lambda W, p, a: derived_for(W, p, A(11), "VerificationAccount", key(a)),
}


def derived_for(W, p, acct, T, owner_key):
    k = key(acct)
    for a, b in pos_eqs(p):
        if a is k or p.canon(a) is p.canon(k):
            d = pda_node(b)
            if d and len(d[0]) == 3 and d[0][0] is N("bytes", W.seeds[T].hex()):
                x = d[0][1]
                while x.op == "app" and x.a[0] == "bytes_of":
                    x = x.a[1]
                if p.same(x, owner_key):
                    return True
    return False


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


@prop("W04", ("warden", "elusiv"), "every exit of the tracking instruction, and the account order of every tracked instruction of the payment program")
def w04(R, W, WE):
    """The tracking instruction is analysed for an arbitrary previous instruction; the (instruction, account position) pairs it accepts are read off its successful exits and looked up in the payment program,
    where the account at that position must be the fee payer whose work the instruction completes. The stored statistics must be the old ones with exactly one more activity."""
    h = "track_basic_warden_stats"
    CAL = "elusiv_warden_network::processor::utils::unix_timestamp_to_day_and_year"
    H = W.handler(h, extra_pure=(CAL,))
    year, can_fail = H.arg(0), H.arg(1)
    v = W.view(STATS, A(1))
    pairs = {}
    none = 0
    for p in exits(R, H, "W04/exit", h):
        at = p.site()
        have, other = effects(W, p)
        if not have and not other and p.truth(can_fail) is False:
            none += 1
            continue
        cal = [n for n in p.all_nodes() if n.op == "app" and n.a[0] == CAL]
        if not R.need(len(set(cal)) == 1 and is_now(cal[0].a[1]), "W04/time", h, "day and year are those of the current time", at):
            continue
        day, yr = fld(some_of(cal[0]), "0"), fld(some_of(cal[0]), "1")
        R.need(p.holds(eq(yr, year)) and p.holds(eq(W.get(v, "year"), year)), "W04/year", h, "activity counts only into the record of the current year", at)
        R.need(p.holds(lt(day, Int(366))), "W04/day", h, "the day lies within the year", at)
        R.need(derived(W, p, A(1), STATS, bytes_of(key(A(0))), u32le(year)) or derived_for2(W, p, A(1), key(A(0)), year), "W04/record", h, "the record is that of the warden credited", at)
        prev = previous(p)
        if not R.need(prev is not None, "W04/previous", h, "the instruction tracked is the one directly before this one", at):
            continue
        R.need(p.holds(eq(fld(prev, "program_id"), WE.pk(WE.program_id))), "W04/program", h, "the instruction tracked is one of the payment program", at)
        ids = [b.a[0] for a, b in pos_eqs(p) if b.op == "int" and p.same(a, N("idx", fld(prev, "data"), Int(0)))]
        pos = sorted({x.a[0].a[1].a[0] for a, b in pos_eqs(p) for x in [a] if p.same(b, key(A(0))) and x.op == "fld" and x.a[1] == "pubkey" and x.a[0].op == "idx" and x.a[0].a[1].op == "int" and p.same(x.a[0].a[0], fld(prev, "accounts"))})
        if R.need(len(ids) >= 1 and len(pos) >= 1, "W04/credited", h, "the warden credited took part in the instruction at a fixed position", at, p.describe()):
            pairs.setdefault(ids[0], set()).add(pos[0])
        old = W.get(v, "store")

        def one_more(x):
            if not p.same(F(W, "WardenStatistics", x, "total"), add(fld(old, "total"), 1)):
                return False
            a = F(W, "WardenStatistics", x, "activity")
            b = fld(old, "activity")
            return one_at(p, a, b, day)
        exactly(R, W, p, "W04/effects", h, [(STATS + ".store", 1, None, one_more), (STATS + ".last_activity_timestamp", 1, None, is_now)])
        for t in (fld(old, "total"), mk_idx(fld(old, "activity"), day)):
            R.need(nowrap(p, add(t, 1)) or p.holds(lt(t, Int(2**32 - 1))), "W04/wrap", h, "counters cannot wrap", at)
    R.need(none >= 1, "W04/lenient", h, "tracking can be requested so that a failure leaves the transaction and the statistics alone", H.loc())
    names = [x[0] for x in WE.variants()]
    seen = {}
    for i, ps in sorted(pairs.items()):
        n = snake(names[i]) if i < len(names) else "instruction %d" % i
        R.count("tracked instructions")
        if not R.need(n in TRACKED, "W04/tracked", h, "only instructions that complete a fee payer's work are tracked", "", n):
            continue
        seen[n] = 1
        for q in ps:
            HE = WE.handler(n)
            for p in HE.ok:
                R.count("exits of tracked instructions")
                R.need(TRACKED[n](WE, p, A(q)), "W04/position", n, "the warden credited is the fee payer whose work the tracked instruction completes", p.site(), "account position %d" % q)
    R.need(set(seen) == set(TRACKED), "W04/tracked", h, "every instruction that completes a fee payer's work is tracked", H.loc(), ", ".join(sorted(set(TRACKED) - set(seen))))
    ho = "open_basic_warden_stats_account"
    HO = W.handler(ho)
    for p in exits(R, HO, "W04/exit", ho):
        yr = HO.arg(HO.params.index("year") - 1 if "year" in HO.params else 0)
        R.need(derived_for2(W, p, A(2), key(A(0)), yr) or derived(W, p, A(2), STATS, bytes_of(key(A(0))), u32le(yr)), "W04/opened", ho, "the record opened is the one of the warden and year named", p.site())
        exactly(R, W, p, "W04/opened", ho, [(STATS + ".year", 2, None, yr)])
    inventory(R, W, "W04", {(STATS, f): ((h, "open_basic_warden_stats_account") if f == "year" else (h,)) for f in ("year", "last_activity_timestamp", "store", "send", "migrate")})


def derived_for2(W, p, acct, k, year):
    for a, b in pos_eqs(p):
        if a is key(acct) or p.canon(a) is p.canon(key(acct)):
            d = pda_node(b)
            if d and len(d[0]) == 3 and d[0][0] is N("bytes", W.seeds[STATS].hex()):
                x = d[0][1]
                while x.op == "app" and x.a[0] == "bytes_of":
                    x = x.a[1]
                if p.same(x, k) and p.same(d[0][2], u32le(year)):
                    return True
    return False


def previous(p):
    """the term of the instruction directly before the current one"""
    for n in p.all_nodes():
        if n.op == "app" and str(n.a[0]).endswith("load_instruction_at_checked") and n.a[2] is A(2):
            i = n.a[1]
            cur = [m for m in walk(i) if m.op == "app" and str(m.a[0]).endswith("load_current_index_checked") and m.a[1] is A(2)]
            if cur and p.same(i, sub(ok_of(cur[0]), 1)):
                return ok_of(n)
    return None


def one_at(p, a, b, i):
    """array a is b with element i one higher"""
    return p.same(mk_idx(a, i), add(mk_idx(b, i), 1)) and a.op == "upd" and p.same(a.a[0], b)


# ---------------------------------------------------------------- W05: genesis of the analysis network

SEATS = 6


def quotes_complete(W, p, v):
    """True / False / None: all second halves of the quotes are there"""
    q = W.get(v, "quote_ends")
    t = [p.truth(is_some(N("idx", q, Int(i)))) for i in range(SEATS)]
    if all(x is True for x in t):
        return True
    return False if any(x is False for x in t) else None


@prop("W05", ("warden",), "every successful exit of application, completion and confirmation; inventory of stores into the network's record over all instructions")
def w05(R, W):
    """The three steps of founding the analysis network are analysed for arbitrary accounts: phase, entitlement, position and stored values are compared with the specified ones, and every store into the network's record must come from one of them."""
    h = "start_apa_genesis_warden_application"
    H = W.handler(h)
    v = W.view(APA, A(3))
    wid = W.get(W.view("BasicWardenMapAccount", A(1)), "warden_id")
    n = W.get(v, "members_count")
    qs = H.arg(1)
    for p in exits(R, H, "W05/exit", h):
        at = p.site()
        R.need(p.holds(signer(A(0))), "W05/self", h, "a warden applies with its own signature", at)
        R.need(quotes_complete(W, p, v) is False, "W05/phase", h, "applications are accepted until all quotes are complete", at)
        exactly(R, W, p, "W05/effects", h, [
            (APA + ".members_count", 3, None, add(n, 1)), (APA + ".members", 3, n, wid), (APA + ".quote_starts", 3, n, qs),
            (APA + ".exchange_keys", 3, n, lambda x: exchange_key(p, x, qs)), ("ApaWardenAccount.warden_id", 2, None, wid), ("ApaWardenAccount.network_member_index", 2, None, n)])
    h = "complete_apa_genesis_warden_application"
    H = W.handler(h)
    v = W.view(APA, A(2))
    n = W.get(v, "members_count")
    for p in exits(R, H, "W05/exit", h):
        at = p.site()
        R.need(p.holds(signer(A(0))), "W05/self", h, "a warden completes its own application", at)
        R.need(quotes_complete(W, p, v) is False, "W05/phase", h, "applications are completed until all quotes are complete", at)

        def own_seat(i):
            return p.holds(eq(N("idx", W.get(v, "members"), i), wid)) and (i.op == "ivar" and p.same(i.a[1], Int(0)) and p.same(i.a[2], n) or p.holds(lt(i, n)))
        exactly(R, W, p, "W05/effects", h, [(APA + ".quote_ends", 2, own_seat, lambda x: inner(x) is not None and p.same(inner(x), H.arg(1)))])
    h = "confirm_apa_genesis_network"
    v = W.view(APA, A(2))
    # all quotes complete means all seats taken
    H = W.handler(h, cells={(v, "members_count"): Int(SEATS)}, unroll=True)
    m = W.get(W.view("ApaWardenAccount", A(1)), "network_member_index")
    for p in exits(R, H, "W05/exit", h):
        at = p.site()
        R.need(p.holds(signer(A(0))) and p.holds(eq(key(A(0)), N("idx", W.get(v, "exchange_keys"), m))), "W05/self", h, "a seat is confirmed with its own exchange key", at)
        R.need(quotes_complete(W, p, v) is True, "W05/phase", h, "confirmations are accepted once all quotes are complete", at)
        R.need(p.truth(N("idx", W.get(v, "confirmations"), m)) is False, "W05/once", h, "a seat confirms once", at)
        R.need(message(W, p, v, H.arg(1)), "W05/message", h, "the message confirmed is the hash of all seats' complete quotes in order", at)
        exactly(R, W, p, "W05/effects", h, [(APA + ".confirmations", 2, m, Int(1))])
    for k in range(SEATS):
        H = W.handler(h, cells={(v, "members_count"): Int(k)}, unroll=True)
        R.count("incomplete networks")
        for p in H.ok:
            R.need(infeasible(p) or quotes_complete(W, p, v) is True, "W05/phase", h, "a network that is not full is not confirmed", p.site(), "%d seats taken" % k)
    hs = "start_apa_genesis_warden_application"
    for k in range(SEATS):
        vs = W.view(APA, A(3))
        H = W.handler(hs, cells={(vs, "members_count"): Int(k)}, unroll=True)
        R.count("incomplete networks")
        ok = any(not infeasible(p) and any(p.truth(is_some(N("idx", W.get(vs, "quote_ends"), Int(i)))) is False for i in range(k, SEATS)) for p in H.ok)
        R.need(ok, "W05/open", hs, "a warden can apply as long as seats are free", H.loc(), "%d seats taken" % k)
    owners = {(APA, f): ("start_apa_genesis_warden_application",) for f in ("members_count", "members", "quote_starts", "exchange_keys")}
    owners[(APA, "quote_ends")] = ("complete_apa_genesis_warden_application",)
    owners[(APA, "confirmations")] = ("confirm_apa_genesis_network",)
    owners[("ApaWardenAccount", "warden_id")] = owners[("ApaWardenAccount", "network_member_index")] = ("start_apa_genesis_warden_application",)
    inventory(R, W, "W05", owners)


def raw_key(x):
    """the bytes a key is made from"""
    while x.op == "adt" and x.a[0].endswith("Pubkey") or x.op == "app" and x.a[0] == "pubkey":
        x = x.a[-1]
    return x


def zeros(x):
    x = raw_key(x)
    if x.op == "bytes":
        return set(x.a[0]) == {"0"}
    if x.op == "repeat":
        return x.a[0] is Int(0)
    return x.op == "arr" and all(y is Int(0) for y in x.a)


def exchange_key(p, x, qs):
    x = raw_key(x)
    return x.op == "slice" and p.same(x.a[0], fld(qs, "0")) and p.same(x.a[1], Int(400)) and p.same(x.a[2], Int(432))


def halves(x):
    """the byte strings x is put together from, first to last; None when not of that form"""
    if x.op == "splice":
        base, at, end, part = x.a
        if base.op == "splice" and base.a[0].op == "repeat" and base.a[1] is Int(0) and at is base.a[2]:
            return [base.a[3], part]
        return None
    return [x]


def message(W, p, v, msg):
    want = []
    for i in range(SEATS):
        want += [fld(N("idx", W.get(v, "quote_starts"), Int(i)), "0"), fld(some_of(N("idx", W.get(v, "quote_ends"), Int(i))), "0")]
    for a, b in pos_eqs(p):
        if p.same(a, msg):
            hs = [y for y in walk(b) if y.op == "app" and str(y.a[0]).endswith(("::hashv", "::hash", "hashv"))]
            hs = [y for y in hs if len(y.a) == 2]
            if len(hs) != 1:
                continue
            parts = hs[0].a[1]
            have = []
            for x in parts.a if parts.op in ("arr", "tup") else [parts]:
                have += halves(x) or [None]
            if len(have) == len(want) and all(x is not None and p.same(x, y) for x, y in zip(have, want)):
                return True
    return False


# ---------------------------------------------------------------- W06: proposals

PROPOSALS, PROPOSAL = "ApaProposalsAccount", "ApaProposalAccount"
TOKENS = 12


@prop("W06", ("warden",), "every successful exit of a proposal; inventory of stores into proposals and their counter over all instructions")
def w06(R, W):
    """A proposal is analysed for arbitrary accounts and arguments: number, proponent, time, stored contents and, when the proponent claims a token's freezing authority, the proof of that claim; stores to proposals are enumerated over all instructions."""
    h = "propose_apa_proposal"
    H = W.handler(h)
    pid, prop_ = H.arg(0), H.arg(1)
    n = W.get(W.view(PROPOSALS, A(2)), "number_of_proposals")
    tc = fld(prop_, "token_constraint")
    t = some_of(tc)
    for p in exits(R, H, "W06/exit", h):
        at = p.site()
        R.need(p.holds(signer(A(0))), "W06/self", h, "a proposal is made with the proponent's signature", at)
        R.need(p.holds(eq(pid, n)), "W06/number", h, "a proposal takes the next number", at)
        R.need(nowrap(p, add(n, 1)) or p.holds(lt(n, Int(2**32 - 1))), "W06/number", h, "the counter cannot wrap", at)
        some = p.truth(is_some(tc))
        if some is not False:
            R.need(some is True and p.truth(lt(Int(TOKENS - 1), t)) is False, "W06/token", h, "the token named exists", at, p.describe())
        if p.truth(mk_is(fld(prop_, "proponent_role"), "Default")) is not True:
            R.need(some is True, "W06/authority", h, "the freezing authority is claimed for a token", at, p.describe())
            if some is True:
                R.need(p.truth(eq(t, Int(0))) is False or p.holds(lt(Int(0), t)), "W06/authority", h, "the freezing authority is claimed for a token with a mint", at)
                R.need(freeze_authority(W, p, t), "W06/authority", h, "who claims the freezing authority of a token is the freezing authority in the token's mint", at, p.describe())
        exactly(R, W, p, "W06/effects", h, [(PROPOSALS + ".number_of_proposals", 2, None, add(n, 1)), (PROPOSAL + ".proposal", 1, None, lambda x: stamped(W, p, x, prop_))])
    inventory(R, W, "W06", {(PROPOSALS, "number_of_proposals"): (h,), (PROPOSAL, "proposal"): (h,), ("ApaTargetMapAccount", "proposal_id"): ()})


def stamped(W, p, x, prop_):
    for i, f in enumerate(fields_of(W, "ApaProposal")):
        v = mk_fld(x, i, f[0])
        if f[0] == "timestamp":
            ok = is_now(v)
        elif f[0] == "proponent":
            ok = p.same(v, key(A(0)))
        else:
            ok = p.same(v, fld(prop_, f[0]))
        if not ok:
            return False
    return True


def freeze_authority(W, p, t):
    mint = False
    for a, b in pos_eqs(p):
        if a is key(A(4)):
            for y in walk(b):
                if y.op == "idx" and p.same(y.a[1], t) and b.op == "fld" and b.a[1] == "mint":
                    mint = True
            for y in walk(b):
                if y.op == "fld" and y.a[1] == "mint" and any(z is t for z in walk(y)):
                    mint = True
    auth = False
    for a, b in pos_eqs(p):
        if p.same(a, key(A(0))) and b.op == "fld" and b.a[0].op == "as" and b.a[0].a[1] == "Some":
            f = b.a[0].a[0]
            if f.op == "fld" and f.a[1] == "freeze_authority" and p.holds(mk_is(f, "Some")):
                u = [y for y in walk(f) if y.op == "app" and "spl_token::state::Mint" in str(y.a[0])]
                auth |= any(y.a[1] is fld(A(4), "data") for y in u)
    return mint and auth


# ---------------------------------------------------------------- W07: attestation

@prop("W07", ("warden",), "every successful exit of appointing, revoking and attesting; inventory of stores that can grant the right to attest over all instructions")
def w07(R, W):
    """Every store in the program that can make a warden an attester is enumerated and must be the authority's; an attestation is analysed for arbitrary records and arguments and must store the verdict and the attested values in the attested warden's record and its entry of the member list."""
    for h in W.handler_names():
        R.count("handlers")
        for p in W.handler(h).ok:
            if infeasible(p):
                continue
            for f, e in stores_of(p, BW):
                if e.a[0] != "set":
                    continue
                R.count("stores")
                old = W.get(e.a[2], "warden")
                wf = F(W, "WardenFeatures", F(W, "ElusivBasicWardenConfig", F(W, "ElusivBasicWarden", e.a[4], "config"), "warden_features"), "attestation")
                if p.same(wf, fld(old, "config.warden_features.attestation")) or wf is Int(0) or p.truth(wf) is False:
                    continue
                R.need(p.holds(signer(A(0))) and p.holds(eq(key(A(0)), W.pk(bytes(32)))), "W07/appoint", h, "only the authority makes a warden an attester", p.site(), nice(wf))
    h = "add_metadata_attester"
    H = W.handler(h)
    for p in exits(R, H, "W07/exit", h):
        new = p.final(BW + ".warden", W.view(BW, A(2)))
        d = changes(W, p, new, record(W, 2), "ElusivBasicWarden") if new is not None else {}
        wf = d.get("config.warden_features.attestation")
        R.need(wf is Int(1), "W07/appoint", h, "the warden named becomes an attester", p.site())
    h = "revoke_metadata_attester"
    H = W.handler(h)
    for p in exits(R, H, "W07/exit", h):
        new = p.final(BW + ".warden", W.view(BW, A(3)))
        d = changes(W, p, new, record(W, 3), "ElusivBasicWarden") if new is not None else {}
        R.need(d.get("config.warden_features.attestation") is Int(0), "W07/revoke", h, "the warden named is no attester any more", p.site())
    h = "attest_basic_warden_metadata"
    H = W.handler(h)
    arg = dict(zip(H.params[1:], H.args[1:]))
    wid, mi, asn, tz, region, proxy = [H.arg(i) for i in range(1, 7)]
    for p in exits(R, H, "W07/exit", h):
        at = p.site()
        att, old = record(W, 1), record(W, 2)
        R.need(p.holds(signer(A(0))) and p.holds(eq(key(A(0)), fld(att, "config.key"))), "W07/attester", h, "an attestation is signed by the attesting warden", at)
        R.need(p.holds(fld(att, "config.warden_features.attestation")), "W07/attester", h, "the attesting warden has been made an attester", at)
        v = W.view(NET, A(3))
        R.need(p.holds(eq(N("idx", W.get(v, "members"), mi), wid)), "W07/entry", h, "the entry changed in the member list is the attested warden's", at)
        R.need(p.holds(lt(mi, W.get(v, "members_count"))), "W07/entry", h, "the entry changed in the member list is in use", at, p.describe())
        new = p.final(BW + ".warden", W.view(BW, A(2)))
        if not R.need(new is not None, "W07/stored", h, "the attestation is stored in the attested warden's record", at):
            continue
        T, C = "ElusivBasicWarden", "ElusivBasicWardenConfig"
        cfg = F(W, T, new, "config")
        R.need(p.same(F(W, C, cfg, "timezone"), tz) and p.same(F(W, C, cfg, "uses_proxy"), proxy) and p.same(F(W, C, cfg, "region"), region), "W07/stored", h, "the attested values replace the declared ones", at)
        R.need(opt_same(p, F(W, T, new, "asn"), asn), "W07/stored", h, "the attested network number is stored", at)
        R.need(verdict(p, inner(F(W, T, new, "is_metadata_valid")), [(fld(old, "config." + n), x) for n, x in (("timezone", tz), ("uses_proxy", proxy), ("region", region))]), "W07/verdict", h, "the verdict is whether all declared values equal the attested ones", at, nice(F(W, T, new, "is_metadata_valid")))
        r = [x for x in effects(W, p)[0] if x[0].startswith(NET + ".")]
        R.need(len(r) == 1 and r[0][0] == NET + ".region" and p.same(r[0][2], mi) and p.same(r[0][3], region) or not r and p.same(N("idx", W.get(v, "region"), mi), region), "W07/entry", h, "the member list gets the attested region", at)
    R.floor("handlers", 15)
    R.floor("stores", 3)


def verdict(p, v, pairs):
    """v is true exactly when all pairs are equal"""
    if v is None:
        return False
    t = p.truth(v)
    eqs = [p.truth(eq(a, b)) for a, b in pairs]
    if t is True:
        return all(x is True for x in eqs)
    if t is False:
        return any(x is False for x in eqs)
    want = None
    for (a, b), x in zip(pairs, eqs):
        if x is False:
            return p.same(v, Int(0))
        if x is None:
            e = eq(a, b)
            want = e if want is None else mk_and(want, e)
    return want is not None and p.same(v, want)
