"""Addresses of records."""
import hashlib
from .lib import *
from .. import proj
from ..proj import base_type
from .records import create_calls, one_byte

Q25519 = (1 << 255) - 19
D25519 = -121665 * pow(121666, Q25519 - 2, Q25519) % Q25519


def on_curve(b):
    """the 32 bytes are a compressed point of the signature curve"""
    y = (int.from_bytes(b, "little") & ((1 << 255) - 1)) % Q25519
    u, v = (y * y - 1) % Q25519, (D25519 * y * y + 1) % Q25519
    x2 = u * pow(v, Q25519 - 2, Q25519) % Q25519
    return x2 == 0 or pow(x2, (Q25519 - 1) // 2, Q25519) == 1


def first_address(seeds, program):
    """the derived address with the highest bump, and the bump"""
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + program + b"ProgramDerivedAddress").digest()
        if not on_curve(h):
            return h, bump
    return None


WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}


def width(n):
    """number of bytes of a seed component that has the same number for all inputs"""
    if n.op == "le":
        return WIDTH.get(n.a[0])
    if n.op == "bytes":
        return len(n.a[0]) // 2
    if n.op == "adt" and n.a[0].endswith("Pubkey"):
        return 32
    if n.op == "fld" and n.a[1] in ("key", "target") or n.op == "sym" and n.a[0] in ("attester",):
        return 32
    if n.op == "app" and n.a[0] in ("bytes_of", "Pubkey::to_bytes") or n.op == "bytes_of":
        return 32
    if n.op == "app" and str(n.a[0]).endswith("Hash::to_bytes"):
        return 32
    return None


def records_of(W):
    """(short name, seed, first address, its bump, program) from the constants of the crate"""
    out = {}
    for c in W.P.consts:
        m = re.match(r"^<(.*?) as elusiv_types::PDAAccount>::(\w+)$", c[0])
        if m:
            T = re.sub(r"<.*", "", m.group(1)).split("::")[-1]
            v = c[4]
            d = out.setdefault(T, {})
            if m.group(2) == "SEED":
                d["seed"] = bytes.fromhex(v[1][1])
            elif m.group(2) == "FIRST_PDA":
                d["first"], d["bump"] = bytes.fromhex(v[1][0][3][0][1][1]), int(v[1][1][1])
            elif m.group(2) == "PROGRAM_ID":
                d["program"] = bytes.fromhex(v[3][0][1][1])
    return out


def own_program(W):
    l = [c[4] for c in W.P.consts if c[0] == "entrypoint::PROGRAM_ID"]
    return bytes.fromhex(l[0][3][0][1][1]) if len(l) == 1 else None


def shapes(W):
    """the ways addresses are derived on the successful exits of all instructions: record -> {components' widths: (function, component)}"""
    names = {v.hex(): k for k, v in W.seeds.items()}
    out = {T: {} for T in W.seeds}
    for h in W.handler_names():
        H = W.handler(h)
        for p in H.ok:
            for n in p.all_nodes():
                if n.op != "app" or n.a[0] not in ("find_pda_key", "create_pda", "find_pda_bump"):
                    continue
                a = n.a[1]
                l = list(a.a) if a.op in ("arr", "tup") else []
                T = names.get(l[0].a[0]) if l and l[0].op == "bytes" else None
                if T is None:
                    out.setdefault("?", {})[(h, nice(n))] = (h, nice(n))
                    continue
                body = l[1:]
                if n.a[0] == "create_pda":
                    body = l[1:-1]
                out[T].setdefault(tuple(width(p.canon(x)) for x in body), (h, "; ".join(nice(x) for x in body)))
    return out


def canonical(W, h):
    """creations of h: (record, the address is the canonical one)"""
    names = {v.hex(): k for k, v in W.seeds.items()}
    def job(R):
        H = W.handler(h)
        for p in H.ok:
            for c in create_calls(p):
                seeds = c[5] if c else []
                T = names.get(seeds[0].a[0]) if seeds and seeds[0].op == "bytes" else None
                if T is None:
                    continue    # P01, P02
                R.count("creations")
                b = p.canon(one_byte(seeds[-1]))
                r = records_of(W)[T]
                good = b is Int(r["bump"]) if len(seeds) == 2 else b.op == "app" and b.a[0] == "find_pda_bump" and [p.canon(x) for x in b.a[1].a] == [p.canon(x) for x in seeds[:-1]]
                if T == "BaseCommitmentHashingAccount":
                    continue    # the depositor's own scratch record, at the address of her choice
                R.need(good, "one address", h, "the record %s is created at the one address of its kind, owner and index" % T, p.site(), nice(b))
    return job


@prop("S01", ("elusiv", "warden", "elusiv_mainnet", "warden_mainnet"), "constants and derivations of every record's address, all instructions")
def s01(R, We, Ww, Me, Mw):
    """The address constants of every record kind are recomputed (hash and curve test) from its seed and its program's id, for test and mainnet builds. All derivations occurring on successful exits of all instructions are enumerated with the widths of their components: one fixed layout per kind, and the joined seeds of different kinds have a different prefix or length. Records are created at the address with the canonical bump."""
    for W, where in ((We, "payment program"), (Ww, "warden network"), (Me, "payment program, mainnet"), (Mw, "warden network, mainnet")):
        pid = own_program(W)
        R.need(pid is not None, "program", where, "the program declares its id", "")
        for T, r in sorted(records_of(W).items()):
            R.count("records")
            R.need(r.get("program") == pid, "program", "%s, %s" % (where, T), "the record's addresses are derived for the program itself", "", str(r.get("program")))
            R.need(0 < len(r.get("seed", b"")) <= 32, "seed", "%s, %s" % (where, T), "the seed has an admissible length", "")
            R.need((r.get("first"), r.get("bump")) == first_address([r["seed"]], pid), "constant", "%s, %s" % (where, T), "the record's constant address is the one its seed derives", "", str(r.get("first", b"").hex()))
    for W, where in ((We, "payment program"), (Ww, "warden network")):
        S = shapes(W)
        for k in S.pop("?", {}).values():
            R.need(False, "derivation", where, "every derived address is that of a record", k[0], k[1])
        joined = []
        for T, d in sorted(S.items()):
            R.count("kinds")
            R.need(len(d) <= 1 and all(None not in w for w in d), "layout", "%s, %s" % (where, T), "all addresses of the record are derived from the same components, each of fixed length", "", str(d))
            for w in list(d) + ([()] if W.first_pda.get(T) else []):
                if None not in w:
                    joined.append((T, W.seeds[T], sum(w), w))
                    R.count("derivations")
        for i, (T, s, n, w) in enumerate(joined):
            for T2, s2, n2, w2 in joined[:i]:
                R.count("pairs")
                same = len(s) + n == len(s2) + n2 and (s.startswith(s2) or s2.startswith(s)) and (T != T2 or w != w2)
                R.need(not same, "distinct", "%s, %s and %s" % (where, T2, T), "addresses of different records are derived from different bytes", "", "%r+%d %r+%d" % (s2, n2, s, n))
        parallel(R, [(h, canonical(W, h)) for h in W.handler_names()])
    R.assumptions.append("the hash function has no collisions")
    R.floor("records", 2 * (17 + 12))
    R.floor("kinds", 17 + 12)
    R.floor("derivations", 36)
    R.floor("creations", 20)


# ---------------------------------------------------------------------------
# S04: the accounts a record's memory continues in

class Site:
    """facts at one point of a function"""

    def __init__(self, E, W):
        self.E, self.W = E, W


def find_job(W, f):
    """every place where an account is taken as part of a record"""
    def job(R):
        T = base_type(re.match(r"^<(.*?) as ", f["inst"]).group(1)).split("::")[-1]
        parent, pid, writable = N("sym", "parent"), N("sym", "program"), N("sym", "writable")
        sites = []
        slot = lambda v, i: N("app", "slot", v, i)

        def intercept(E, s, c):
            if c.name.endswith("::get_child_pubkey"):
                return [(s, N("app", "attached", E.deep(s, c.args[0]), E.deep(s, c.args[1])))]
            if c.name == "std::ops::IndexMut::index_mut" and "Option<&" in str(c.gargs[0]) and "AccountInfo" in str(c.gargs[0]):
                return [(s, slot(E.deep(s, c.args[0]), E.deep(s, c.args[1])))]
            return None
        E = proj.engine(W.P, opaque=[], pure=[], opts={"intercept": intercept})
        emit = State.emit

        def watch(s, kind, *args):
            if kind == "write" and args[0].op == "app" and args[0].a[0] == "slot":
                sites.append((s.facts, s, args[0], args[1]))
            return emit(s, kind, *args)
        State.emit = watch
        try:
            ends = E.exec_fn(State({("l", "host", 0): N("sym", "accounts")}), f, [parent, pid, writable, N("ref", "host", 0, ())], E.frame("x", 0))
        finally:
            State.emit = emit
        where = "%s, finding its accounts" % T
        n = [int(c[4][1]) for c in W.P.consts if re.match(r"^<.*\b%s(<.*>)? as elusiv_types::ParentAccount(<.*>)?>::COUNT$" % T, c[0])]
        if not R.need(len(n) == 1, "count", where, "the record declares its number of accounts", ""):
            return
        n = n[0]
        R.count("searches")
        for _, s, target, value in sites:
            R.count("places")
            p = Path(Site(E, W), s, UNIT)
            i = target.a[2]
            v = E.deep(s, value)
            a = v.a[2] if v.op == "adt" and v.a[1] == "Some" else None
            ok = a is not None and a.op == "fld" and a.a[0].op == "as" and a.a[0].a[1] == "Ok" and "next_account_info" in show(a.a[0].a[0], 3)
            if not R.need(ok, "account", where, "what is taken as part of the record is an account of the instruction", f["span"] if isinstance(f.get("span"), str) else "", nice(v)):
                continue
            # the public key stored at the same place
            stored = N("app", "attached", parent, p.canon(i)) if p.canon(i).op == "int" else None
            for x in {y for g, _ in facts_all(p) for y in walk(g) if y.op == "idx" and y.a[0].op == "arr"}:
                if p.same(x.a[1], i) and len(x.a[0].a) == n and all(y is N("app", "attached", parent, Int(k)) for k, y in enumerate(x.a[0].a)):
                    stored = x
            k = fld(a, "key")
            R.need(stored is not None and (p.holds(is_some(stored)) and p.holds(eq(k, some_of(stored))) or p.holds(eq(stored, N("adt", "std::option::Option", "Some", k)))), "attached", where,
                   "the account taken for a place is the one attached there", "", p.describe())
            R.need(p.holds(eq(fld(a, "owner"), pid)), "owner", where, "the account taken belongs to the program", "", p.describe())
            R.need(p.holds(fld(a, "is_writable")) or p.truth(writable) is False, "writable", where, "the account taken can be written if that is asked for", "", p.describe())
        R.need(sites, "account", where, "attached accounts are found", "")
        good = 0
        for s, v in ends:
            v = E.deep(s, v)
            if v.op == "adt" and v.a[1] == "Ok":
                good += 1
                l = v.a[2]
                none = [x for x in l.a if x.op == "adt" and x.a[1] == "None"] if l.op == "arr" else []
                R.need(len(none) == n and len(l.a) == n, "empty", where, "a place for which no account is found stays empty", "", nice(l))
        R.need(good > 0, "reachable", where, "the search can succeed", "")
    return job


def give_job(W, f):
    """the hand-over of the accounts found: they become the record's, whole"""
    def job(R):
        T = base_type(re.match(r"^<(.*?) as ", f["inst"]).group(1)).split("::")[-1]
        E = proj.engine(W.P, opaque=[], pure=[])
        new = N("sym", "found")
        ends = E.exec_fn(State({("l", "host", 0): N("sym", "parent")}), f, [N("ref", "host", 0, ()), new], E.frame("x", 0))
        R.count("hand-overs")
        for s, v in ends:
            n = E.deep(s, N("ref", "host", 0, ()))
            R.need(len(ends) == 1 and E._fld_named(n, "child_accounts") is new and not s.facts, "given", T, "a record's accounts are the ones it is given", "", nice(n))
    return job


def use_job(W, h):
    """the accounts used as parts of a record on the exits of an instruction"""
    def job(R):
        H = W.handler(h)
        for p in H.ok:
            given = {}
            for e, ls in p.flat():
                if e.a[0] == "set_children":
                    given.setdefault(e.a[1], []).append(e.a[2])
            for v, l in given.items():
                R.count("records given their accounts")
                c = l[0]
                ok = len(l) == 1 and c.op == "children" and c.a[1] is v and own_id(W, p, c.a[2]) and c.a[3].op == "int" and p.holds(N("is", c, "Ok"))
                R.need(ok, "searched", h, "a record gets the accounts attached to itself and owned by the program, once", p.site(), nice(c))
            for n in p.all_nodes():
                if n.op == "idx" and n.a[0].op == "fld" and n.a[0].a[1] == "child_accounts":
                    R.need(n.a[0].a[0] in given, "searched", h, "accounts are used as parts of a record only after the search for those attached", p.site(), nice(n))
    return job


@prop("S04", ("elusiv",), "the search for attached accounts, at every place it takes one, and every use of a record's attached accounts in all instructions")
def s04(R, W):
    """The search for a record's attached accounts is analysed from its own code, with arbitrary accounts and attachments: wherever it takes an account for a place, in any iteration, the path's conditions say that it is the one attached at that place, owned by the program, and writable if asked for; no other place is filled. All instructions are analysed for which accounts they use as parts of which record."""
    jobs = []
    for f in W.P.fns.values():
        if re.match(r"^<elusiv::.* as elusiv_types::ParentAccount<.*>>::find_child_accounts(::<.*>)?$", f["inst"]):
            jobs.append((f["inst"], find_job(W, f)))
        if re.match(r"^<elusiv::.* as elusiv_types::ParentAccount<.*>>::set_child_accounts$", f["inst"]):
            jobs.append((f["inst"], give_job(W, f)))
    parallel(R, jobs)
    parallel(R, [(h, use_job(W, h)) for h in W.handler_names()])
    R.floor("searches", 4)
    R.floor("hand-overs", 4)
    R.floor("places", 4)
    R.floor("records given their accounts", 8)
