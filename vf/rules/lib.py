"""Shared vocabulary of the rules."""
import re
from ..engine import *
from ..engine import mk_and, mk_or, mk_not, mk_eq, mk_lt, mk_is, mk_as, mk_fld, mk_idx
from ..norm import poly_dict, poly_node, padd, is_const
from ..spec import *
from ..run import prop, parallel




def each_ok(R, H, rule, what, pred, where=None, least=1):
    """every successful exit of H satisfies pred(path)"""
    R.count("exits", len(H.ok) + len(H.err))
    w = where or H.name
    if len(H.ok) < least:
        R.need(False, rule, w, "the handler has a successful exit", H.loc(), "%d successful exits" % len(H.ok))
        return
    for p in H.ok:
        r = pred(p)
        R.need(bool(r), rule, w, what, p.site(), "exit selected by: " + p.describe())


def facts_all(p):
    p._prep()
    return p._st.facts


def infeasible(p):
    """the path's facts contradict each other once its equalities are applied"""
    for f, pol in p.s.facts:
        c = p.canon(f)
        if c.op == "int" and bool(c.a[0]) != pol:
            return True
    return False


def pos_eqs(p):
    """pairs of terms known equal on p (original form)"""
    for (f, pol) in p.s.facts:
        if pol and f.op == "eq":
            yield f.a[0], f.a[1]
            yield f.a[1], f.a[0]


def pda_node(n):
    """(seed components, program id node, bump or None) when n is the address of a derived account"""
    if n.op == "fld" and n.a[1] == "0" and n.a[0].op == "as" and n.a[0].a[1] == "Ok":
        c = n.a[0].a[0]
        if c.op == "app" and c.a[0] == "create_pda" and c.a[1].op in ("tup", "arr"):
            s = list(c.a[1].a)
            return s[:-1], c.a[2], s[-1]
    if n.op == "app" and n.a[0] == "find_pda_key":
        return list(n.a[1].a), n.a[2], None
    return None


def own_id(W, p, n):
    """n is the id of the analysed program"""
    crate = {"elusiv": "elusiv", "warden": "elusiv_warden_network"}[W.which]
    return n.op == "static" and n.a[0] in (crate + "::entrypoint::ID", crate + "::ID") or p.same(n, W.pk(W.program_id))


def u32le(n):
    return N("le", "u32", n)


def seeds_of(W, T, pubkey=None, offset=None):
    s = [N("bytes", W.seeds[T].hex())]
    if pubkey is not None:
        s.append(pubkey)
    if offset is not None:
        s.append(offset)
    return s


def derived(W, p, acct, T, pubkey=None, offset=None):
    """on p, acct's address is the derived address of T for the given owner key and index"""
    k = key(acct)
    if pubkey is None and offset is None:
        return p.same(k, W.pda_key(T)) or p.holds(eq(k, W.pda_key(T)))
    pid = W.pk(W.program_id)
    want = seeds_of(W, T, pubkey, offset)
    for a, b in pos_eqs(p):
        if a is k or p.canon(a) is p.canon(k):
            d = pda_node(b)
            if d and len(d[0]) == len(want) and p.same(d[1], pid):
                if all(p.same(x, y) for x, y in zip(d[0], want)):
                    return True
    return False


def flow(p, pairs):
    """[(key node, amount node)] -> {canonical key: polynomial node}"""
    net = {}
    for k, v in pairs:
        k = p.canon(k)
        net[k] = padd(net.get(k, {}), poly_dict(p.canon(v if isinstance(v, Node) else Int(v))))
    return {k: poly_node(d) for k, d in net.items() if d}


def flow_diff(p, have, want):
    out = []
    for k in list(dict.fromkeys(list(have) + list(want))):
        if have.get(k) is not want.get(k):
            out.append("%s: moves %s, specified %s" % (nice(k), nice(have.get(k, Int(0))), nice(want.get(k, Int(0)))))
    return "; ".join(out)


def nice(n):
    s = show(n, 14)
    s = re.sub(r"(\w+)@accounts\[(\d+)\]::\1", r"\1", s)
    return s[:260]


def neg(x):
    return mul(Int(-1), x)


def lamports_are(R, p, rule, where, what, pairs):
    have, bad = p.lamports()
    R.need(not bad, rule, where, what + " (every balance change is resolved)", p.site(), "; ".join(b[0] for b in bad)[:300])
    want = flow(p, pairs)
    d = flow_diff(p, have, want)
    return R.need(not d, rule, where, what, p.site(), d[:700] + " | exit: " + p.describe())


def tokens_are(R, p, rule, where, what, pairs):
    have = p.tokens()
    want = flow(p, pairs)
    d = flow_diff(p, have, want)
    return R.need(not d, rule, where, what, p.site(), d[:700] + " | exit: " + p.describe())


def instr_count(W, rate):
    """length of the commitment hashing instruction table for a batching rate (constant propagation)"""
    c = W.__dict__.setdefault("_icount", {})
    if rate not in c:
        from .. import proj
        E = proj.engine(W.P)
        l = [f["name"] for f in W.P.fns.values() if f["name"].endswith("::commitment_hash_computation_instructions")]
        if len(l) != 1:
            raise AnalysisError("commitment_hash_computation_instructions not found")
        rs = E.run_entry(W.P.fn(l[0]), [Int(rate)])
        vals = set()
        for s, v in rs:
            v = E.deep(s, v)
            n = E.mk_len(v)
            vals.add(n)
        if len(vals) != 1 or list(vals)[0].op != "int":
            raise AnalysisError("length of the instruction table for rate %d is not constant" % rate)
        c[rate] = list(vals)[0].a[0]
    return c[rate]


class Fee:
    """the fee amounts as specified, from a ProgramFee term"""

    def __init__(self, W, pf):
        self.W, self.pf = W, pf

    def f(self, n):
        return fld(self.pf, n + ".0")

    def hash_tx(self):
        return add(self.f("lamports_per_tx"), self.f("warden_hash_tx_reward"))

    def base_hash(self):
        return add(self.f("lamports_per_tx"), mul(2, self.hash_tx()))

    def commitment_hash(self, rate):
        n, b = instr_count(self.W, rate), 1 << rate
        t = mul(n, self.hash_tx())
        return app("div", add(t, Int(b - 1)), Int(b)) if b > 1 else t


RATES = range(5)


def rate_of(p, node):
    for b in RATES:
        if p.holds(eq(node, Int(b))):
            return b
    return None


def token_const(p, tid):
    """the constant token table entry selected on p for token id term tid"""
    for n in p.all_nodes():
        if n.op == "idx" and n.a[1] is tid and n.a[0].op == "arr" and is_const(n.a[0]) and n.a[0].a and n.a[0].a[0].op == "adt" and n.a[0].a[0].a[0].endswith("ElusivToken"):
            return n
    return None


# ---------------------------------------------------------------- verification accounts

class Verif:
    """terms of a verification account and the request it stores, on one path"""

    def __init__(self, p, acct):
        W = p.H.W
        self.p, self.W = p, W
        self.v = W.view("VerificationAccount", A(acct))
        self.state = W.get(self.v, "state")
        self.is_verified = W.get(self.v, "is_verified")
        self.d = W.get(self.v, "other_data")
        self.req = request_of(p, self.v)
        self.kind = None
        if self.req is not None:
            for k in ("Send", "Migrate"):
                if p.holds(mk_is(self.req, k)):
                    self.kind = k

    def f(self, n):
        return fld(self.d, n)

    def body(self, n):
        return fld(N("fld", N("as", self.req, self.kind), "0"), n)

    def js(self, n):
        return self.body("join_split." + n)

    def rejected(self):
        """True: the recorded outcome is an invalid proof; False: it is not"""
        t = self.p.truth(is_some(self.is_verified))
        if t is False:
            return False
        v = self.p.truth(some_of(self.is_verified))
        if t is True:
            return None if v is None else not v
        return False if v is True else None


def request_of(p, view):
    """the proof request decoded from the verification account"""
    out = set()
    for n in p.all_nodes():
        if n.op == "app" and isinstance(n.a[0], str) and re.match(r"^de<.*\bProofRequest>$", n.a[0]) and any(x is view for x in walk(n)):
            out.add(n)
    if len(out) == 1:
        return ok_of(list(out)[0])
    return None


def strip_bytes(n):
    """the value whose bytes n are"""
    while n.op == "app" and n.a[0] in ("bytes_of",) or n.op == "bytes_of" or n.op == "adt" and n.a[0].endswith(("RawU256", "Pubkey")) and len(n.a) == 3:
        n = n.a[-1]
    return n


def named(p, acct, value):
    """the account's key equals the recorded one"""
    k, v = strip_bytes(key(acct)), strip_bytes(value)
    return any(strip_bytes(x) is v and p.same(strip_bytes(y), k) for a, b in pos_eqs(p) for x, y in ((a, b), (b, a)))


def ata_rent(p):
    """rent of a token account"""
    for n in p.all_nodes():
        if n.op == "app" and str(n.a[0]).endswith("minimum_balance") and n.a[-1] is Int(165):
            return n
    return None


def debal(p, n, acct):
    """read every balance snapshot of acct as its balance"""
    b = app("bal", acct)

    def f(x):
        if x.op == "app" and x.a[0] == "bal" and x.a[1] is acct:
            return b
        return None
    return rewrite(n, f)


# ---------------------------------------------------------------- contents of child accounts
def less_one(n):
    """n - 1, where n is 1 or 1 + x"""
    if n.op == "int":
        return Int(n.a[0] - 1)
    if n.op in ("add", "app") and (n.op == "add" or n.a[0] == "add"):
        l = list(n.a if n.op == "add" else n.a[1:])
        for i, x in enumerate(l):
            if x is Int(1):
                r = l[:i] + l[i + 1:]
                return r[0] if len(r) == 1 else add(*r)
    return sub(n, 1)


def piece_of(n):
    """(data, from, to) of a piece of an account's data that leaves out the in-use byte in front; to is None for all the rest"""
    if n.op != "slice" or n.a[1].op == "int" and n.a[1].a[0] < 1:
        return None
    d, lo, hi = n.a
    if hi.op in ("len", "app") and hi is app("len", d):
        return d, less_one(lo), None
    return d, less_one(lo), less_one(hi)


def contents(n):
    """the data of which n is everything behind the in-use byte"""
    r = piece_of(n)
    return r[0] if r and r[1] is Int(0) and r[2] is None else None


def in_use_byte(n, data):
    """n is built on the first byte of the data"""
    return any(y.op == "slice" and y.a[0] is data and y.a[1] is Int(0) and y.a[2] is Int(1) or y.op == "idx" and y.a[0] is data and y.a[1] is Int(0) for y in walk(n))


class Ring:
    """relational domain of a ring queue's two positions: all pairs in range; a condition over the two alone keeps the pairs that satisfy it"""
    M = 1 << 32
    memo = {}

    def __init__(self, head, tail, n):
        self.h, self.t, self.n = head, tail, n

    def code(self, x):
        """the term as an expression over h and t; None if it depends on anything else"""
        if x is self.h:
            return "h"
        if x is self.t:
            return "t"
        if x.op == "int":
            return str(x.a[0])
        c = lambda i: self.code(x.a[i])
        if x.op == "app" and len(x.a) == 3 and x.a[0] in ("add", "sub", "mul", "div", "rem", "min", "max"):
            a, b = c(1), c(2)
            if a is None or b is None:
                return None
            if x.a[0] in ("add", "sub", "mul"):
                return "(%s%s%s)" % (a, {"add": "+", "sub": "-", "mul": "*"}[x.a[0]], b)
            if x.a[0] in ("div", "rem"):
                return None if x.a[2].op != "int" or x.a[2].a[0] <= 0 else "((%s)%%M%s%s)" % (a, {"div": "//", "rem": "%"}[x.a[0]], b)
            return "%s((%s)%%M,(%s)%%M)" % (x.a[0], a, b)
        if x.op == "app" and len(x.a) == 2 and x.a[0] in ("trunc_u32", "trunc_u64"):
            a = c(1)
            return None if a is None else "((%s)%%M)" % a
        if x.op == "poly":
            ms = []
            for m in x.a:
                fs = [str(m.a[0])] + [self.code(y) for y in m.a[1:]]
                if None in fs:
                    return None
                ms.append("*".join("(%s)" % f for f in fs))
            return "(%s)" % "+".join(ms)
        if x.op in ("eq", "lt"):
            a, b = c(0), c(1)
            return None if a is None or b is None else "((%s)%%M%s(%s)%%M)" % (a, "==" if x.op == "eq" else "<", b)
        if x.op == "not":
            a = c(0)
            return None if a is None else "(not %s)" % a
        if x.op in ("and", "or"):
            a = [self.code(y) for y in x.a]
            return None if None in a else "(%s)" % (" %s " % x.op).join(a)
        return None

    def pairs(self, p):
        """the pairs possible on the path"""
        fs = set()
        for f, pol in p.s.facts:
            c = self.code(f)
            if c is not None and ("h" in c or "t" in c):
                fs.add(c if pol else "(not %s)" % c)
        key = (self.n, tuple(sorted(fs)))
        if key not in Ring.memo:
            f = eval("lambda h,t: " + (" and ".join(key[1]) or "True"), {"M": self.M})
            Ring.memo[key] = [(h, t) for h in range(self.n) for t in range(self.n) if f(h, t)]
        return key

    def holds(self, p, cond):
        """the condition holds for every pair possible on the path"""
        c = self.code(cond)
        if c is None:
            return False
        k = self.pairs(p)
        if (k, c) not in Ring.memo:
            f = eval("lambda h,t: " + c, {"M": self.M})
            Ring.memo[(k, c)] = all(f(h, t) for h, t in Ring.memo[k])
        return Ring.memo[(k, c)]

    def size(self):
        return app("rem", sub(add(self.t, self.n), self.h), Int(self.n))

    def steps(self, p, x, base, k):
        """x is k places after base"""
        return x is not None and self.holds(p, eq(x, app("rem", add(base, k), Int(self.n))))

    def tidy(self, p, x, data, upto):
        """elements of the queue by their place after its head"""
        def f(y):
            if y.op == "idx" and y.a[0] is data and self.code(y.a[1]) is not None and not (y.a[1].op == "app" and y.a[1].a[0] == "rem"):
                for i in range(upto):
                    if self.steps(p, y.a[1], self.h, i):
                        return N("idx", data, p.canon(app("rem", add(self.h, i), Int(self.n))))
            return None
        return rewrite(x, f)
