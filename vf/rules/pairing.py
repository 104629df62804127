"""T11-T14: what the rounds of the proof verification compute."""
from .lib import *
from .. import proj, tower
from ..tower import *

VA = "VerificationAccount"
VER = "elusiv::proof::verifier::"
X = 4965661367192848881                 # the parameter of the curve
SCALAR = 21888242871839275222246405745257275088548364400416034343698204186575808495617
assert (Q ** 4 - Q ** 2 + 1) % SCALAR == 0 and Q == 36 * X ** 4 + 36 * X ** 3 + 24 * X ** 2 + 6 * X + 1 and SCALAR == Q - 6 * X * X
# signed digits of 6x + 2 (low to high)
ATE = [0, 0, 0, 1, 0, 1, 0, -1, 0, 0, 1, -1, 0, 0, 1, 0, 0, 1, 1, 0, -1, 0, 0, 1, 0, -1, 0, 0, 0, 0, 1, 1, 1, 0, 0, -1, 0, 0, 1, 0, 0, 0, 0, 0, -1, 0, 0, 1, 1, 0, 0, -1, 0, 0, 0, 1, 1, 0, -1, 0, 0, 1, 0, 1, 1]
assert sum(d << i for i, d in enumerate(ATE)) == 6 * X + 2
VKEY_FN = "elusiv::proof::vkey::VerifyingKey::<'a>::"
RAM_SIZE = {"ram_fq": 6, "ram_fq2": 10, "ram_fq6": 3, "ram_fq12": 7}


def machine(W, **opts):
    tower.T = tower.Tower()
    E = proj.engine(W.P, opaque=[], pure=[r"VerifyingKey.*::(gamma|delta)\w*$", r"VerifyingKey.*::alpha_beta$"], opts=dict({"unroll_all": True, "unroll_exits": 1000}, **opts))
    E.UNROLL = 600
    E.hooks = [tower.RAM_HOOK] + list(E.hooks)
    return E


def ram_size(W):
    """values each memory of the account has room for, from the declared types of its fields"""
    out = {}
    n = [x for x in W.P.adts if x.split("::")[-1] == VA]
    for f in W.P.adts[n[0]]["variants"][0][2] if n else []:
        m = re.search(r"LazyRAM<.*?, (\d+)(?:_usize)?>$", str(f[1]))
        if m:
            out[f[0]] = int(m.group(1))
    return out


def computing(R, f, what):
    try:
        return f()
    except NotNumbered as e:
        R.need(False, "value", what, "each intermediate value is one of the computation", "", str(e))
    return None


def frames(R, W, mem, w, at):
    for k, x in mem.items():
        if k[0] == "g" and str(k[1]).startswith("frame."):
            if x is not Int(0):
                R.need(False, "memory", w, "no round leaves the memory shifted", "", "%s after %s" % (k[1], at))
                return
    return


def bounded(R, W, mem, w):
    size = ram_size(W)
    R.need(set(size) == set(RAM_SIZE), "memory", w, "the memories of the account are known", "", str(size))
    for k in mem:
        m = re.match(r"(ram_\w+)\.(-?\d+)$", str(k[1])) if k[0] == "g" else None
        if m:
            R.need(0 <= int(m.group(2)) < size.get(m.group(1), 0), "memory", w, "every value kept between instructions has its place in memory", "", k[1])


# --- T11: the Miller loop
class Reference:
    """the product of the three Miller loops, written from the definition of the optimal ate pairing"""

    def __init__(self, D, zero):
        self.D, self.zero = D, zero
        self.k = self.nf = 0
        self.b, self.vk = N("sym", "proof b"), N("sym", "vkey")
        self.g1 = {"a": N("sym", "proof a"), "prepared": N("sym", "prepared inputs"), "c": N("sym", "proof c")}
        self.bx, self.by = ring(mk_fld(self.b, 0, "x")), ring(mk_fld(self.b, 1, "y"))
        self.R = [self.bx, self.by, rconst(1)]
        self.F = [[rconst(1), {}, {}], [{}, {}, {}]]
        self.half = pow(2, -1, Q)
        # b' = 3 / (9 + u)
        self.B = rscale(rconst(9, -1), 3 * pow(82, -1, Q) % Q)
        self.TX, self.TY = self.xi((Q - 1) // 3), self.xi((Q - 1) // 2)
        self.run()

    def xi(self, e):
        base, r = rconst(9, 1), rconst(1)
        while e:
            if e & 1:
                r = rmul(r, base)
            base, e = rmul(base, base), e >> 1
        return r

    def double(self):
        x, y, z = self.R
        b, e = rmul(y, y), rmul(self.B, rscale(rmul(z, z), 3))
        f = rscale(e, 3)
        a, g, h = rscale(rmul(x, y), self.half), rscale(radd(b, f), self.half), rscale(rmul(y, z), 2)
        self.R = [rmul(a, radd(b, f, -1)), radd(rmul(g, g), rscale(rmul(e, e), 3), -1), rmul(b, h)]
        return rneg(h), rscale(rmul(x, x), 3), radd(e, b, -1)

    def add(self, qx, qy):
        x, y, z = self.R
        th, la = radd(y, rmul(qy, z), -1), radd(x, rmul(qx, z), -1)
        c, d = rmul(th, th), rmul(la, la)
        e, f, g = rmul(la, d), rmul(z, c), rmul(x, d)
        h = radd(radd(e, f), rscale(g, 2), -1)
        self.R = [rmul(la, h), radd(rmul(th, radd(g, h, -1)), rmul(e, y), -1), rmul(z, e)]
        return la, rneg(th), radd(rmul(th, qx), rmul(la, qy), -1)

    def name(self, p, s):
        return ring(self.D.name2(p, N("sym", s)))

    def set(self, c):
        self.nf += 1
        if all(len(p) <= 1 for q in c for p in q):
            self.F = c
            self.last = f12_node(c)
            return
        self.last = self.D.name12(c, N("sym", "f%d" % self.nf))
        self.F = f12(self.last)

    def lines(self, co):
        self.k += 1
        co = list(co)
        self.R = [self.name(p, "r%d_%d" % (self.k, i)) for i, p in enumerate(self.R)]
        for i, (nm, fn) in enumerate((("a", None), ("prepared", "gamma_g2_neg_pc"), ("c", "delta_g2_neg_pc"))):
            if self.zero[i]:
                continue
            coef = co if fn is None else [ring(app(VKEY_FN + fn, self.vk, Int(self.k - 1), Int(j))) for j in range(3)]
            p = self.g1[nm]
            px, py = ring(mk_fld(p, 0, "x")), ring(mk_fld(p, 1, "y"))
            self.set(f12_mul(self.F, [[rmul(coef[0], py), {}, {}], [rmul(coef[1], px), coef[2], {}]]))

    def run(self):
        self.last = f12_node(self.F)
        for i, d in enumerate(reversed(ATE[:-1])):
            if i:
                self.set(f12_mul(self.F, self.F))
            self.lines(self.double())
            if d:
                self.lines(self.add(self.bx, self.by if d == 1 else rneg(self.by)))
        q1 = [rmul(rconj(self.bx), self.TX), rmul(rconj(self.by), self.TY)]
        q2 = [rmul(rconj(q1[0]), self.TX), rneg(rmul(rconj(q1[1]), self.TY))]
        self.lines(self.add(*q1))
        self.lines(self.add(*q2))


def rounds_of(W, step):
    t = [c for c in W.P.consts if c[0].endswith("::INSTRUCTION_ROUNDS") and str(c[2]).endswith("::" + step) and c[4][0] == "bytes"]
    return sum(bytes.fromhex(t[0][4][1])) if len(t) == 1 else None


def ended(n):
    """'more', or the value when the round returned Ok(Some(value)), or None"""
    if n.op == "adt" and n.a[1] == "Ok":
        n = n.a[2]
        if n.op == "adt" and n.a[1] == "None":
            return "more"
        if n.op == "adt" and n.a[1] == "Some":
            return n.a[2]
    return None


def steps(R, W, E, fn, w, total, args, mem, facts=frozenset()):
    """the rounds one after another, memory carried over; the value of the last"""
    for r in range(total):
        s = State(dict(mem), facts)
        res = E.exec_fn(s, fn, args(r), E.frame("round", r))
        res = [(s2, v) for s2, v in res if not infeasible_facts(s2)]
        R.count("rounds")
        oks = [(s2, v) for s2, v in res if ended(v) is not None]
        if len(oks) != 1:
            R.need(False, "value", w, "each round has one successful outcome", W.loc(fn) if hasattr(W, "loc") else "", "round %d: %d outcomes" % (r, len(oks)))
            return None, mem
        mem = {k: x for k, x in oks[0][0].st.items() if k[0] == "g" or k[:2] == ("l", "host")}
        frames(R, W, mem, w, "round %d" % r)
        v = ended(oks[0][1])
        if v != "more":
            R.need(r == total - 1, "value", w, "the value is returned by the last round", "", "round %d" % r)
            return v, mem
    R.need(False, "value", w, "the last round returns the value", "", "%d rounds" % total)
    return None, mem


def infeasible_facts(s):
    return any(f.op == "int" and bool(f.a[0]) != pol for f, pol in s.facts)


def positional(W, fn, w, R, n):
    R.need(fn is not None and fn["nargs"] == n, "analysis", w, "the rounds take their values as analysed", "", str(fn and fn["nargs"]))
    return fn is not None and fn["nargs"] == n


def miller_job(W, zero):
    def job(R):
        w = "combined_miller_loop, infinity: " + ("".join(n for n, z in zip("apc", zero) if z) or "none")
        E = machine(W)
        ref = Reference(tower.T.defs, zero)
        fn = W.P.fn(VER + "combined_miller_loop_partial")
        if not positional(W, fn, w, R, 10):
            return
        v = W.view(VA, A(1))
        G2 = "elusiv::fields::G2HomProjective"
        host = {2: v, 3: ref.vk, 4: ref.g1["a"], 5: ref.b, 6: ref.g1["c"], 7: ref.g1["prepared"], 9: Int(0)}
        host[8] = N("adt", G2, None, *[N("sym", "unset r.%d" % i) for i in range(3)])
        host[10] = N("adt", "elusiv::fields::G2A", None, N("sym", "unset alt_b"))
        mem = {("l", "host", i): x for i, x in host.items()}
        facts = frozenset((N("app", "is_zero", ref.g1[n]), bool(zero[i])) for i, n in enumerate(("a", "prepared", "c")))
        total = rounds_of(W, "CombinedMillerLoop")
        R.need(total is not None, "analysis", w, "the schedule of the rounds is known", "")
        order = [None, None, 2, 3, 4, 5, 6, 7, 8, 9, 10]
        # declared order: round, storage, vkey, a, b, c, prepared inputs, r, coefficient index, other b
        x, mem = computing(R, lambda: steps(R, W, E, fn, w, total or 0, lambda r: [Int(r)] + [N("ref", "host", i, ()) for i in order[2:]], mem, facts), w) or (None, mem)
        if x is None:
            return
        R.count("line evaluations", ref.k * (3 - sum(zero)))
        R.need(x is ref.last, "value", w, "the rounds compute the product of the three Miller loops", "", nice(x)[:300])
        R.need(mem.get(("l", "host", 9)) is Int(ref.k), "value", w, "every line of the key is used once, in order", "", str(mem.get(("l", "host", 9)))[:80])
        bounded(R, W, mem, w)
        tower.T = None
    return job


@prop("T11", ("elusiv",), "value numbering of all 2020 rounds of the pairing, for each combination of points at infinity, against the definition of the optimal ate pairing")
def t11(R, W):
    """The rounds are analysed one after another with the memory between them, every Fq2/Fq6/Fq12 value as a polynomial over the proof's coordinates and the key's coefficients (values the reference names are replaced by their names); the returned value must be the very one of a reference written from the definition: doubling and addition steps, digits of 6x+2, the two Frobenius lines, and multiplication by each line in the tower u^2=-1, v^3=9+u, w^2=v."""
    parallel(R, [("infinity %s" % (z,), miller_job(W, z)) for z in [(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]])
    R.floor("rounds", 8 * 2020)
    R.floor("line evaluations", 91 * 12)


# --- T12: the final exponentiation
def exponentiation_job(W):
    def job(R):
        w = "final_exponentiation"
        E = machine(W)
        tower.T.domain = "pow"
        fn = W.P.fn(VER + "final_exponentiation_partial")
        if not positional(W, fn, w, R, 3):
            return
        v = W.view(VA, A(1))
        mem = {("l", "host", 1): tower.power(1), ("l", "host", 2): v}
        total = rounds_of(W, "FinalExponentiation")
        R.need(total is not None, "analysis", w, "the schedule of the rounds is known", "")
        x, mem = computing(R, lambda: steps(R, W, E, fn, w, total or 0, lambda r: [Int(r), N("ref", "host", 2, ()), N("ref", "host", 1, ())], mem), w) or (None, mem)
        if x is None:
            return
        want = (Q ** 6 - 1) * (Q ** 2 + 1) * 2 * X * (6 * X * X + 3 * X + 1) * ((Q ** 4 - Q ** 2 + 1) // SCALAR)
        R.need(is_pow(x) and (x.a[0] - want) % tower.ORDER == 0, "value", w, "the result is the final power of the value", "", nice(x)[:100])
        # the exponent is a multiple of (q^12 - 1) / r prime to r, so it is a pairing, and it kills exactly the values it has to
        R.need(is_pow(x) and x.a[0] * SCALAR % tower.ORDER == 0 and x.a[0] // (tower.ORDER // SCALAR) % SCALAR != 0, "value", w, "the result is in the group of the pairing", "")
        for what, ok in tower.T.obligations:
            R.count("squarings")
            R.need(ok, "cyclotomic", w, what, "")
        bounded(R, W, mem, w)
        tower.T = None
    return job


@prop("T12", ("elusiv",), "the exponent of the value after each of the 408 rounds, modulo q^12-1, against the final exponent of the pairing")
def t12(R, W):
    """Every value of the final exponentiation is a power of its argument; the rounds are analysed in turn with the memory between them, tracking the exponent modulo q^12-1 (products add, conjugation is q^6, Frobenius is q^k, inversion is checked as the tower's formula, the fast squaring only for exponents that land in the cyclotomic subgroup); the last exponent must equal (q^6-1)(q^2+1) times the hard part's multiple."""
    parallel(R, [("all", exponentiation_job(W))])
    R.floor("rounds", 408)
    R.floor("squarings", 100)


# --- T13: preparation of the public inputs
def inputs_reference(W, v, vk, n, zero):
    """state after each round: (accumulated windows, accumulated inputs)"""
    raw = [N("bytes", "00" * 32) if zero[i] else N("arr", *[N("sym", "input%d[%d]" % (i, j)) for j in range(32)]) for i in range(n)]
    base = app(VKEY_FN + "gamma_abc_base", vk)
    out = [({}, {})]
    g = None
    acc = {}
    for i in range(n):
        acc = {}
        for j in range(33):
            if j < 32:
                t = app(VKEY_FN + "gamma_abc", vk, Int(i), Int(j), mk_idx(raw[i], Int(j)))
                acc = dict(acc)
                acc[t] = acc.get(t, 0) + 1
            else:
                g = dict({base: 1} if g is None else g)
                if not zero[i]:
                    for t, c in acc.items():
                        g[t] = g.get(t, 0) + c
            out.append((acc, g))
    return raw, out


def slots(n):
    return [mk_fld(n, 0, "x"), mk_fld(n, 1, "y"), mk_fld(n, 2, "z")]


def modulo(n, facts=()):
    """a sum of points without the windows known to be zero, which add the neutral element (T14)"""
    def none(w):
        return w is Int(0) or (mk_eq(w, Int(0)), True) in facts or (mk_lt(Int(0), w), False) in facts
    return {t: c for t, c in group(n).items() if c and not (t.op == "app" and str(t.a[0]).endswith("gamma_abc") and none(t.a[4]))}


def outcome(R, W, w, what, v, s, x, ref, r, k, total):
    fs = s.facts
    done = x.op == "adt" and x.a[1] == "Some"
    R.need(done == (r + k == total), "value", w, "the prepared value is returned with the last round", "", what)
    acc, g = ref[r + k]
    if done:
        R.need(modulo(x.a[2], fs) == modulo(group_node(g), fs), "value", w, "the prepared value is the key's base plus every input times its point", "", what + ": " + nice(x.a[2])[:200])
        return
    get = lambda o: point_of([s.st.get(("g", "ram_fq.%d" % (o + i), v)) for i in range(3)])
    if (r + k) % 33:
        y = get(3)
        R.need(y is not None and modulo(y, fs) == modulo(group_node(acc), fs), "carried", w, "the input being added is carried to the next instruction", "", what)
    if r + k >= 33:
        y = get(0)
        R.need(y is not None and modulo(y, fs) == modulo(group_node(g), fs), "carried", w, "the inputs added so far are carried to the next instruction", "", what)
    bounded(R, W, {a: b for a, b in s.st.items() if a[0] == "g"}, w)


def inputs_job(W, n, zero, starts):
    def job(R):
        w = "prepare_public_inputs, %d inputs, zero: %s" % (n, ",".join(str(i) for i, z in enumerate(zero) if z) or "none")
        E = machine(W)
        fn = W.P.fn(VER + "prepare_public_inputs_partial")
        if not positional(W, fn, w, R, 4):
            return
        v = W.view(VA, A(1))
        vk = N("adt", "elusiv::proof::vkey::VerifyingKey", None, N("sym", "key data"), Int(n), N("sym", "gamma size"))
        raw, ref = inputs_reference(W, v, vk, n, zero)
        total = 33 * n
        facts = frozenset((f, False) for i in range(n) if not zero[i] for f in zero_facts(raw[i]))
        for r, k in starts(total):
            k = min(k, total - r)
            given = facts
            if k > 2:   # zero windows are met one at a time, in the short steps
                given = facts | {x for y in raw if y.op == "arr" for w_ in y.a for x in ((mk_eq(w_, Int(0)), False), (mk_lt(Int(0), w_), True))}
            mem = {("l", "host", 2): v, ("l", "host", 3): vk}
            mem[("g", v.a[0] + ".public_input", v)] = N("arr", *[N("adt", W.full("RawU256"), None, x) for x in raw])
            prev = ref[r]
            if r % 33:
                for i, x in enumerate(slots(group_node(prev[0]))):
                    mem[("g", "ram_fq.%d" % (3 + i), v)] = x
            if r >= 33:
                for i, x in enumerate(slots(group_node(prev[1]))):
                    mem[("g", "ram_fq.%d" % i, v)] = x
            res = computing(R, lambda: E.exec_fn(State(dict(mem), given), fn, [Int(r), Int(k), N("ref", "host", 2, ()), N("ref", "host", 3, ())], E.frame("x", r)), w)
            if res is None:
                return
            R.count("cases")
            res = [(s, x) for s, x in res if not infeasible_facts(s)]
            what = "rounds %d to %d" % (r, r + k)
            R.need(len(res) >= 1, "value", w, "the rounds have an outcome", "", what)
            for s, x in res:
                outcome(R, W, w, what, v, s, x, ref, r, k, total)
        tower.T = None
    return job


def point_of(xs):
    if any(x is None for x in xs):
        return None
    x, y, z = xs
    if x.op == y.op == z.op == "fld" and (x.a[1], y.a[1], z.a[1]) == ("x", "y", "z") and x.a[0] is y.a[0] is z.a[0]:
        return x.a[0]
    return None


def zero_facts(x):
    return [mk_eq(x, N("bytes", "00" * 32)), mk_eq(x, N("arr", *[Int(0)] * 32))]


def all_starts(step):
    return lambda total: [(r, 1) for r in range(0, total, step)] + [(0, total)]


@prop("T13", ("elusiv",), "every grouping step of the rounds of the input preparation, as formal sums of the key's points")
def t13(R, W):
    """Group elements are formal sums; for 7 and 14 inputs and several patterns of zero inputs, an instruction starting at any round with the memory the earlier rounds leave must leave exactly the sums due after it (windows so far of the current input, inputs so far), and the last returns base + sum of all windows of all non-zero inputs; so every division of the rounds into instructions gives the same value."""
    jobs = []
    for n in (7, 14):
        pats = [[0] * n, [1] * n, [i % 2 for i in range(n)], [1 - i % 2 for i in range(n)]]
        for p in pats:
            jobs.append(("%d %s" % (n, p), inputs_job(W, n, p, lambda total: [(r, 1) for r in range(total)] + [(r, 2) for r in range(total - 1)] + [(r, 33) for r in range(0, total, 5)] + [(r, total) for r in range(0, total, 11)])))
    parallel(R, jobs)
    R.floor("cases", 2 * 4 * (231 + 230))


# --- T14: where the parts of the verifying key lie
G1_SIZE, FQ2_SIZE, FQ12_SIZE = 65, 64, 384
COEFFS = 91 * 3


def run_fn(W, name, args, host=(), **kw):
    """exits of a function of the program: [(state, value)]; host values are passed by reference"""
    E = proj.engine(W.P, **kw)
    fn = W.P.fn(name) if isinstance(name, str) else name
    mem = {("l", "host", i): x for i, x in enumerate(host)}
    return fn, E.exec_fn(State(mem), fn, [N("ref", "host", i, ()) for i in range(len(host))] + list(args), E.frame("x", 0))


def rng(n, src):
    """(start, end) of a piece of src"""
    if n.op == "slice" and n.a[0] is src:
        return n.a[1], n.a[2]
    return None


def read_piece(x):
    """(type, bytes) of a value read from bytes; wrappers and a change of coordinates removed"""
    while True:
        if x.op == "fld" and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Ok":
            x = x.a[0].a[0]
        elif x.op == "fld" and x.a[1] == "0":
            x = x.a[0]
        elif x.op == "app" and re.search(r"into_projective|GroupProjective.*::from|::into$", str(x.a[0])) and len(x.a) == 2:
            x = x.a[1]
        elif x.op == "app" and str(x.a[0]).startswith("<ark_ec::") and len(x.a) == 2:
            x = x.a[1]
        else:
            break
    if x.op == "app" and str(x.a[0]).startswith("de<"):
        return str(x.a[0])[3:-1], x.a[1]
    return None, None


def is_neutral(x):
    """the point at infinity"""
    return x.op == "app" and len(x.a) == 1 and "short_weierstrass_jacobian::Group" in str(x.a[0]) and str(x.a[0]).endswith("::zero")


def key_job(W, n):
    def job(R):
        w = "the key's data, %s inputs" % n
        src = N("sym", "key data")
        _, res = run_fn(W, VKEY_FN + "new", [src, Int(n)])
        total = FQ12_SIZE + G1_SIZE + n * 32 * 255 * G1_SIZE + 2 * COEFFS * FQ2_SIZE + G1_SIZE + 3 * (2 * FQ2_SIZE + 1)
        keys = []
        for s, x in res:
            if x.op == "adt" and x.a[1] == "Some":
                keys.append(x.a[2])
                fs = [f for f, pol in s.facts if pol and f.op == "eq" and any(a is Int(total) for a in f.a) and any(a.op != "int" and src in set(walk(a)) for a in f.a)]
                R.need(bool(fs), "length", w, "a key is only used with exactly its data", "", str([nice(f) for f, p in s.facts])[:300])
        R.need(len(keys) >= 1, "length", w, "a key can be read", "")
        base = FQ12_SIZE + G1_SIZE
        gsize = n * 32 * 255 * G1_SIZE
        i, j, k, l, b = [N("sym", x) for x in ("input", "window", "line", "coefficient", "value")]
        want = {
            "alpha_beta": ([], [(None, Int(0), FQ12_SIZE)]),
            "gamma_abc_base": ([], [(None, Int(FQ12_SIZE), G1_SIZE)]),
            "gamma_abc": ([i, j, b], [(True, None, None), (False, app("add", Int(base - G1_SIZE), app("add", mul(G1_SIZE, b), app("add", mul(255 * G1_SIZE, j), mul(32 * 255 * G1_SIZE, i)))), G1_SIZE)]),
            "gamma_g2_neg_pc": ([k, l], [(None, app("add", Int(base + gsize), app("add", mul(FQ2_SIZE, l), mul(3 * FQ2_SIZE, k))), FQ2_SIZE)]),
            "delta_g2_neg_pc": ([k, l], [(None, app("add", Int(base + gsize + COEFFS * FQ2_SIZE), app("add", mul(FQ2_SIZE, l), mul(3 * FQ2_SIZE, k))), FQ2_SIZE)]),
        }
        for nm, (args, outs) in want.items():
            for vk in set(keys):
                fn, res = run_fn(W, VKEY_FN + nm, args, (vk,))
                R.count("functions")
                seen = set()
                for s, x in res:
                    zero = None
                    for f, pol in s.facts:
                        if f.op == "eq" and b in f.a and Int(0) in f.a:
                            zero = pol
                    case = [o for o in outs if o[0] == zero or o[0] is None]
                    if zero is None and len(outs) > 1:
                        case = []
                    R.count("reads")
                    if len(case) != 1:
                        R.need(False, "place", w, "each part of the key is read from its place", nm, "case not known: %s" % [nice(f) for f, _ in s.facts])
                        continue
                    seen.add(case[0][0])
                    _, start, size = case[0]
                    if start is None:
                        R.need(is_neutral(x), "place", w, "a window of zero adds nothing", nm, nice(x))
                        continue
                    t, d = read_piece(x)
                    r = rng(d, src) if d is not None else None
                    ok = r is not None and linear(r[0]) == linear(start) and linear(r[1]) == linear(app("add", start, Int(size)))
                    R.need(ok, "place", w, "each part of the key is read from its place", nm, nice(x)[:300])
                R.need(len(seen) == len(outs), "place", w, "each part of the key can be read", nm, str(seen))
    return job


def linear(n):
    """a sum of products as {atoms: coefficient}"""
    if n.op == "int":
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == "app" and n.a[0] in ("add", "sub", "mul") and len(n.a) == 3:
        a, b = linear(n.a[1]), linear(n.a[2])
        r = {}
        if n.a[0] == "mul":
            for m, c in a.items():
                for o, d in b.items():
                    k = tuple(sorted(m + o, key=lambda x: x.id))
                    r[k] = r.get(k, 0) + c * d
        else:
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + (c if n.a[0] == "add" else -c)
        return {m: c for m, c in r.items() if c}
    if n.op == "poly":
        return {m: c for m, c in poly_dict(n).items() if c}
    return {(n,): 1}


@prop("T14", ("elusiv",), "the byte ranges each part of the verifying key is read from, as linear expressions of its indices, against the key's layout")
def t14(R, W):
    """For both sizes of key: the only way to a key object requires exactly the layout's length, and each accessor's result is one value read from the byte range that the layout gives its indices (compared as linear expressions, so for all indices), a zero window giving the neutral element."""
    parallel(R, [("%d" % n, key_job(W, n)) for n in (7, 14)])
    R.floor("functions", 10)
    R.floor("reads", 12)


# --- T15: values kept between instructions
SER = r"borsh::BorshSerialize(>)?::serialize\b"


def concrete_ram(W, adt, data, changes, frame):
    names = [f[0] for f in W.P.adts[adt]["variants"][0][2]]
    v = {"data": data, "changes": changes, "frame": frame, "source": N("sym", "stored bytes")}
    assert set(names) == set(v), names
    return N("adt", adt, None, *[v[x] for x in names]), names


def ram_fns(W, what):
    out = {}
    for f in W.P.fns.values():
        m = re.search(r"LazyRAM(?:::)?<'_, (.*), (\d+)>(?: as .*)?(?:>)?::(\w+)$", f["inst"])
        if m and m.group(3) == what:
            out[(m.group(1), int(m.group(2)))] = f
    return out


def wrapped(W, ty):
    """size of a stored value of the type"""
    if ty.startswith("ark_ff::Fp256"):
        return 32
    return {"Fp2": 64, "Fp6": 192, "Fp1": 384}[re.search(r"ExtField<ark_ff::(Fp\d)", ty).group(1)]


NONE_ = N("adt", "std::option::Option", "None")
SOME_ = lambda x: N("adt", "std::option::Option", "Some", x)


def is_none(n):
    return n.op == "adt" and n.a[1] == "None"


def holds_some(n, v):
    return n.op == "adt" and n.a[1] == "Some" and n.a[2] is v


def ram_job(W, kinds):
    def job(R):
        adt = [x for x in W.P.adts if x.split("::")[-1] == "LazyRAM"][0]
        for (ty, size), f in (ram_fns(W, "write").items() if "write" in kinds else ()):
            w = "memory of %d values of %d bytes" % (size, wrapped(W, ty))
            R.count("memories")
            val = N("sym", "value")
            for frame in range(size):
                for ix in range(size - frame + 1):
                    for have in range(size + 1):
                        olds = [N("sym", "old%d" % i) for i in range(have)]
                        me, names = concrete_ram(W, adt, N("arr", *[SOME_(x) for x in olds]), N("arr", *[Int(i % 2) for i in range(have)]), Int(frame))
                        E = proj.engine(W.P, opts={"unroll_all": True, "lens": {N("sym", "stored bytes"): Int(size * wrapped(W, ty))}})
                        res = E.exec_fn(State({("l", "host", 0): me}), f, [N("ref", "host", 0, ()), val, Int(ix)], E.frame("x", 0))
                        R.count("cases")
                        p = frame + ix
                        if p >= size:
                            R.need(not res, "bounds", w, "no value is kept outside of the memory", f["inst"], "")
                            continue
                        ok = len(res) == 1
                        for s, x in res:
                            now = s.st[("l", "host", 0)]
                            part = lambda nm, i: mk_idx(mk_fld(now, names.index(nm), nm), Int(i))
                            ok = ok and holds_some(part("data", p), val) and part("changes", p) is Int(1)
                            for i in range(have):
                                if i != p:
                                    ok = ok and holds_some(part("data", i), olds[i]) and part("changes", i) is Int(i % 2)
                            for i in range(have, p):
                                ok = ok and is_none(part("data", i)) and part("changes", i) is Int(0)
                            ok = ok and mk_fld(now, names.index("frame"), "frame") is Int(frame) and mk_fld(now, names.index("source"), "source") is N("sym", "stored bytes")
                        R.need(ok, "write", w, "a value is kept in its place and marked to be stored", f["inst"], "%s" % [nice(s.st[("l", "host", 0)])[:300] for s, x in res])
        for (ty, size), f in (ram_fns(W, "read").items() if "read" in kinds else ()):
            w = "memory of %d values of %d bytes" % (size, wrapped(W, ty))
            S = wrapped(W, ty)
            for frame in range(size):
                for ix in range(size - frame + 1):
                    for have, there in [(h, t) for h in range(size + 1) for t in (0, 1)]:
                        p = frame + ix
                        olds = [N("sym", "old%d" % i) for i in range(have)]
                        me, names = concrete_ram(W, adt, N("arr", *[NONE_ if i == p and not there else SOME_(x) for i, x in enumerate(olds)]), N("arr", *[Int(i % 2) for i in range(have)]), Int(frame))
                        E = proj.engine(W.P, opts={"unroll_all": True, "lens": {N("sym", "stored bytes"): Int(size * S)}})
                        res = E.exec_fn(State({("l", "host", 0): me}), f, [N("ref", "host", 0, ()), Int(ix)], E.frame("x", 0))
                        R.count("cases")
                        if p >= size:
                            R.need(not res, "bounds", w, "no value is kept outside of the memory", f["inst"], "")
                            continue
                        ok = len(res) == 1
                        for s, x in res:
                            now = s.st[("l", "host", 0)]
                            part = lambda nm, i: mk_idx(mk_fld(now, names.index(nm), nm), Int(i))
                            if p < have and there:
                                ok = ok and x is olds[p]
                            else:
                                t, d = read_piece(x)
                                r = rng(d, N("sym", "stored bytes")) if d is not None else None
                                ok = ok and r == (Int(p * S), Int((p + 1) * S))
                            ok = ok and (is_none(part("data", p)) or holds_some(part("data", p), x))
                            for i in range(have):
                                ok = ok and (i == p or holds_some(part("data", i), olds[i])) and part("changes", i) is Int(i % 2)
                        R.need(ok, "read", w, "a value is read as it was kept, or from its place in the account", f["inst"], "%s" % [nice(x)[:200] for s, x in res])
        for (ty, size), f in (ram_fns(W, "serialize").items() if "serialize" in kinds else ()):
            w = "memory of %d values of %d bytes" % (size, wrapped(W, ty))
            S = wrapped(W, ty)
            for bits in sorted({b for b in range(1 << size) if size <= 7 or bin(b).count("1") in (0, 1, 2, size - 1, size)}):
                have = size
                vals = [N("sym", "v%d" % i) for i in range(have)]
                me, names = concrete_ram(W, adt, N("arr", *[SOME_(x) for x in vals]), N("arr", *[Int(bits >> i & 1) for i in range(have)]), Int(0))
                E = proj.engine(W.P, opaque=[SER], opts={"unroll_all": True, "lens": {N("sym", "stored bytes"): Int(size * S)}})
                res = E.exec_fn(State({("l", "host", 0): me}), f, [N("ref", "host", 0, ())], E.frame("x", 0))
                R.count("cases")
                good = [(s, x) for s, x in res if x.op == "adt" and x.a[1] == "Ok"]
                ok = len(good) == 1
                for s, x in good:
                    wr = stores(s)
                    ok = ok and sorted(wr, key=str) == sorted([(vals[i], i * S, (i + 1) * S) for i in range(have) if bits >> i & 1], key=str)
                R.need(ok, "stored", w, "every changed value is stored in its place of the account", f["inst"], "%s" % [stores(s) for s, x in good])
    return job


def fresh_job(W):
    def job(R):
        adt = [x for x in W.P.adts if x.split("::")[-1] == "LazyRAM"][0]
        names = [f[0] for f in W.P.adts[adt]["variants"][0][2]]
        src = N("sym", "stored bytes")
        for (ty, size), f in ram_fns(W, "new").items():
            w = "memory of %d values of %d bytes" % (size, wrapped(W, ty))
            R.count("cases")
            E = proj.engine(W.P)
            res = E.exec_fn(State({}), f, [src], E.frame("x", 0))
            ok = len(res) == 1
            for s, x in res:
                part = lambda nm: mk_fld(x, names.index(nm), nm)
                ok = ok and part("source") is src and part("frame") is Int(0) and all(E.modelsmod.length(E, s, part(k)) is Int(0) if hasattr(E.modelsmod, "length") else part(k).op in ("arr", "vec") and not part(k).a for k in ("data", "changes"))
                ok = ok and any(pol and f2.op == "eq" and Int(size * wrapped(W, ty)) in f2.a for f2, pol in s.facts)
            R.need(ok, "fresh", w, "an instruction starts with nothing loaded and no shift", f["inst"], "%s" % [nice(x)[:300] for s, x in res])
        v = W.view(VA, A(1))
        fn, res = run_fn(W, W.full(VA) + "::<'a>::serialize_rams", [], (v,), opaque=[r"LazyRAM.*::serialize$"])
        for s, x in res:
            if x.op == "adt" and x.a[1] == "Ok":
                R.count("cases")
                got = sorted(str(e.a[2].a[0].a[1]) for e in evlist(s.ev, None) if e.a[0] == "call" and e.a[2].a[0].op == "fld" and e.a[2].a[0].a[0] is v)
                R.need(got == sorted(RAM_SIZE), "stored", "serialize_rams", "every memory of the account is stored", fn["inst"], str(got))
    return job


def stores(s):
    """(value, start, end) of each value serialised into the stored bytes"""
    out = []
    for e in evlist(s.ev, None):
        if e.a[0] == "call" and re.search(SER, str(e.a[1])):
            a = e.a[2].a
            v = a[0]
            while v.op == "adt" and len(v.a) == 3:
                v = v.a[2]
            r = rng(a[1], N("sym", "stored bytes"))
            out.append((v, r[0].a[0] if r and r[0].op == "int" else None, r[1].a[0] if r and r[1].op == "int" else None) if r else (v, 0, None))
    return out


@prop("T15", ("elusiv",), "the functions of the memory kept in the account, for every frame, index and fill; every getter and setter of a lazily read value")
def t15(R, W):
    """The memory's functions are analysed for every frame, index and count of values loaded: a write changes exactly its place and marks it, a read gives that value or the bytes of that place, and serialisation stores exactly the marked values at those bytes; lazily read values are stored when set."""
    parallel(R, [(k + " memory", ram_job(W, (k,))) for k in ("write", "read", "serialize")] + [("lazy", lazy_job(W)), ("fresh", fresh_job(W))])
    R.floor("memories", 4)
    R.floor("cases", 1500)


def lazy_job(W):
    def job(R):
        adt = [x for x in W.P.adts if x.split("::")[-1] == "Lazy"][0]
        names = [f[0] for f in W.P.adts[adt]["variants"][0][2]]
        src = N("sym", "stored bytes")
        new, old = N("sym", "value"), N("sym", "old")
        for f in W.P.fns.values():
            m = re.search(r"types::Lazy(?:::)?<'_, (.*?)>(?: as .*)?(?:>)?::(new|get|set|serialize)$", f["inst"])
            if not m or "LazyArray" in f["inst"]:
                continue
            ty, what = m.groups()
            w = "lazily read " + ty.split("::")[-1]
            R.count("accessors")
            for have in (None, old):
                for mod in (0, 1):
                    v = {"modified": Int(mod), "value": NONE_ if have is None else SOME_(have), "data": src}
                    me = N("adt", adt, None, *[v[x] for x in names])
                    E = proj.engine(W.P, opaque=[SER])
                    args = {"new": [src], "get": [N("ref", "host", 0, ())], "set": [N("ref", "host", 0, ()), new], "serialize": [N("ref", "host", 0, ())]}[what]
                    if what == "serialize" and have is None and mod:
                        continue        # nothing was ever set
                    res = E.exec_fn(State({("l", "host", 0): me}), f, args, E.frame("x", 0))
                    R.count("cases")
                    ok = len(res) == 1
                    for s, x in res:
                        now = x if what == "new" else s.st[("l", "host", 0)]
                        part = lambda nm: mk_fld(now, names.index(nm), nm)
                        wr = [(a, r, e) for a, r, e in stores_of(s, src)]
                        if what == "new":
                            ok = ok and is_none(part("value")) and part("data") is src and not wr
                            continue
                        if what == "get":
                            if have is not None:
                                ok = ok and x is old
                            else:
                                ok = ok and x.op == "fld" and x.a[0].op == "as" and x.a[0].a[0].op == "app" and str(x.a[0].a[0].a[0]).startswith("de<") and x.a[0].a[0].a[1] is src
                            ok = ok and not wr and (is_none(part("value")) or holds_some(part("value"), x))
                        elif what == "set":
                            ok = ok and holds_some(part("value"), new) and [a for a, r, e in wr] == [new] and all(r for a, r, e in wr)
                        else:
                            ok = ok and (len(wr) <= 1 and all(a is old and r for a, r, e in wr)) and (len(wr) == 1 or not mod)
                        ok = ok and part("data") is src
                    R.need(ok, what, w, {"new": "a value starts unread", "get": "a value is read from its place in the account unless set before", "set": "a set value is kept and stored in its place", "serialize": "a set value is stored in its place"}[what], f["inst"], "%s" % [nice(x)[:200] for s, x in res])
    return job


def stores_of(s, src):
    for e in evlist(s.ev, None):
        if e.a[0] == "call" and re.search(SER, str(e.a[1])):
            a = e.a[2].a
            d = a[1]
            if d.op == "slice" and d.a[1] is Int(0) and d.a[2] in (N("app", "len", src), N("len", src)):
                d = d.a[0]
            yield a[0], d is src, e
