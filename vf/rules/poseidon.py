"""C11: the rounds of the hash function."""
from .lib import *
from .. import proj, tower
from ..tower import NotNumbered, ring, rnode, radd, rmul, rscale
from .pairing import SCALAR

FN = "elusiv::commitment::poseidon_hash::binary_poseidon_hash_partial"
STATE = "elusiv::commitment::poseidon_hash::BinarySpongeHashingState"
FULL, PARTIAL, WIDTH = 8, 57, 3


def parameters(p, bits, t, full, partial):
    """round constants and matrix of Poseidon with x^5 over a prime field, as its specification generates them (Grain register in self-shrinking mode)"""
    reg = []
    for v, n in ((1, 2), (0, 4), (bits, 12), (t, 12), (full, 10), (partial, 10), ((1 << 30) - 1, 30)):
        reg += [v >> (n - 1 - i) & 1 for i in range(n)]

    def bit():
        b = reg[62] ^ reg[51] ^ reg[38] ^ reg[23] ^ reg[13] ^ reg[0]
        reg.pop(0)
        reg.append(b)
        return b
    for _ in range(160):
        bit()

    def out():
        while not bit():
            bit()
        return bit()

    def number():
        v = 0
        for _ in range(bits):
            v = v << 1 | out()
        return v

    def constant():
        while True:
            v = number()
            if v < p:
                return v
    c = [[constant() for _ in range(t)] for _ in range(full + partial)]
    while True:
        xs = [number() % p for _ in range(2 * t)]
        if len(set(xs)) == 2 * t:
            break
    return c, [[pow(xs[i] + xs[t + j], -1, p) for j in range(t)] for i in range(t)]


class Scalars:
    """elements of the scalar field as polynomials over the incoming state"""
    domain = "ring"
    obligations = []

    def kind(self, ty):
        return 1 if re.search(r"FrParameters", ty) else None

    def of_call(self, c):
        return self.kind(" ".join([str(g) for g in c.gargs] + [str(c.res)]))

    def rfld2(self, d):
        return rnode(d)


def raw_element(E, s, c):
    """an element given by the limbs of its internal representation"""
    if re.match(r"ark_ff::Fp256::<.*>::new$", c.name) and len(c.args) == 1:
        return [(s, N("adt", "ark_ff::Fp256", None, E.deep(s, c.args[0])))]
    return None


def expected(x, r, C, M):
    s = [radd(ring(v), tower.rconst(c)) for v, c in zip(x, C[r])]
    full = r < FULL // 2 or r >= FULL // 2 + PARTIAL
    for i in range(WIDTH if full else 1):
        q = rmul(s[i], s[i])
        s[i] = rmul(rmul(q, q), s[i])
    out = []
    for i in range(WIDTH):
        a = {}
        for j in range(WIDTH):
            a = radd(a, rscale(s[j], M[i][j]))
        out.append(a)
    return out


@prop("C11", ("elusiv",), "all 65 rounds of the hash function, for every state; every path through a round")
def c11(R, W):
    """Each round of the hash is evaluated for an arbitrary state to polynomials over the scalar field (value numbering by ring normal form) and compared with the round of the specified permutation, whose constants and matrix are generated by the rule itself; so is the placement of the inputs and of the result."""
    def job(R):
        old = tower.Q, tower.QMONT, tower.UNMONT, tower.T
        tower.Q = SCALAR
        tower.QMONT = pow(2, 256, SCALAR)
        tower.UNMONT = pow(tower.QMONT, -1, SCALAR)
        tower.T = Scalars()
        try:
            rounds(R, W)
        finally:
            tower.Q, tower.QMONT, tower.UNMONT, tower.T = old
    parallel(R, [("rounds", job)])
    R.floor("rounds", FULL + PARTIAL)
    R.floor("results", 1)


def state_of(v):
    """the three elements of a state"""
    if v.op == "adt" and v.a[0] == STATE and len(v.a) == 3:
        v = v.a[2]
    else:
        return None
    if v.op == "arr" and len(v.a) == WIDTH:
        return list(v.a)
    return None


def rounds(R, W):
    C, M = parameters(SCALAR, 254, WIDTH, FULL, PARTIAL)
    x = [N("sym", "s%d" % i) for i in range(WIDTH)]
    fn = W.P.fn(FN)
    for r in range(FULL + PARTIAL):
        R.count("rounds")
        w = "round %d" % r
        E = proj.engine(W.P, opaque=[], pure=[], opts={"unroll_all": True, "intercept": raw_element})
        st = State({("l", "host", 0): N("adt", STATE, None, N("arr", *x))})
        try:
            rs = E.exec_fn(st, fn, [Int(r), N("ref", "host", 0, ())], E.frame("x", 0))
            if not R.need(len(rs) >= 1, "round", w, "the round has an outcome", fn["span"]):
                continue
            for s, v in rs:
                out = state_of(E.deep(s, s.st[("l", "host", 0)]))
                if not R.need(out is not None, "round", w, "the round replaces the state by three elements", fn["span"], nice(s.st[("l", "host", 0)])):
                    continue
                for i, (a, b) in enumerate(zip(out, expected(x, r, C, M))):
                    R.need(rnode(ring(a)) is rnode(b), "round", w, "element %d of the state after the round is the specified one, for every state before it" % i, fn["span"], nice(a)[:200])
        except NotNumbered as e:
            R.need(False, "round", w, "the round is computed by field operations of known meaning", fn["span"], str(e))
    # where the two values enter, and where the result is
    l, r, inv = (N("sym", v) for v in ("l", "r", "invert"))
    zero = rnode({})
    for want in (False, True):
        E = proj.engine(W.P, opaque=[], pure=[], opts={"unroll_all": True, "intercept": raw_element})
        fn = W.P.fn(STATE + "::new")
        rs = E.exec_fn(State(), fn, [l, r, Int(int(want))], E.frame("x", 0))
        R.need(len(rs) >= 1, "inputs", "new", "two values give a state", fn["span"])
        for s, v in rs:
            out = state_of(E.deep(s, v))
            R.need(out is not None and [rnode(ring(x)) for x in out] == [zero] + ([r, l] if want else [l, r]), "inputs", "new", "the state to hash holds zero, then the left and the right value", fn["span"], nice(v))
    E = proj.engine(W.P, opaque=[], pure=[], opts={"unroll_all": True, "intercept": raw_element})
    fn = W.P.fn(STATE + "::result")
    for s, v in E.exec_fn(State({("l", "host", 0): N("adt", STATE, None, N("arr", *x))}), fn, [N("ref", "host", 0, ())], E.frame("x", 0)):
        R.need(E.deep(s, v) is x[0], "result", "result", "the hash is the first element of the state", fn["span"], nice(v))
        R.count("results")
