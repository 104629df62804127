"""Value numbering for the pairing code: elements of the extension tower as polynomials over atoms, group elements as formal sums."""
import re
from .engine import *
from .engine import mk_fld, mk_eq
from .models import fork
from . import models

Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
QMONT = pow(2, 256, Q)
U = N("sym", "u")                  # u^2 = -1
QF = "ark_ff::QuadExtField"
CF = "ark_ff::CubicExtField"
GA = "ark_ec::short_weierstrass_jacobian::GroupAffine"
LIMIT = 6000                       # monomials of one value


class NotNumbered(AnalysisError):
    pass


# --- polynomials: {tuple of atoms sorted by id: coefficient mod Q}
def rconst(c0, c1=0):
    r = {}
    if c0 % Q:
        r[()] = c0 % Q
    if c1 % Q:
        r[(U,)] = c1 % Q
    return r


def radd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % Q
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def rmul(a, b):
    if len(a) * len(b) > 200 * LIMIT:
        raise NotNumbered("the value is no small expression of the values numbered so far")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = sorted(m + n, key=lambda x: x.id)
            v = c * d
            if k.count(U) == 2:
                k = [x for x in k if x is not U]
                v = -v
            k = tuple(k)
            v = (r.get(k, 0) + v) % Q
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise NotNumbered("the value is no small expression of the values numbered so far")
    return r


def rneg(a):
    return {m: -c % Q for m, c in a.items()}


def rscale(a, k):
    return {m: c * k % Q for m, c in a.items() if c * k % Q}


def conj_atom(x):
    if x.op == "app" and x.a[0] == "conj":
        return x.a[1]
    return N("app", "conj", x)


def rconj(a):
    """the Frobenius map of Fq2"""
    r = {}
    for m, c in a.items():
        neg = U in m
        k = tuple(sorted([x if x is U else conj_atom(x) for x in m], key=lambda x: x.id))
        r[k] = -c % Q if neg else c
    return r


def rnode(d):
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0] is not U:
            return m[0]
    return N("ring", tuple(sorted(((tuple(x.id for x in m), c, m) for m, c in d.items()), key=lambda t: (len(t[0]), t[0]))))


def limbs_value(n):
    while n.op == "adt" and len(n.a) >= 3 and n.a[2].op != "arr":
        n = n.a[2]
    if n.op == "adt" and n.a[2].op == "arr" and all(x.op == "int" for x in n.a[2].a):
        return sum(x.a[0] << (64 * i) for i, x in enumerate(n.a[2].a))
    return None


UNMONT = pow(QMONT, -1, Q)


def ring(n):
    """polynomial of an element of Fq or Fq2"""
    if n.op == "ring":
        return {m: c for _, c, m in n.a[0]}
    if n.op == "int":
        return rconst(n.a[0])
    if n.op == "adt" and n.a[0].endswith("QuadExtField") and len(n.a) >= 4:
        a, b = ring(n.a[2]), ring(n.a[3])
        return radd(a, rmul(b, {(U,): 1}))
    if n.op == "adt":
        v = limbs_value(n)
        if v is not None:
            return rconst(v * UNMONT % Q)
        raise NotNumbered("unexpected field element " + str(n)[:60])
    return {(n,): 1}


# --- tower
XI = rconst(9, 1)


def f6(n):
    if n.op == "adt" and n.a[0].endswith("CubicExtField"):
        return [ring(x) for x in n.a[2:5]]
    return [ring(mk_fld(n, i, "c%d" % i)) for i in range(3)]


def f12(n):
    if n.op == "adt" and n.a[0].endswith("QuadExtField"):
        return [f6(n.a[2]), f6(n.a[3])]
    return [f6(mk_fld(n, i, "c%d" % i)) for i in range(2)]


def f6_node(c):
    return N("adt", CF, None, *[rnode(x) for x in c], N("sym", "P"))


def f12_node(c):
    return N("adt", QF, None, f6_node(c[0]), f6_node(c[1]), N("sym", "P"))


def f6_add(a, b, k=1):
    return [radd(x, y, k) for x, y in zip(a, b)]


def f6_mul(a, b):
    r = [{}, {}, {}]
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            p = rmul(x, y)
            if i + j >= 3:
                p = rmul(p, XI)
            r[(i + j) % 3] = radd(r[(i + j) % 3], p)
    return r


def f6_v(a):
    """multiplication by v (v^3 = 9 + u)"""
    return [rmul(a[2], XI), a[0], a[1]]


def f12_mul(a, b):
    return [f6_add(f6_mul(a[0], b[0]), f6_v(f6_mul(a[1], b[1]))), f6_add(f6_mul(a[0], b[1]), f6_mul(a[1], b[0]))]


# --- exponents: an element of Fq12 known as a power of the one being exponentiated
ORDER = Q ** 12 - 1


def power(e):
    return N("pow", e % ORDER)


def is_pow(n):
    return n.op == "pow"


def inverse_struct(p):
    """components of 1/x for x = f12 value p: (x0 t, -x1 t), t = 1/(x0^2 - v x1^2)"""
    x = f12(p)
    t = f6(inv6(f6_add(f6_mul(x[0], x[0]), f6_v(f6_mul(x[1], x[1])), -1)))
    return [f6_mul(x[0], t), [rneg(y) for y in f6_mul(x[1], t)]]


def inv6(c):
    return N("app", "inverse6", f6_node(c))


class Defs:
    """values the reference computation names: they are replaced by their names as soon as the analysed code computes them"""

    def __init__(self):
        self.named = {}
        self.hits = set()

    def name2(self, poly, atom):
        n = rnode(poly)
        self.named.setdefault(n, atom)
        return self.named[n]

    def name12(self, c, atom):
        n = f12_node(c)
        self.named.setdefault(n, atom)
        return self.named[n]

    def of(self, n):
        r = self.named.get(n)
        if r is not None:
            self.hits.add(n)
            return r
        return n


class Tower:
    """the hooks, bound to one table of names"""

    def __init__(self):
        self.defs = Defs()
        self.domain = "poly"       # or "pow"
        self.obligations = []      # (what, ok)

    def kind(self, t):
        t = str(t)
        if "Fp12ParamsWrapper" in t:
            return 12
        if "Fp6ParamsWrapper" in t:
            return 6
        if "Fp2ParamsWrapper" in t:
            return 2
        if "GroupProjective" in t or "GroupAffine" in t:
            return "G2" if "g2::Parameters" in t else "G1"
        if "Fp256<ark_bn254::FqParameters>" in t or t.startswith("ark_ff::Fp256"):
            return 1
        return None

    def of_call(self, c):
        return (T.kind(c.gargs[0]) if c.gargs else None) or T.kind(c.res)

    def rfld2(self, d):
        return self.defs.of(rnode(d))

    def out12(self, c):
        n = self.defs.of(f12_node(c))
        if self.domain == "pow" and n.op == "adt":
            seen = [x for x in walk_ring(n) if x.op == "pow"]
            for x in seen:
                if f12_node(inverse_struct(x)) is n:
                    return power(-x.a[0])
        return n


def walk_ring(n):
    """atoms of the polynomials inside a value"""
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ring":
            for _, _, m in x.a[0]:
                st.extend(m)
            continue
        yield x
        st.extend(y for y in x.a if isinstance(y, Node))


T = None     # the active tower, set by the rule's job


def val(E, s, a):
    n = E.deep(s, a)
    return n


def binary(op):
    def f(E, s, c):
        if T is None:
            return None
        k = T.kind(c.gargs[0]) if c.gargs else None
        if k is None:
            return None
        a, b = val(E, s, c.args[0]), val(E, s, c.args[1])
        return [(s, compute(op, k, a, b))]
    return f


def compute(op, k, a, b):
    if k in (1, 2):
        x, y = ring(a), ring(b)
        return T.rfld2(radd(x, y) if op == "add" else radd(x, y, -1) if op == "sub" else rmul(x, y))
    if k == 6:
        x, y = f6(a), f6(b)
        return f6_node(f6_mul(x, y) if op == "mul" else f6_add(x, y, 1 if op == "add" else -1))
    if k == 12:
        if op == "mul" and is_pow(a) and is_pow(b):
            return power(a.a[0] + b.a[0])
        if op == "mul":
            return T.out12(f12_mul(f12(a), f12(b)))
        s = 1 if op == "add" else -1
        x, y = f12(a), f12(b)
        return T.out12([f6_add(x[0], y[0], s), f6_add(x[1], y[1], s)])
    if k in ("G1", "G2") and op == "add":
        return group_add(a, b)
    raise NotNumbered("unexpected operation " + op)


def group(n):
    if n.op == "group":
        return dict(n.a[0])
    return {n: 1}


def group_node(d):
    if len(d) == 1:
        (x, c), = d.items()
        if c == 1:
            return x
    return N("group", tuple(sorted(d.items(), key=lambda t: t[0].id)))


def group_add(a, b):
    r = group(a)
    for x, c in group(b).items():
        r[x] = r.get(x, 0) + c
    return group_node(r)


def assigning(op):
    def f(E, s, c):
        if T is None or not c.gargs or T.kind(c.gargs[0]) is None:
            return None
        k = T.kind(c.gargs[0])
        a, b = val(E, s, c.args[0]), val(E, s, c.args[1])
        s = s.copy()
        store(E, s, c.args[0], compute(op, k, a, b))
        return [(s, UNIT)]
    return f


def store(E, s, ref, v):
    if ref.op != "ref":
        raise NotNumbered("operand of an in-place operation is not a local")
    E.write(s, ("L", ref.a[0], ref.a[1], ref.a[2]), v)


def unary(fn, inplace=False):
    def f(E, s, c):
        if T is None:
            return None
        k = T.of_call(c)
        if k is None:
            return None
        a = val(E, s, c.args[0])
        v = fn(E, s, c, k, a)
        if v is None:
            return None
        if inplace:
            s = s.copy()
            store(E, s, c.args[0], v)
            # (square_in_place and the like return the reference itself)
            return [(s, c.args[0])]
        return [(s, v)]
    return f


def v_double(E, s, c, k, a):
    return compute("add", k, a, a)


def v_square(E, s, c, k, a):
    return compute("mul", k, a, a)


def v_neg(E, s, c, k, a):
    if k in (1, 2):
        return T.rfld2(rneg(ring(a)))
    if k == 6:
        return f6_node([rneg(x) for x in f6(a)])
    if k == "G2" or k == "G1":
        return N("adt", GA, None, mk_fld(a, 0, "x"), T.rfld2(rneg(ring(mk_fld(a, 1, "y")))), mk_fld(a, 2, "infinity"))
    return None


def v_conj(E, s, c, k, a):
    if k == 12 and is_pow(a):
        return power(a.a[0] * Q ** 6)
    if k == 2:
        return T.rfld2(rconj(ring(a)))
    if k == 12:
        x = f12(a)
        return T.out12([x[0], [rneg(y) for y in x[1]]])
    return None


def v_frob(E, s, c, k, a):
    n = val(E, s, c.args[1])
    if n.op != "int":
        raise NotNumbered("power of the Frobenius map is not a constant")
    if k == 12 and is_pow(a):
        return power(a.a[0] * Q ** (n.a[0] % 12))
    if k == 2:
        return T.rfld2(rconj(ring(a)) if n.a[0] % 2 else ring(a))
    return None


def v_cyclotomic(E, s, c, k, a):
    if k == 12 and is_pow(a):
        # squaring formulas that hold for elements of order dividing q^4 - q^2 + 1
        T.obligations.append(("cyclotomic squaring is applied to cyclotomic elements only", a.a[0] * (Q ** 4 - Q ** 2 + 1) % ORDER == 0))
        return power(2 * a.a[0])
    return None


def v_inverse(E, s, c, k, a):
    if k == 6:
        return SOME(inv6(f6(a)))
    if k == 12 and is_pow(a):
        return SOME(power(-a.a[0]))
    return None


def v_one(E, s, c, k, a):
    return None


def m_const(v):
    def f(E, s, c):
        if T is None:
            return None
        k = T.of_call(c)
        if k is None:
            return None
        if k in (1, 2):
            return [(s, rnode(rconst(v)))]
        if k == 12 and v == 1:
            return [(s, power(0) if T.domain == "pow" else f12_node([[rconst(1), {}, {}], [{}, {}, {}]]))]
        if k in ("G1", "G2") and v == 0:
            return [(s, group_node({}))]
        return None
    return f


def m_mul_by_fp(E, s, c):
    if T is None:
        return None
    a, b = val(E, s, c.args[0]), val(E, s, c.args[1])
    s = s.copy()
    store(E, s, c.args[0], T.rfld2(rmul(ring(a), ring(b))))
    return [(s, UNIT)]


def m_cubic_new(E, s, c):
    if T is None:
        return None
    return [(s, f6_node([ring(val(E, s, x)) for x in c.args]))]


def m_quad_new(E, s, c):
    if T is None:
        return None
    k = T.kind(c.res or c.gargs)
    a, b = val(E, s, c.args[0]), val(E, s, c.args[1])
    if k == 12:
        return [(s, T.out12([f6(a), f6(b)]))]
    if k == 2:
        return [(s, T.rfld2(radd(ring(a), rmul(ring(b), {(U,): 1}))))]
    return None


def m_nonresidue(E, s, c):
    if T is None:
        return None
    k = T.kind(c.res or c.gargs[0])
    a = val(E, s, c.args[0])
    if k == 12:
        return [(s, f6_node(f6_v(f6(a))))]
    if k == 6:
        return [(s, T.rfld2(rmul(ring(a), XI)))]
    return None


def m_affine_new(E, s, c):
    if T is None:
        return None
    return [(s, N("adt", GA, None, *[val(E, s, x) for x in c.args]))]


def m_proj_new(E, s, c):
    """three coordinates of one point make up that point"""
    if T is None:
        return None
    x, y, z = [val(E, s, a) for a in c.args]
    if x.op == "fld" and y.op == "fld" and z.op == "fld" and (x.a[1], y.a[1], z.a[1]) == ("x", "y", "z") and x.a[0] is y.a[0] is z.a[0]:
        return [(s, x.a[0])]
    return [(s, N("app", "point", x, y, z))]


def m_same(E, s, c):
    if T is None:
        return None
    return [(s, val(E, s, c.args[0]))]


def m_madd(E, s, c):
    if T is None:
        return None
    a, b = val(E, s, c.args[0]), val(E, s, c.args[1])
    s = s.copy()
    store(E, s, c.args[0], group_add(a, b))
    return [(s, UNIT)]


def m_is_zero(E, s, c):
    if T is None:
        return None
    k = T.of_call(c)
    if k not in ("G1", "G2"):
        return None
    a = val(E, s, c.args[0])
    return [(s, N("app", "is_zero", a))]


def chain(name, f):
    old = models.MODELS.get(name)

    def g(E, s, c):
        r = f(E, s, c)
        if r is None and old is not None:
            return old(E, s, c)
        return r
    models.MODELS[name] = g


for _n, _o in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul")):
    chain("std::ops::" + _n, binary(_o))
for _n, _o in (("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul")):
    chain("std::ops::" + _n, assigning(_o))
chain("std::ops::Neg::neg", unary(v_neg))
for _n, _f, _i in (("Field::double", v_double, 0), ("Field::square", v_square, 0), ("Field::square_in_place", v_square, 1), ("Field::double_in_place", v_double, 1),
                   ("Field::inverse", v_inverse, 0), ("ProjectiveCurve::double", v_double, 0)):
    chain("ark_ff::" + _n, unary(_f, bool(_i)))


def _frob(E, s, c):
    r = unary(v_frob, True)(E, s, c)
    return None if r is None else [(x, UNIT) for x, _ in r]


def _conj(E, s, c):
    r = unary(v_conj, True)(E, s, c)
    return None if r is None else [(x, UNIT) for x, _ in r]


chain("ark_ff::Field::frobenius_map", _frob)
chain("ark_ff::QuadExtField::<P>::conjugate", _conj)
chain("ark_ff::fp12_2over3over2::<impl ark_ff::QuadExtField<ark_ff::Fp12ParamsWrapper<P>>>::cyclotomic_square", unary(v_cyclotomic))
chain("ark_ff::fp2::<impl ark_ff::QuadExtField<ark_ff::Fp2ParamsWrapper<P>>>::mul_assign_by_fp", m_mul_by_fp)
chain("ark_ff::One::one", m_const(1))
chain("ark_ff::Zero::zero", m_const(0))
chain("ark_ff::Zero::is_zero", m_is_zero)
chain("ark_ff::CubicExtField::<P>::new", m_cubic_new)
chain("ark_ff::QuadExtField::<P>::new", m_quad_new)
chain("ark_ff::QuadExtParameters::mul_base_field_by_nonresidue", m_nonresidue)
chain("ark_ff::CubicExtParameters::mul_base_field_by_nonresidue", m_nonresidue)
chain("ark_ec::short_weierstrass_jacobian::GroupAffine::<P>::new", m_affine_new)
chain("ark_ec::short_weierstrass_jacobian::GroupProjective::<P>::new", m_proj_new)
chain("ark_ec::ProjectiveCurve::add_assign_mixed", m_madd)
chain("ark_ec::ProjectiveCurve::into_affine", m_same)
chain("ark_ec::AffineCurve::into_projective", m_same)


# --- the values kept between instructions
def ram_name(E, s, a):
    n = E.deep(s, a)
    if n.op == "fld" and str(n.a[1]).startswith("ram"):
        return n
    raise NotNumbered("unknown memory " + str(n)[:60])


def ram_hook(E, s, c, m):
    if T is None:
        return None
    op = m.group(1)
    r = ram_name(E, s, c.args[0])
    fr = ("g", "frame." + r.a[1], r.a[0])
    frame = s.st.get(fr, Int(0))
    if op == "get_frame":
        return [(s, frame)]
    if op == "set_frame":
        s = s.copy()
        s.st[fr] = val(E, s, c.args[1])
        return [(s, UNIT)]
    i = val(E, s, c.args[2 if op == "write" else 1])
    if i.op != "int" or frame.op != "int":
        raise NotNumbered("position in memory is not constant")
    k = ("g", "%s.%d" % (r.a[1], i.a[0] + frame.a[0]), r.a[0])
    s = s.copy()
    if op == "write":
        s.st[k] = val(E, s, c.args[1])
        return [(s, UNIT)]
    v = s.st.get(k)
    if v is None:
        v = N("app", "unwritten", N("str", k[1]))
    return [(s, v)]


RAM_HOOK = (re.compile(r"LazyRAM<.*> as .*RAM<.*>>::(write|read|get_frame|set_frame)$|LazyRAM.*::(write|read|get_frame|set_frame)$"), lambda E, s, c, m: ram_hook(E, s, c, m if m.group(1) else re.match(r".*::(\w+)$", m.group(0))))
