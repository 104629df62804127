"""C12: conversions between bytes, limbs and field elements."""
from .lib import *
from .pairing import run_fn, SCALAR
from ..models import fork

FR = r"ark_ff::Fp256<ark_bn254::FrParameters>"


class Unknown(Exception):
    pass


def cell(v, k):
    """the k-th cell of an array value that was built piece by piece; bytes of a written value are bytes of its limbs"""
    while True:
        if v.op == "arr":
            if not k < len(v.a):
                raise Unknown("cell %d of %s" % (k, v))
            return v.a[k] if v.a[k].op != "idx" else cell(v.a[k].a[0], v.a[k].a[1].a[0]) if v.a[k].a[1].op == "int" else v.a[k]
        if v.op == "splice":
            a, b = v.a[1], v.a[2]
            if a.op != "int" or b.op != "int":
                raise Unknown(str(v))
            if a.a[0] <= k < b.a[0]:
                v, k = v.a[3], k - a.a[0]
            else:
                v = v.a[0]
            continue
        if v.op == "slice":
            if v.a[1].op != "int":
                raise Unknown(str(v))
            v, k = v.a[0], k + v.a[1].a[0]
            continue
        if v.op == "upd":
            st = v.a[1]
            if st[0] == "rng" and all(isinstance(z, int) for z in st[1:]):
                if st[1] <= k < st[2]:
                    v, k = v.a[2], k - st[1]
                else:
                    v = v.a[0]
                continue
            if st[0] != "i" or not isinstance(st[1], int):
                raise Unknown(str(v))
            if st[1] == k:
                return cell1(v.a[2])
            v = v.a[0]
            continue
        if v.op == "app" and v.a[0] == "borsh" and v.a[1].op == "adt" and v.a[1].a[0].endswith("::Wrap"):
            # S02: such a value is written as its four limbs, least significant byte first
            x = v.a[1].a[2]
            return N("byte", limb(mont(x), k // 8), k % 8)
        if v.op == "le":
            return N("byte", v.a[1], k)
        return mk_idx(v, Int(k))


def cell1(x):
    return cell(x.a[0], x.a[1].a[0]) if x.op == "idx" and x.a[1].op == "int" else x


def mont(x):
    """the limbs' holder of a value: integers as they are, field elements in Montgomery form"""
    return x if is_integer(x) else mk_fld(x, 0, "0")


def is_integer(x):
    return (x.op == "adt" and x.a[0].endswith("BigInteger256")) or (x.op == "app" and "BigInteger256" in str(x.a[0])) or (x.op == "sym" and x.a[0] == "integer") or (x.op == "app" and str(x.a[0]).endswith("::into_repr"))


def limb(big, i):
    if big.op == "app" and re.match(r"^(into<ark_ff::BigInteger256>|<ark_ff::BigInteger256 as std::convert::From<u64>>::from)$", str(big.a[0])) and len(big.a) == 2:
        return big.a[1] if i == 0 else Int(0)
    h = mk_fld(big, 0, "0")
    return word(mk_idx(h, Int(i)))


def word(x):
    """a limb; one read from bytes is named by them"""
    if x.op == "app" and str(x.a[0]).startswith("from_le"):
        b = x.a[1]
        return N("word", *[cell(b, k) for k in range(8)])
    return x


def integer(x):
    """the four limbs of an integer"""
    return tuple(limb(x, i) for i in range(4))


def some(x):
    return x.a[0].a[0] if x.op == "fld" and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Some" else None


def element(x):
    """(how it is read, limbs) of a field element made from an integer"""
    if x.op == "app" and re.match(r"^ark_ff::Fp256::<ark_bn254::FrParameters>::new$", str(x.a[0])):
        return "raw", integer(x.a[1])
    y = some(x)
    if y is not None and y.op == "app" and str(y.a[0]) == "<%s as ark_ff::PrimeField>::from_repr" % FR:
        return "value", integer(y.a[1])
    if x.op == "app" and re.match(r"^(into<%s>|<%s as std::convert::From<u64>>::from|<%s as std::convert::From<ark_ff::BigInteger256>>::from)$" % (FR, FR, FR), str(x.a[0])):
        y = x.a[1]
        return "value", integer(y) if is_integer(y) else (y, Int(0), Int(0), Int(0))
    return "unknown", x


def bytes32(v):
    return tuple(canon_byte(cell(v, k)) for k in range(32))


def canon_byte(b):
    """byte k of a limb read from bytes is that byte"""
    if b.op == "idx" and b.a[0].op == "le" and b.a[1].op == "int":
        b = N("byte", b.a[0].a[1], b.a[1].a[0])
    if b.op == "byte":
        w = word(b.a[0])
        if w.op == "word":
            return w.a[b.a[1]]
        if w.op == "int":
            return Int(w.a[0] >> 8 * b.a[1] & 255)
        if w.op == "idx" and w.a[0].op == "fld":
            return N("byte", w, b.a[1])
    return b


X = N("sym", "x")
BIG = N("sym", "integer")


def words(x):
    return tuple(N("word", *[mk_idx(x, Int(8 * i + k)) for k in range(8)]) for i in range(4))


def limbs_bytes(ls):
    out = []
    for w in ls:
        for k in range(8):
            out.append(Int(w.a[0] >> 8 * k & 255) if w.op == "int" else N("byte", w, k))
    return tuple(out)


SMALL = (X, Int(0), Int(0), Int(0))


def conversions():
    F = "elusiv::fields::"
    T = "elusiv::types::"
    raw = mk_fld(X, 0, "0")

    def holder(h):
        return lambda v: tuple(canon_byte(b) for b in bytes32(v)) == tuple(N("byte", mk_idx(mk_fld(h, 0, "0"), Int(i // 8)), i % 8) for i in range(32))

    def written(how, limbs):
        """the bytes of the Montgomery form of the element with this value"""
        def f(v):
            got = bytes32(v)
            for i, b in enumerate(got):
                if b.op != "byte" or b.a[1] != i % 8:
                    return False
                w = b.a[0]
                if not (w.op == "idx" and w.a[1] is Int(i // 8) and w.a[0].op == "fld" and w.a[0].a[0].op == "fld"):
                    return False
                if element(w.a[0].a[0].a[0]) != (how, limbs):
                    return False
            return True
        return f
    return [
        (T + "u256_to_le_limbs", X, 0, "the limbs are the bytes, least significant first", lambda v: v.op == "arr" and len(v.a) == 4 and tuple(word(w) for w in v.a) == words(X)),
        (F + "u256_to_big_uint", X, 1, "the integer is the number of the bytes, least significant first", lambda v: integer(v) == words(X)),
        (F + "le_u256", X, 1, "the integer is the number of the bytes, least significant first", lambda v: integer(v) == words(X)),
        (F + "u256_to_fr_skip_mr", X, 1, "the element's internal form is the number of the bytes", lambda v: element(v) == ("raw", words(X))),
        (F + "u64_to_scalar", X, 0, "the element is the number", lambda v: element(v) == ("value", SMALL)),
        (F + "u64_to_scalar_skip_mr", X, 0, "the element's internal form is the number", lambda v: element(v) == ("raw", SMALL)),
        (F + "u64_to_u256", X, 0, "the bytes are the internal form of the number", written("value", SMALL)),
        (F + "u64_to_u256_skip_mr", X, 0, "the bytes are the number, least significant first", lambda v: bytes32(v) == limbs_bytes(SMALL)),
        (F + "fr_to_u256_le", X, 1, "the bytes are the element's internal form", holder(mont(X))),
        (F + "fr_to_u256_le_repr", X, 1, "the bytes are the element's value, least significant first", holder(app("<%s as ark_ff::PrimeField>::into_repr" % FR, X))),
        (F + "big_uint_to_u256", BIG, 1, "the bytes are the integer, least significant first", holder(BIG)),
        (T + "RawU256::reduce", X, 1, "the bytes are the internal form of the number", written("value", words(raw))),
        (T + "RawU256::new", X, 0, "the bytes are kept", lambda v: mk_fld(v, 0, "0") is X),
        (T + "RawU256::skip_mr", X, 1, "the bytes are kept", lambda v: v is raw),
        (F + "is_element_scalar_field", BIG, 0, "a number below the field's order is an element", None),
    ]


@prop("C12", progs=("elusiv",))
def C12(R, W):
    """Every conversion the programs use between 32 bytes, four limbs, integers and field elements is analysed on unknown input (dataflow over its MIR): the result is resolved byte by byte or limb by limb to the input bytes, constants or bytes of an element's value or internal form, and compared with the conversion's meaning. The other rules treat these conversions as functions of their input with exactly this meaning."""
    seen = 0
    for name, x, ref, what, ok in conversions():
        fns = [f for f in W.P.fns.values() if f["name"] == name]
        if not fns:
            continue
        seen += 1
        R.count("conversions")
        fn = fns[0]
        short = name.split("elusiv::", 1)[1]
        ref = fn["locals"][1].startswith("&")
        _, xs = run_fn(W, fn, [] if ref else [x], host=[x] if ref else [], pure=[])
        R.need(len(xs) > 0, "C12/answers", short, "the conversion answers", fn["span"])
        for s, v in xs:
            R.count("results of conversions")
            if ok is None:
                for st, yes in fork(s, v):
                    for s2, below in fork(st, mk_lt(BIG, N("adt", "ark_ff::BigInteger256", None, N("arr", *[Int(SCALAR >> 64 * i & (1 << 64) - 1) for i in range(4)])))):
                        R.need(yes == below, "C12/meaning", short, what, fn["span"], "%s under %s" % (v, st.facts[-2:] if isinstance(st.facts, list) else ""))
                continue
            try:
                R.need(ok(v), "C12/meaning", short, what, fn["span"], str(v)[:400])
            except Unknown as e:
                R.need(False, "C12/meaning", short, what, fn["span"], "not resolved: " + str(e)[:300])
    R.floor("conversions", 9)
