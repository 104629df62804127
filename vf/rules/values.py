"""S05: equality and copies of the programs' values."""
from .lib import *
from .pairing import run_fn
from ..models import fork

DERIVED = re.compile(r"^<(.*) as std::(cmp::PartialEq|clone::Clone)>::(eq|ne|clone|clone_from)$")


def type_name(P, t):
    """the declared type behind a reference, without its arguments"""
    t = re.sub(r"<.*", "", t.lstrip("&").replace("mut ", "")).strip()
    for x in (t, "elusiv::" + t, "elusiv_warden_network::" + t):
        if x in P.adts:
            return x
    return None


def value(P, T, v, tag):
    """a value of one variant of a type, its parts unknown"""
    vs = P.adts[T]["variants"]
    name, _, fields = vs[v]
    return N("adt", T, name if P.adts[T]["kind"] == "Enum" else None, *[N("sym", "%s.%s" % (tag, f[0])) for f in fields])


def method_job(W, fn):
    P = W.P

    def job(R):
        what = re.sub(r"std::\w+::", "", fn["inst"])
        m = DERIVED.match(fn["name"])
        T = type_name(P, fn["locals"][1])
        if not R.need(T is not None, "S05/type", what, "the type is declared in the program", fn["span"], str(fn["locals"][1])):
            return
        n = len(P.adts[T]["variants"])
        if m.group(3) == "clone":
            for i in range(n):
                x = value(P, T, i, "x")
                f, xs = run_fn(W, fn, [], host=[x])
                R.need(len(xs) > 0, "S05/answers", what, "the copy is made", fn["span"])
                for s, v in xs:
                    R.count("copies compared with their source")
                    R.need(v is x, "S05/copy", what, "a copy has every part of its source", fn["span"], "%s becomes %s" % (x, v))
            return
        if m.group(3) == "clone_from":
            R.need(False, "S05/clone-from", what, "a value is copied by making a new one", fn["span"])
            return
        for i in range(n):
            for j in range(n):
                x, y = value(P, T, i, "x"), value(P, T, j, "y")
                f, xs = run_fn(W, fn, [], host=[x, y])
                R.need(len(xs) > 0, "S05/answers", what, "the comparison answers", fn["span"])
                parts = [mk_eq(a, b) for a, b in zip(x.a[2:], y.a[2:])]
                for s, v in xs:
                    for st, equal in fork(s, v):
                        R.count("answers of comparisons")
                        if m.group(3) == "ne":
                            equal = not equal
                        if equal:
                            R.need(i == j and all(all(b for _, b in fork(st, p)) for p in parts), "S05/equal", what, "values called equal are of one kind and agree in every part", fn["span"], "%s and %s" % (x, y))
                        else:
                            rest = [st] if i == j else []
                            for p in parts:
                                rest = [z for r in rest for z, b in fork(r, p) if b]
                            R.need(not rest, "S05/different", what, "values of one kind which agree in every part are called equal", fn["span"], "%s and %s" % (x, y))
    return job


@prop("S05", progs=("elusiv", "warden"))
def S05(R, W1, W2):
    """Every implementation of equality and of copying for a type of the two programs that their code reaches is analysed on its own (path-sensitive dataflow over its MIR, once per pair of variants with unknown parts): the answer 'equal' is reached exactly when the variants are the same and every part is equal, and a copy is the very value it was made from. The other rules take equality and copies to be part by part; this one makes that assumption an obligation, so a hand-written implementation that skips a part or a variant is reported."""
    jobs, seen = [], set()
    for W in (W1, W2):
        for fn in sorted(W.P.fns.values(), key=lambda f: f["inst"]):
            m = DERIVED.match(fn["name"])
            if m and fn["crate"].startswith("elusiv") and fn["inst"] not in seen:
                seen.add(fn["inst"])
                jobs.append((fn["inst"], method_job(W, fn)))
    R.count("implementations of equality and copying", len(jobs))
    R.floor("implementations of equality and copying", 25)
    parallel(R, jobs)
