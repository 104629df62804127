"""T16: the division of input preparation into steps."""
from .lib import *
from .pairing import run_fn
from ..affine import Join
from ..norm import Norm, poly_dict, padd

FN = "elusiv::proof::verifier::prepare_public_inputs_instructions"
ROUNDS = 33     # T11: one per byte of an input, one to add the result
MOST = 14       # inputs of the largest circuit; S02, T02: more are refused


def summed(E, s, c):
    """a list that only grows is represented by the sum of its entries"""
    if c.name == "std::vec::Vec::<T, A>::push":
        loc = E.loc_of(c.args[0])
        v = E.read(s, loc)
        if v.op == "arr" and len(v.a) < 2:
            s = s.copy()
            E.write_quiet(s, loc, N("arr", Norm()(mk_bin("add", v.a[0], c.args[1], "u32")) if v.a else c.args[1]))
            return [(s, UNIT)]
    return None


def complete(s, v, total):
    if v.op != "arr" or len(v.a) > 1:
        return False
    d = padd(poly_dict(Norm()(v.a[0])) if v.a else {}, {(): -total} if total else {})
    if not d:
        return True
    for f, pol in s.facts:
        if pol and f.op == "app" and f.a[0] == "eq" or pol and f.op == "eq":
            a, b = [x for x in f.a if isinstance(x, Node)][-2:]
            z = padd(poly_dict(Norm()(a)), poly_dict(Norm()(b)), -1)
            for k in (1, -1):
                if not padd(d, z, k):
                    return True
    return False


@prop("T16", progs=("elusiv",))
def T16(R, W):
    """The function that divides input preparation into steps is analysed for every number of inputs of a circuit (1 to 14) with unknown inputs: all paths of each round of its loops are followed and joined by the affine equalities between its counters (Karr's domain; the list of steps is represented by the sum of its entries), so no bound on the inputs' bytes is needed. On every exit the entries must add up to 33 rounds per input (32 bytes and the final addition), which T04 and T11 run one by one."""
    fns = [f for f in W.P.fns.values() if f["name"] == FN]
    if not R.need(len(fns) == 1, "T16/present", "schedule", "the function that divides input preparation exists", "", FN):
        return

    def job(n):
        def run(R):
            ins = N("arr", *[N("sym", "input%d" % i) for i in range(n)])
            fn, xs = run_fn(W, fns[0], [Int(n)], host=[ins], opaque=[], opts={"unroll_all": True, "unroll_max": 300, "loop_join": Join(), "intercept": summed})
            R.need(len(xs) > 0, "T16/answers", "schedule", "a schedule is made for %d inputs" % n, fn["span"])
            for s, v in xs:
                R.count("exits of the schedule")
                R.need(complete(s, v, ROUNDS * n), "T16/complete", "schedule", "the steps together run all rounds of all inputs", fn["span"], "%d inputs: %s rounds where %d are needed" % (n, v, ROUNDS * n))
            R.count("numbers of inputs")
        return run
    parallel(R, [("%d inputs" % n, job(n)) for n in range(1, MOST + 1)])
    R.floor("numbers of inputs", MOST)
