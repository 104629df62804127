"""Entry points and builds."""
import re
from .lib import *
from .. import build


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower().replace("__", "_")


def squash(n):
    return n.replace("_", "").lower()


def decoded(p, ins, crate):
    """the bytes an instruction was decoded from, in whole"""
    ins = p.canon(ins)
    if not (ins.op == "fld" and ins.a[1] == "0" and ins.a[0].op == "as" and ins.a[0].a[1] == "Ok"):
        return None
    d = ins.a[0].a[0]
    if not (d.op == "app" and len(d.a) == 2 and re.match(r"de<%s::instruction::" % crate, str(d.a[0]))):
        return None
    x = d.a[1]
    return x.a[0] if x.op == "slice" and x.a[1] is Int(0) and x.a[2] is app("len", x.a[0]) else x


def dispatch(R, W):
    pre = W.instr + "::"
    names = W.handler_names()
    H = W.handler(pre + "process", extra_opaque=[pre + n for n in names])
    ps = H.ok + H.err
    vs = {v[0]: v for v in W.variants()}
    todo = set(vs)
    ix = H.args[2]
    for p in ps:
        if infeasible(p):
            continue
        R.count("dispatch paths")
        var = [v for v in vs if p.truth(mk_is(ix, v)) is True]
        calls = p.calls("^" + re.escape(pre))
        w = var[0] if len(var) == 1 else "process"
        if not R.need(len(var) == 1, "D01/decided", w, "each dispatch path is for one instruction", p.site(), p.describe()):
            continue
        todo.discard(var[0])
        if not R.need(len(calls) == 1 and not calls[0][2], "D01/one", w, "one handler is run, once", p.site(), ", ".join(c[0] for c in calls)):
            continue
        n, args, _, _ = calls[0]
        R.need(squash(n[len(pre):]) == squash(var[0]), "D01/own", w, "an instruction is run by its own handler", p.site(), n)
        R.need(args and args[0] is H.args[1], "D01/accounts", w, "the handler gets the accounts given, in order", p.site())
        want = [f[0] for f in vs[var[0]][2]]
        have = args[1:]
        ok = len(want) == len(have) and all(x.op == "fld" and x.a[1] == f and x.a[0].op == "as" and x.a[0].a[0] is ix and x.a[0].a[1] == var[0] for x, f in zip(have, want))
        R.need(ok, "D01/arguments", w, "the handler gets the instruction's own arguments", p.site(), ", ".join(nice(x) for x in have))
        R.need(p.ret.op == "app" and str(p.ret.a[0]) == n or p in H.ok and any(y.op == "app" and str(y.a[0]) == n for y in walk(p.ret)), "D01/result", w, "the outcome of the handler is the outcome of the instruction", p.site(), nice(p.ret))
    R.need(not todo, "D01/all", "process", "every instruction is dispatched", H.loc(), ", ".join(sorted(todo)))
    R.need(squashed(names) >= {squash(v) for v in vs}, "D01/all", "process", "every instruction has a handler", H.loc())
    # the entry point: the whole input is the instruction
    E = W.handler(W.crate + "::entrypoint::process_instruction", extra_opaque=[pre + "process"])
    n = 0
    for p in E.ok:
        if infeasible(p):
            continue
        c = p.calls("^" + re.escape(pre + "process") + "$")
        if not R.need(len(c) == 1, "D01/entry", "process_instruction", "an input is accepted only by running the instruction it holds", p.site()):
            continue
        n += 1
        a = c[0][1]
        ins = a[2]
        R.need(a[0] is E.args[0] and a[1] is E.args[1] and decoded(p, ins, W.crate) is E.args[2], "D01/entry", "process_instruction", "the instruction run is the one the input holds, on the accounts given", p.site(), nice(ins))
        R.need(any(y.op == "app" and str(y.a[0]).endswith("::process") for y in walk(p.ret)), "D01/entry", "process_instruction", "the outcome of the instruction is the outcome of the program", p.site(), nice(p.ret))
    R.need(n >= 1, "D01/entry", "process_instruction", "instructions are run", E.loc())


def squashed(l):
    return {squash(x) for x in l}


@prop("D01", ("elusiv", "warden"), "every path from the entry point through the dispatch to a handler, both programs")
def d01(R, W, WW):
    """Both programs' entry points and dispatch functions are analysed for an arbitrary input: every path decides for one instruction and runs exactly its handler with the accounts given and its own arguments, and returns its outcome."""
    for w in (W, WW):
        dispatch(R, w)
    R.floor("dispatch paths", 50)


# ---------------------------------------------------------------- D02: the mainnet build

SER = "as borsh::BorshSerialize>::serialize"


def strip(n, pids, memo):
    """sites and program ids removed"""
    if n in memo:
        return memo[n]
    ch = []
    seed = n.op == "arr" and len(n.a) == 1 or n.op == "app" and SER in str(n.a[0])
    if n.op == "ev" and SER in str(n.a[1]):
        n = N(n.op, *n.a[:2], *[N("arr", x) if isinstance(x, Node) and x.op == "int" else N("args", *[N("bump") if y.op == "int" and y.a[0] in pids["bumps"] else y for y in x.a]) if isinstance(x, Node) and x.op == "args" else x for x in n.a[2:]])
    for i, c in enumerate(n.a):
        if isinstance(c, Node):
            if seed and c.op == "int" and c.a[0] in pids["bumps"]:
                c = N("bump")
            c = strip(c, pids, memo)
        elif n.op == "closure" and i == 0 and isinstance(c, int) or n.op == "closure" and i == 1 and isinstance(c, int):
            c = 0
        elif isinstance(c, str):
            c = re.sub(r"[\w./-]+\.rs:\d+(:\d+)?", "src", c)
            if c in pids:
                c = pids[c]
        elif isinstance(c, bytes):
            c = pids.get(c.hex(), c)
        ch.append(c)
    if n.op == "eq":
        ch.sort(key=lambda x: id(x))
    r = N(n.op, *ch) if any(x is not y for x, y in zip(ch, n.a)) else n
    memo[n] = r
    return r


def pid_map(W):
    d = {W.program_id.hex(): "program id"}
    for T, k in W.first_pda.items():
        d[k.hex()] = "address of " + T
    d["bumps"] = {c[4][1][1][1] for c in W.P.consts if c[0].endswith("FIRST_PDA")}
    d["bumps"] |= {int(x) for x in d["bumps"]}
    return d


def behaviour(W, h, extra=None):
    pids = pid_map(W)
    pids.update(extra or {})
    memo = {}
    out = {}
    H = W.handler(h)
    for p in H.ok:
        k = (frozenset((strip(f, pids, memo), b) for f, b in p.s.facts), tuple(strip(e, pids, memo) for e in p.ev if not (e.a[0] == "call" and "sol_log" in str(e.a[1]))), strip(p.ret, pids, memo))
        out[k] = p
    return out


def same_job(W, M, h, ea, eb):
    def job(R):
        R.count("handlers compared")
        a, b = behaviour(W, h, ea), behaviour(M, h, eb)
        R.count("exits compared", len(a))
        d = [p for k, p in b.items() if k not in a] + [p for k, p in a.items() if k not in b]
        R.need(not d, "D02/same", "%s: %s" % (W.which, h), "the mainnet build behaves as the build analysed", d[0].site() if d else "", d[0].describe() if d else "")
    return job


@prop("D02", ("elusiv", "elusiv_mainnet", "warden", "warden_mainnet"), "all instructions of both programs in the mainnet configuration against the default one")
def d02(R, W, M, V, N_):
    """Both programs are analysed a second time as compiled for mainnet. The instructions are those of the default build without the closing of program accounts, and every handler's successful exits (conditions, effects, result) are the same up to the program ids."""
    jobs = []
    for a, b, c in ((W, M, "elusiv"), (V, N_, "warden")):
        x, y = [v[0] for v in a.variants()], [v[0] for v in b.variants()]
        R.need([v for v in x if v != "CloseProgramAccount"] == y, "D02/instructions", c, "the mainnet build has the same instructions, without closing of program accounts", "", ", ".join(sorted(set(x) ^ set(y))))
        hs = [h for h in b.handler_names()]
        R.need(set(a.handler_names()) - set(hs) <= {"close_program_account"}, "D02/instructions", c, "every other instruction has its handler", "")
        ea, eb = ({W.program_id.hex(): "payment program"}, {M.program_id.hex(): "payment program"}) if c == "warden" else ({}, {})
        for h in hs:
            jobs.append((c + ":" + h, same_job(a, b, h, ea, eb)))
    parallel(R, jobs)
    R.floor("handlers compared", 49)
    R.floor("exits compared", 50)
