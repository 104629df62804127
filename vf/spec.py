"""Queries over the exits of analysed entry points, used by the rules."""
import os
import re
from .engine import *
from .engine import mk_and, mk_or, mk_not, mk_eq, mk_lt, mk_is, mk_as, mk_fld, mk_idx, mk_bin
from .norm import Norm, equalities, poly_dict, poly_node, padd, is_const, size
from . import proj

ACCOUNTS = N("sym", "accounts")


def A(k):
    return N("idx", ACCOUNTS, Int(k))


def key(a):
    return N("fld", a, "key")


def owner(a):
    return N("fld", a, "owner")


def signer(a):
    return N("fld", a, "is_signer")


def sym(n):
    return N("sym", n)


def fld(x, path):
    for p in path.split("."):
        x = N("fld", x, p)
    return x


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = app("add", r, x if isinstance(x, Node) else Int(x))
    return r


def sub(a, b):
    return app("sub", a, b if isinstance(b, Node) else Int(b))


def mul(a, b):
    return app("mul", a if isinstance(a, Node) else Int(a), b if isinstance(b, Node) else Int(b))


def eq(a, b):
    return mk_eq(a, b if isinstance(b, Node) else Int(b))


def lt(a, b):
    return mk_lt(a if isinstance(a, Node) else Int(a), b if isinstance(b, Node) else Int(b))


def le(a, b):
    return mk_not(lt(b, a))


def ok_of(x):
    return N("fld", N("as", x, "Ok"), "0")


def some_of(x):
    return N("fld", N("as", x, "Some"), "0")


def is_some(x):
    return mk_is(x, "Some")


def bytes_of(x):
    return app("bytes_of", x)


PROG = {"elusiv": ("elusiv", "elusiv::instruction::ElusivInstruction"),
        "warden": ("elusiv_warden_network", "elusiv_warden_network::instruction::ElusivWardenNetworkInstruction")}


class World:
    """one analysed program"""

    def __init__(self, which, path):
        self.which = which
        self.P = Prog(path)
        self.crate, self.instr = PROG[which]
        self.handlers = {}
        self.types = {}
        for n in self.P.adts:
            self.types.setdefault(n.split("::")[-1], []).append(n)
        self.const = {}
        for c in self.P.consts:
            self.const[c[0]] = c[4]
        self.seeds, self.first_pda, self.pda_program, self.acct_size = {}, {}, {}, {}
        for c in self.P.consts:
            m = re.match(r"^<(.*?) as elusiv_types::(PDAAccount|SizedAccount)>::(\w+)$", c[0])
            if not m:
                continue
            T = proj.base_type(m.group(1)).split("::")[-1]
            w, v = m.group(3), c[4]
            if w == "SEED":
                self.seeds[T] = bytes.fromhex(v[1][1])
            elif w == "FIRST_PDA":
                self.first_pda[T] = bytes.fromhex(v[1][0][3][0][1][1])
            elif w == "PROGRAM_ID":
                self.pda_program[T] = bytes.fromhex(v[3][0][1][1])
            elif w == "SIZE":
                self.acct_size[T] = int(v[1])
        self.PK = "solana_program::pubkey::Pubkey"
        ids = set(self.pda_program.values())
        self.program_id = list(ids)[0] if len(ids) == 1 else None

    def full(self, short):
        l = [n for n in self.types.get(short, []) if n.startswith(self.crate)]
        if len(l) != 1:
            l = self.types.get(short, [])
        if not l:
            raise AnalysisError("type not found: " + short)
        return l[0]

    def pk(self, b):
        return N("adt", self.PK, None, N("bytes", b.hex() if isinstance(b, bytes) else b))

    def pda_key(self, short):
        if short not in self.first_pda:
            raise AnalysisError("no program derived address constant for " + short)
        return self.pk(self.first_pda[short])

    def int_const(self, suffix):
        l = [v for k, v in self.const.items() if k == suffix or k.endswith("::" + suffix)]
        l = [v for v in l if v[0] == "int"]
        if len(set(v[1] for v in l)) != 1:
            raise AnalysisError("constant not found: " + suffix)
        return int(l[0][1])

    def variants(self):
        return self.P.adts[self.instr]["variants"]

    def handler(self, name, args=None, **kw):
        k = (name, tuple(args or ()), tuple((x, str(kw[x])) for x in sorted(kw)))
        h = self.handlers.get(k)
        if h is None:
            h = self.handlers[k] = Handler(self, name, self.instr + "::" + name if "::" not in name else name, args, **kw)
        return h

    def handler_names(self):
        pre = self.instr + "::"
        return sorted(f["name"][len(pre):] for f in self.P.fns.values() if f["name"].startswith(pre) and f["name"].count("::") == pre.count("::") and f["name"] != pre + "process")

    def view(self, T, acct):
        return N("view", self.full(T), acct)

    def get(self, view, field, epoch=None):
        T = view.a[0]
        return N("get", T + "." + field, view)


def rewrite(n, f, memo=None):
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    r = f(n)
    if r is None:
        ch = [rewrite(c, f, memo) if isinstance(c, Node) else c for c in n.a]
        r = N(n.op, *ch) if any(x is not y for x, y in zip(ch, n.a)) else n
    memo[n] = r
    return r


class Handler:
    """an analysed entry point and its exits"""

    def __init__(self, W, name, full, args=None, extra_opaque=(), extra_pure=(), opaque=None, pure=None, watch=(), cells=None, unroll=False, split_minmax=True, ite=False):
        self.W, self.name, self.full = W, name, full
        fn = W.P.fn(full)
        self.fn = fn
        self.E = proj.engine(W.P, opaque=opaque, pure=pure, extra_opaque=extra_opaque, extra_pure=extra_pure, watch=watch, opts={"unroll_all": bool(unroll), "unroll_exits": 1000 if unroll is True else int(unroll), "split_minmax": split_minmax, "ite": ite})
        names = {}
        for d in fn["dbg"]:
            if not d[1][1] and 1 <= d[1][0] <= fn["nargs"]:
                names[d[1][0]] = d[0]
        self.params = [names.get(i, "arg%d" % i) for i in range(1, fn["nargs"] + 1)]
        if args is None:
            args = [N("sym", n) for n in self.params]
            if self.params and fn["locals"][1].startswith("&[solana_program::account_info::AccountInfo"):
                args[0] = ACCOUNTS
        self.args = args
        st = None
        if cells:
            # analysed under the assumption that these account fields hold these values
            st = State({("g", w.a[0] + "." + f, w): v for (w, f), v in cells.items()})
        rs = self.E.run_entry(fn, args, st)
        self.ok, self.err = [], []
        for i, (s, v) in enumerate(rs):
            p = Path(self, s, v)
            p._prep()
            if p.impossible:
                # its facts contradict each other
                continue
            (self.err if v.op == "adt" and v.a[0].endswith("result::Result") and v.a[1] == "Err" else self.ok).append(p)

    def arg(self, i):
        """i-th instruction argument (after the account list)"""
        return self.args[i + 1]

    def loc(self):
        return "%s (%s)" % (self.full, self.fn["span"])


class Path:
    def __init__(self, H, s, ret):
        self.H, self.s, self.ret = H, s, ret
        self.ev = evlist(s.ev)
        self._c = None
        self._flat = None
        self.impossible = False

    # -- facts
    def _prep(self):
        if self._c is None:
            n0 = Norm(eng=self.H.E)
            f0 = {(n0(f), p) for (f, p) in self.s.facts}
            self._c = Norm(equalities(f0), eng=self.H.E)
            fs = set()
            for (f, p) in f0:
                g = self._c(f)
                # keep the equality itself, rewriting would erase it
                fs.add((f, p))
                while g.op == "not":
                    g, p = g.a[0], not p
                if g.op != "int":
                    fs.add((g, p))
                elif bool(g.a[0]) != p:
                    self.impossible = True
            self._st = State({}, frozenset(fs))
        return self._c

    def canon(self, n):
        c = self._prep()
        m = self.__dict__.setdefault("_cm", {})
        if n not in m:
            x = c(n)
            y = narrow(x, self._st)
            y = c(y) if y is not x else x
            m[n] = y
            z = self._cases(y)
            if z is not y:
                m[n] = c(z)
        return m[n]

    def _cases(self, n):
        """min and max, where the path knows which of the two it is"""
        if not any(x.op == "app" and x.a[0] in ("min", "max") and len(x.a) == 3 for x in walk(n)):
            return n

        def f(x):
            if x.op == "app" and x.a[0] in ("min", "max") and len(x.a) == 3:
                a, b = x.a[1], x.a[2]
                for l, g in ((a, b), (b, a)):
                    t = self.truth(mk_lt(l, g))
                    if t is not None:
                        lo, hi = (l, g) if t else (g, l)
                        return lo if x.a[0] == "min" else hi
            return None
        return rewrite(n, f)

    def step_of(self, phi):
        """the constant by which every iteration of its loop advances a counter, or None"""
        for k, v in self.H.E.induct.items():
            if k is phi or k.a[:3] == phi.a[:3] and self.same(k.a[-1], phi.a[-1]):
                return v.a[0] if isinstance(v, Node) else v
        return None

    def truth(self, cond):
        """True / False / None"""
        self._prep()
        k = known(self._st, cond)
        if k is not None:
            return k
        c = self.canon(cond)
        k = known(self._st, c)
        if k is not None:
            return k
        pol = True
        while c.op == "not":
            c, pol = c.a[0], not pol
        if c.op == "lt":
            k = self._linear(c)
            return None if k is None else k == pol
        return None

    def _linear(self, c):
        """a comparison that differs from a recorded one by moving terms across"""
        if self.__dict__.get("_lin") is None:
            self._lin = []
            for f, pol in self._st.facts:
                if f.op == "lt":
                    a, b = poly_dict(self.canon(f.a[0])), poly_dict(self.canon(f.a[1]))
                    # pol: b - a >= 1, else a - b >= 0
                    self._lin.append((padd(b, a, -1), 1) if pol else (padd(a, b, -1), 0))
        a, b = poly_dict(c.a[0]), poly_dict(c.a[1])
        for goal, least, res in ((padd(b, a, -1), 1, True), (padd(a, b, -1), 0, False)):
            for q, lo in self._lin:
                d = padd(goal, q, -1)
                if all(m == () for m in d) and d.get((), 0) + lo >= least:
                    return res
        return None

    def holds(self, cond):
        return self.truth(cond) is True

    def same(self, a, b):
        return self.canon(a) is self.canon(b)

    def fact_nodes(self):
        return [fact_node(f) for f in self.s.facts]

    # -- accounts
    def views(self):
        """every account view that occurs on this path"""
        out = {}
        for n in self.all_nodes():
            if n.op == "view":
                out[n] = 1
        return list(out)

    def all_nodes(self):
        seen = set()
        st = [f for f, _ in self.s.facts] + list(self.ev) + [self.ret]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            for c in x.a:
                if isinstance(c, Node):
                    st.append(c)

    # -- effects
    def flat(self):
        """events with loop bodies flattened: (event, loop keys)"""
        if self._flat is None:
            out = []

            def rec(es, ls):
                for e in es:
                    if e.a[0] == "loop":
                        for alt in e.a[2:]:
                            rec(alt.a, ls + (e.a[1],))
                    else:
                        out.append((e, ls))
            rec(self.ev, ())
            self._flat = out
        return self._flat

    def sets(self, cell=None, view=None):
        """[(cell, view, index or None, value, loops, fn, event)]"""
        out = []
        for e, ls in self.flat():
            if e.a[0] == "set":
                _, k, v, i, val, site, fn = e.a
                ks = short_cell(k)
                if (cell is None or ks == cell) and (view is None or v is view):
                    out.append((ks, v, None if i.op == "whole" else i, val, ls, fn, e))
        return out

    def final(self, cell, view=None):
        """the last whole value stored into the cell, or None"""
        r = None
        for x in self.sets(cell, view):
            if x[2] is None:
                r = x[3]
        return r

    def calls(self, rx):
        rx = re.compile(rx)
        return [(e.a[1], list(e.a[2].a), ls, e) for e, ls in self.flat() if e.a[0] == "call" and rx.search(e.a[1])]

    def invokes(self):
        """[(kind, instruction fields..., signer seeds or None, loops, event)]"""
        out = []
        for e, ls in self.flat():
            if e.a[0] != "invoke":
                continue
            args = e.a[2].a
            ins = args[0]
            if ins.op == "fld" and ins.a[1] == "0" and ins.a[0].op == "as":
                ins = ins.a[0].a[0]
            seeds = args[2] if len(args) > 2 else None
            nm = ins.a[0] if ins.op == "app" else "?"
            out.append((nm, ins, seeds, ls, e))
        return out

    def lamports(self):
        """net lamports change per account key: {key: polynomial}; raises Unclear when not closed-form"""
        cells = {}
        bad = []
        for e, ls in self.flat():
            if e.a[0] == "write":
                c = e.a[1]
                if c.op == "app" and c.a[0] == "lamports":
                    if ls:
                        bad.append(("lamports changed in a loop", e))
                    cells[c] = e.a[2]
                elif c.op != "bottom" and mentions_lamports(c):
                    bad.append(("lamports written through an unresolved reference", e))
        net = {}

        def put(k, d):
            k = self.canon(k)
            net[k] = padd(net.get(k, {}), d)
        for c, v in cells.items():
            base = app("bal", *c.a[1:])
            d = padd(poly_dict(self.canon(v)), poly_dict(self.canon(base)), -1)
            put(key(c.a[1]), d)
        for nm, ins, seeds, ls, e in self.invokes():
            if nm == "solana_program::system_instruction::transfer":
                a = ins.a[1:]
                if ls:
                    bad.append(("system transfer in a loop", e))
                v = poly_dict(self.canon(a[2]))
                put(a[0], padd({}, v, -1))
                put(a[1], v)
            elif nm == "solana_program::system_instruction::create_account":
                a = ins.a[1:]
                if ls:
                    bad.append(("account creation in a loop", e))
                v = poly_dict(self.canon(a[2]))
                put(a[0], padd({}, v, -1))
                put(a[1], v)
            elif nm == "spl_token::instruction::transfer" or nm.startswith("spl_associated_token_account::"):
                pass
            else:
                bad.append(("unknown cross-program instruction " + nm, e))
        return {k: poly_node(d) for k, d in net.items() if d}, bad

    def spl(self):
        """[(source key, destination key, authority key, amount, signer seeds, event)]"""
        out = []
        for nm, ins, seeds, ls, e in self.invokes():
            if nm.startswith("spl_token::instruction::"):
                a = ins.a[1:]
                if nm.endswith("::transfer") and len(a) == 6:
                    out.append((self.canon(a[1]), self.canon(a[2]), self.canon(a[3]), self.canon(a[5]), seeds, e))
                else:
                    out.append((None, None, None, ins, seeds, e))
        return out

    def tokens(self):
        net = {}
        for s, d, au, v, seeds, e in self.spl():
            if s is None:
                net[e] = e
                continue
            net[s] = padd(net.get(s, {}), poly_dict(v), -1)
            net[d] = padd(net.get(d, {}), poly_dict(v))
        return {k: poly_node(v) if isinstance(v, dict) else v for k, v in net.items() if v}

    def site(self):
        for e in reversed(self.ev):
            for x in e.a:
                if isinstance(x, str) and re.match(r".*\.rs:\d+$", x):
                    return x
        return self.H.fn["span"]

    def describe(self, n=6):
        """the branch decisions that select this exit, for reports"""
        out = []
        for (f, p) in sorted(self.s.facts, key=lambda t: t[0].id):
            if f.op in ("is", "eq", "lt") or f.op in ("fld", "get", "sym"):
                out.append(("" if p else "!") + show(f, 8)[:100])
        return "; ".join(out[-n:])


WIDTH = {"trunc_u8": 8, "trunc_u16": 16, "trunc_u32": 32, "trunc_u64": 64}


def narrow(n, st, memo=None):
    """drop conversions to a narrower type that are known not to change the value"""
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    ch = [narrow(c, st, memo) if isinstance(c, Node) else c for c in n.a]
    r = N(n.op, *ch) if any(x is not y for x, y in zip(ch, n.a)) else n
    if r.op == "app" and r.a[0] in WIDTH and len(r.a) == 2:
        if known(st, mk_lt(Int((1 << WIDTH[r.a[0]]) - 1), r.a[1])) is False or known(st, mk_lt(r.a[1], Int(1 << WIDTH[r.a[0]]))) is True:
            r = r.a[1]
    memo[n] = r
    return r


def mentions_lamports(n):
    return any(x.op == "app" and x.a[0] in ("lamports", "bal", "lamref") for x in walk(n))


def short_cell(k):
    T, f = k.rsplit(".", 1)
    return T.split("::")[-1] + "." + f


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obligations = 0
        self.discharged = 0
        self.viol = {}
        self.rules = {}
        self.samples = []
        self.analysed = {}
        self.assumptions = []

    def need(self, cond, rule, where, what, loc="", detail=""):
        """one obligation: `cond` must be true"""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            self.discharged += 1
            if len(self.samples) < 12 and (self.rules[rule] == 1):
                self.samples.append("%s | %s | %s" % (rule, where, what))
            return True
        k = "%s|%s|%s" % (rule, where, what)
        if k not in self.viol:
            self.viol[k] = {"rule": rule, "where": where, "what": what, "loc": loc, "detail": detail}
        return False

    def absorb(self, d):
        self.obligations += d["obligations"]
        self.discharged += d["discharged"]
        for k, v in d["rules"].items():
            self.rules[k] = self.rules.get(k, 0) + v
        for k, v in d["analysed"].items():
            self.analysed[k] = self.analysed.get(k, 0) + v
        for k, v in d["viol"].items():
            self.viol.setdefault(k, v)
        have = set(x.split(" | ")[0] for x in self.samples)
        for x in d["samples"]:
            if len(self.samples) < 12 and x.split(" | ")[0] not in have:
                have.add(x.split(" | ")[0])
                self.samples.append(x)
        self.assumptions += d["assumptions"]

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def floor(self, name, n):
        have = self.analysed.get(name, 0)
        self.need(have >= n, "coverage", name, "at least %d instances analysed" % n, "", "found %d" % have)
