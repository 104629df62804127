"""Representation of values and records as bytes."""
from .lib import *
from ..engine import fact_node
from ..models_more import elems as known_elems
from .. import proj
from ..models import fork
from ..engine import update, TRUE
from .pairing import linear

SER, DE, TFS, WALL = "borsh::BorshSerialize::serialize", "borsh::BorshDeserialize::deserialize", "borsh::BorshDeserialize::try_from_slice", "std::io::Write::write_all"
VEC = "borsh::BorshSerialize::try_to_vec"
PRIM = {"u8": 1, "bool": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16}
FOREIGN = {"solana_program::pubkey::Pubkey": 32, "()": 0, "std::net::Ipv4Addr": 4}


class Misread(AnalysisError):
    pass


def generic(t):
    """name and arguments of a generic type"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return t, []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return t[:i].rstrip(":"), out


def array_of(t):
    m = re.match(r"^\[(.*); (\d+)\]$", t)
    return (m.group(1), int(m.group(2))) if m else None


class Codec:
    """what the serialisers write, byte by byte, and what the deserialisers make of it"""

    def __init__(self, W):
        self.W, self.P = W, W.P
        self.ser, self.de = {}, {}
        for f in sorted(self.P.fns.values(), key=lambda f: f["inst"]):
            m = re.match(r"^<(.*) as borsh::Borsh(Ser|Deser)ialize>::(serialize::<.*>|deserialize)$", f["inst"])
            if m:
                t = self.ser if m.group(2) == "Ser" else self.de
                if self.local(m.group(1)) not in t or m.group(3).endswith("<&mut [u8]>"):
                    t[self.local(m.group(1))] = f
        self.sizes = {}
        self.inline = False

    def local(self, t):
        """type names as the program prints them"""
        t = re.sub(r"(?<![\w:])(crate::)", "", t)
        t = re.sub(r"; ([A-Z][A-Z0-9_]*)\]", self.length, t)
        return re.sub(r"(?<![\w:])%s::" % self.W.crate, "", t)

    def length(self, m):
        v = {c[1] for k, c in self.W.const.items() if k.split("::")[-1] == m.group(1) and c[0] == "int" and not k.startswith("<")}
        return "; %s]" % v.pop() if len(v) == 1 else m.group(0)

    def adt(self, t):
        b = generic(t)[0]
        for n in (b, self.W.crate + "::" + b):
            if n in self.P.adts:
                return n
        return None

    def declared(self, t):
        """the declared encoded size"""
        for k, v in self.W.const.items():
            m = re.match(r"^<(.*) as elusiv_types::BorshSerDeSized>::SIZE$", k)
            if m and self.local(m.group(1)) == t:
                return int(v[1])
        return None

    def size(self, t):
        """encoded size as declared or, without a declaration in this program, as its parts add up; None if it varies"""
        t = self.local(t)
        if t in self.sizes:
            return self.sizes[t]
        r = None
        a = array_of(t)
        g, ar = generic(t)
        if t in PRIM:
            r = PRIM[t]
        elif t in FOREIGN:
            r = FOREIGN[t]
        elif a:
            e = self.size(a[0])
            r = None if e is None else e * a[1]
        elif self.declared(t) is not None:
            r = self.declared(t)
        elif g.endswith("ElusivOption"):
            e = self.size(ar[0])
            r = None if e is None else 1 + e
        elif self.declared(t) is None and t in self.ser and not self.adt(t) is None and ar:
            self.sizes[t] = None
            w = self.written(self.engine(), self.ser[t], N("sym", "value"))
            n = {len(b) if not any(y.op == "block" for y in b) else None for _, _, b in w}
            r = n.pop() if len(n) == 1 else None
        elif self.adt(t) and not ar and self.P.adts[self.adt(t)]["kind"] == "Struct":
            fs = [self.size(f[1]) for f in self.P.adts[self.adt(t)]["variants"][0][2]]
            r = None if any(x is None for x in fs) else sum(fs)
        self.sizes[t] = r
        return r

    # -- bytes of a value
    def enc(self, t, v):
        t = self.local(t)
        a = array_of(t)
        if t in ("u8", "bool"):
            return [v]
        if t in PRIM:
            if v.op == "int":
                return [Int(v.a[0] >> (8 * i) & 255) for i in range(PRIM[t])]
            return [mk_idx(N("le", t, v), Int(i)) for i in range(PRIM[t])]
        if a and a[0] == "u8":
            return [mk_idx(v, Int(i)) for i in range(a[1])]
        if a:
            return [y for i in range(a[1]) for y in self.enc(a[0], mk_idx(v, Int(i)))]
        n = self.size(t)
        if t not in self.de and t not in self.ser and self.declared(t) is None and t not in FOREIGN:
            d = self.P.adts.get(generic(t)[0])
            if d is not None and d["kind"] == "Struct":
                return self.encode(t, v)[0][1]
        if n is None:
            return [N("block", t, v)]
        return [N("byte", t, v, i) for i in range(n)]

    def dec(self, t, b):
        """(value, number of elements read)"""
        t = self.local(t)
        a = array_of(t)
        if t in PRIM:
            n = PRIM[t]
            x = b[:n]
            if len(x) < n or any(y.op in ("byte", "block") for y in x):
                raise Misread("%s read where %s begins" % (t, [nice(y) for y in x[:1]]))
            return self.whole(t, x), n
        if a and a[0] == "u8":
            x = b[:a[1]]
            if len(x) < a[1] or any(y.op in ("byte", "block") for y in x):
                raise Misread("%s read where %s begins" % (t, [nice(y) for y in x[:1]]))
            return gather(x), a[1]
        if a:
            k, out = 0, []
            for i in range(a[1]):
                v, n = self.dec(a[0], b[k:])
                out.append(v)
                k += n
            return gather(out), k
        n = self.size(t)
        if n == 0:
            return UNIT, 0
        if not b:
            raise Misread("nothing left for " + t)
        h = b[0]
        if n is None:
            if h.op == "block" and h.a[0] == t:
                return h.a[1], 1
        elif h.op == "byte" and h.a[0] == t and h.a[2] == 0 and all(b[i] is N("byte", t, h.a[1], i) for i in range(n)):
            return h.a[1], n
        raise Misread("%s read where %s begins" % (t, nice(h)))

    def whole(self, t, x):
        if len(x) == 1:
            return x[0].a[1] if x[0].op == "le" and x[0].a[0] == t else x[0]
        if all(y.op == "int" for y in x):
            return Int(sum(y.a[0] << (8 * i) for i, y in enumerate(x)))
        h = x[0]
        if h.op == "le":
            h = mk_idx(h, Int(0))
        if h.op == "idx" and h.a[0].op == "le" and h.a[0].a[0] == t and all(y is mk_idx(h.a[0], Int(i)) for i, y in enumerate(x)):
            return h.a[0].a[1]
        return app("from_le_" + t, N("arr", *x))

    # -- evaluation
    def elements(self, E, v):
        if v.op == "repeat" and v.a[1].op == "int":
            return [v.a[0]] * v.a[1].a[0]
        if v.op == "slice":
            b = self.elements(E, v.a[0])
            if b is None or v.a[1].op != "int" or v.a[2].op != "int":
                return None
            return b[v.a[1].a[0]:v.a[2].a[0]]
        if v.op == "le":
            return [mk_idx(v, Int(i)) for i in range(PRIM[v.a[0]])]
        if v.op == "bytes":
            return [Int(x) for x in bytes.fromhex(v.a[0])]
        return known_elems(E, v)

    def nested(self, t, table):
        return None if self.inline and table.get(self.local(t)) is not None else self.local(t)

    def intercept(self, E, s, c):
        if c.name in (SER, WALL):
            w = E.deep(s, c.args[1] if c.name == SER else c.args[0])
            while w.op == "out":
                w = w.a[0]
            if w is not N("sym", "writer"):
                return None
            v = E.deep(s, c.args[0] if c.name == SER else c.args[1])
            if c.name == WALL:
                b = self.elements(E, v)
                if b is None:
                    raise Misread("bytes of unknown number written: " + nice(v))
            else:
                if self.nested(c.gargs[0], self.ser) is None:
                    return None
                b = self.enc(c.gargs[0], v)
            s = s.copy()
            s.emit("wrote", N("arr", *b))
            return [(s, N("adt", "std::result::Result", "Ok", UNIT))]
        if c.name == VEC and self.inline and c.gargs and self.local(c.gargs[0]).startswith("fields::Wrap<"):
            out = []
            if self.local(c.gargs[0]) not in self.ser:
                s = s.copy()
                s.emit("assumed", app("format", self.local(c.gargs[0])))
                return [(s, N("adt", "std::result::Result", "Ok", N("arr", *self.encode(self.local(c.gargs[0]), E.deep(s, c.args[0]))[0][1])))]
            for s2, r, b in self.written(self.engine(), self.ser[self.local(c.gargs[0])], E.deep(s, c.args[0])):
                out.append((s, N("adt", "std::result::Result", "Ok", N("arr", *b))))
            if len(out) == 1:
                return out
        if c.name in (DE, TFS):
            if c.name == DE and self.nested(c.gargs[0], self.de) is None:
                return None
            src = E.deep(s, c.args[0])
            b = self.elements(E, src)
            if b is None:
                return None
            v, n = self.dec(c.gargs[0], b)
            s = s.copy()
            if c.name == DE:
                loc = E.loc_of(c.args[0])
                E.write_quiet(s, loc, N("arr", *b[n:]))
            elif n != len(b):
                return [(s, N("adt", "std::result::Result", "Err", N("sym", "not all bytes read")))]
            return [(s, N("adt", "std::result::Result", "Ok", v))]
        return None

    def engine(self):
        return proj.engine(self.P, opaque=[], pure=[], opts={"intercept": self.intercept, "unroll_all": True, "accessors": False})

    def written(self, E, f, x):
        """[(state, bytes)] of each way to serialise x"""
        res = E.exec_fn(State({("l", "host", 0): x, ("l", "host", 1): N("sym", "writer")}), f, [N("ref", "host", 0, ()), N("ref", "host", 1, ())], E.frame("ser", 0))
        out = []
        for s, r in res:
            b = []
            for e in evlist(s.ev, None):
                if e.a[0] == "wrote":
                    b += e.a[1].a
                elif e.a[0] in ("loop", "call"):
                    raise Misread("writes of unknown number")
            out.append((s, r, b))
        return out

    def encode(self, t, x):
        """[(value, bytes)] as the format prescribes, for types that are only read"""
        g, ar = generic(t)
        a = self.P.adts.get(self.adt(t) or g)
        if a is None:
            raise Misread("unknown type " + t)
        sub = ar[0] if len(ar) == 1 else None
        if a["kind"] == "Struct":
            return [(x, self.fields(a["variants"][0], x, sub))]
        return [(mk_as(x, v[0]), [Int(i)] + self.fields(v, mk_as(x, v[0]), sub)) for i, v in enumerate(a["variants"])]

    def fields(self, var, x, sub):
        b = []
        for i, f in enumerate(var[2]):
            if "PhantomData" in f[1]:
                continue
            t = sub if re.match(r"^[A-Z]$", f[1]) and sub else f[1]
            y = mk_fld(x, i, f[0])
            if self.inline and self.local(t) in self.ser:
                w = self.written(self.engine(), self.ser[self.local(t)], y)
                if len(w) != 1:
                    raise Misread("several representations of " + t)
                b += w[0][2]
            else:
                b += self.enc(t, y)
        return b

    # -- values put together again
    def same(self, v, x, s):
        """v is the value x, in state s"""
        v, x = self.tidy(v), x
        if v is x:
            return True
        if v.op == "arr":
            return all(self.same(y, mk_idx(x, Int(i)), s) for i, y in enumerate(v.a))
        if v.op != "adt" or v.a[0] not in self.P.adts:
            return False
        for var in self.P.adts[v.a[0]]["variants"]:
            if v.a[1] not in (None, var[0]):
                continue
            b = x
            if v.a[1] is not None and not (x.op == "as" and x.a[1] == var[0]):
                t = mk_is(x, var[0])
                if not any(fact_node(f) is t for f in s.facts) and t is not TRUE:
                    return False
                b = mk_as(x, var[0])
            k = 0
            for i, f in enumerate(var[2]):
                if "PhantomData" in f[1]:
                    if len(v.a) - 2 == len(var[2]):
                        k += 1
                    continue
                if k + 2 >= len(v.a) or not self.same(v.a[k + 2], mk_fld(b, i, f[0]), s):
                    return False
                k += 1
            return True
        return False

    def tidy(self, r):
        if r.op == "arr" and r.a:
            r = gather([self.tidy(y) for y in r.a])
        if r.op == "app" and str(r.a[0]).startswith("from_le_") and len(r.a) == 2:
            a = self.tidy(r.a[1])
            r = self.whole(r.a[0][8:], list(a.a) if a.op == "arr" else [a])
        elif r.op == "app":
            m = re.match(r"^(ark_ff|ark_ec)::(?:.*::)?(\w+?)(?:::<.*>)?::new$", str(r.a[0]))
            if m:
                n = [k for k in self.P.adts if k.startswith(m.group(1)) and k.endswith("::" + m.group(2))]
                if len(n) == 1:
                    r = N("adt", n[0], None, *r.a[1:])
        return r


def empty(n):
    return n.op == "adt" and "PhantomData" in str(n.a[0]) or n.op == "const" and "Phantom" in str(n.a[0])


def gather(x):
    """an array made of all elements of another, in order"""
    x = list(x)
    if x and x[0].op == "idx" and x[0].a[1] is Int(0) and all(y is mk_idx(x[0].a[0], Int(i)) for i, y in enumerate(x)):
        return x[0].a[0]
    return N("arr", *x)


# ---------------------------------------------------------------------------
# S03: values as bytes

def round_trip(C, t):
    """problems of the type's representation, number of representations, bytes written"""
    x = N("sym", "value")
    E = C.engine()
    if t in C.ser:
        ways = []
        for s, r, b in C.written(E, C.ser[t], x):
            if r.op == "adt" and r.a[1] == "Ok":
                ways.append((x, s, b))
            elif "Err" in str(r)[:4]:
                return ["some values cannot be written"], 0, None
    else:
        ways = [(v, None, b) for v, b in C.encode(t, x)]
    out, sizes = [], set()
    for v0, s, b in ways:
        fixed = not any(y.op == "block" for y in b)
        sizes.add(len(b) if fixed else None)
        if t not in C.de:
            continue
        rest = [N("sym", "rest%d" % i) for i in range(3)]
        st = State({("l", "host", 0): N("arr", *(list(b) + rest))}, s.facts if s is not None else frozenset())
        res = E.exec_fn(st, C.de[t], [N("ref", "host", 0, ())], E.frame("de", 0))
        if not res:
            out.append("reading back what was written fails")
        for s2, r in res:
            if not (r.op == "adt" and r.a[1] == "Ok"):
                out.append("reading back what was written fails")
                continue
            if not C.same(r.a[2], v0, s2):
                out.append("another value is read back than was written")
            if C.elements(E, E.deep(s2, s2.st[("l", "host", 0)])) != rest:
                out.append("not exactly the bytes written are read")
    return sorted(set(out)), len(ways), sizes


def trip_job(C, t):
    def job(R):
        p, n, sizes = ["not analysed"], 0, None
        for C.inline in (False, True):
            try:
                p, n, sizes = round_trip(C, t)
            except Misread as e:
                p = [str(e)]
            if not p:
                break
        C.inline = False
        f = C.de.get(t) or C.ser.get(t)
        at = f["span"] if isinstance(f.get("span"), str) else ""
        short = re.sub(r"\w+::", "", t)
        for what in ("reading back what was written fails", "another value is read back than was written", "not exactly the bytes written are read", "some values cannot be written"):
            R.need(what not in p, "S03/round-trip", short, "never: " + what, at)
            if what in p:
                p.remove(what)
        R.need(not p, "S03/round-trip", short, "what is written is read back piece by piece", at, "; ".join(p)[:300])
        R.count("types")
        R.count("representations", n)
        d = C.declared(t)
        if d is not None and sizes is not None and None not in sizes:
            R.count("declared sizes")
            # a value with alternatives of different length is kept in a place for the longest
            R.need(max(sizes) == d if t not in MAXIMUM else max(sizes) <= d, "S03/size", short, "the representation has the size declared for it", at, "%s bytes written, %d declared" % (sorted(sizes), d))
    return job


MAXIMUM = set()


@prop("S03", ("elusiv", "warden"), "every encoder and decoder of both programs, on a symbolic value, byte by byte")
def s03(R, We, Ww):
    """Every encoder is run on a symbolic value and its decoder on the bytes written: the same value comes back on every path, exactly the bytes written are consumed, nothing fails, and the number of bytes is the declared size. Types that are only read are written as the format prescribes."""
    for W in (We, Ww):
        C = Codec(W)
        parallel(R, [(t, trip_job(C, t)) for t in sorted(set(C.ser) | set(C.de))])
    R.assumptions.append("the representation of integers, byte arrays, vectors and strings is the serialisation library's")
    R.floor("types", 60)
    R.floor("declared sizes", 38)


# ---------------------------------------------------------------------------
# S02: fields of records

BYTES = N("sym", "bytes")


def place_hook(E, s, c):
    """reads and writes of typed values, with the bytes they are from or for"""
    if c.name in (DE, TFS) and c.name == TFS:
        n = N("app", "read<%s>" % c.gargs[0], E.deep(s, c.args[0]))
        return [(x, N("adt", "std::result::Result", "Ok", mk_fld(mk_as(n, "Ok"), 0, "0")) if b else N("adt", "std::result::Result", "Err", N("sym", "unreadable"))) for x, b in fork(s, N("is", n, "Ok"))]
    if c.name == SER:
        w = E.deep(s, c.args[1])
        while w.op == "out":
            w = w.a[0]
        s = s.copy()
        s.emit("wrote", c.gargs[0], E.deep(s, c.args[0]), w)
        return [(s, N("adt", "std::result::Result", "Ok", UNIT))]
    return None


def record_engine(W):
    return proj.engine(W.P, opaque=[], pure=[], opts={"intercept": place_hook, "unroll_all": True, "accessors": False})


def read_of(x):
    """(type, bytes) x is read from"""
    if x.op == "fld" and x.a[0].op == "as" and x.a[0].a[0].op == "app" and str(x.a[0].a[0].a[0]).startswith("read<"):
        n = x.a[0].a[0]
        return n.a[0][5:-1], n.a[1]
    return None


def span_of(d, whole=None):
    """(start, end) of a piece of the record, whole or as part of a part"""
    if d.op == "slice":
        b = span_of(d.a[0], whole)
        if b is None:
            return None
        return add(b[0], d.a[1]), add(b[0], d.a[2])
    if d is BYTES:
        return Int(0), whole
    return None


def sub_lin(a, b):
    r = dict(linear(a))
    for m, c in linear(b).items():
        r[m] = r.get(m, 0) - c
    return {m: c for m, c in r.items() if c}


def number(a):
    l = linear(a)
    return l.get((), 0) if set(l) <= {()} else None


def record_job(W, C, f, T):
    def job(R):
        short = T.split("::")[-1]
        size = W.acct_size.get(short)
        at = f["span"]
        R.count("records")
        E = record_engine(W)
        res = E.exec_fn(State({}), f, [BYTES], E.frame("new", 0))
        obj = None
        whole = None
        for s, r in res:
            ln = [x for x in (fact_node(y) for y in s.facts)]
            exact = any(x.op == "eq" and Int(size) in x.a and any(y.op == "len" and y.a[0] is BYTES or y.op == "app" and y.a[0] == "len" and y.a[1] is BYTES for y in x.a) for x in ln)
            if r.op == "adt" and r.a[1] == "Ok":
                R.need(exact, "S02/exact", short, "only an account of exactly the record's size is read as the record", at, "; ".join(nice(x) for x in ln)[:300])
                if obj is not None:
                    R.need(obj is r.a[2], "S02/fields", short, "a record has one division into fields", at)
                obj = r.a[2]
        if not R.need(obj is not None and obj.op == "adt", "S02/fields", short, "the record can be read", at):
            return
        names = [x[0] for x in W.P.adts[T]["variants"][0][2]]
        types = {x[0]: x[1] for x in W.P.adts[T]["variants"][0][2]}
        ranges = []
        place = {}
        for nm, v in zip(names, obj.a[2:]):
            sl = [x for x in walk(v) if x.op == "slice"]
            sp = {span_of(x) for x in sl}
            if nm == "child_accounts" and not sl:
                continue
            ok = len(sp) == 1 and None not in sp
            b = None
            if ok:
                a = sp.pop()
                b = number(a[0]), number(a[1])
                ok = None not in b
            if R.need(ok, "S02/fields", short, "each field has one place of fixed size", at, "%s: %s" % (nm, nice(v)[:200])):
                ranges.append((b, nm))
                place[nm] = b
                R.count("fields")
        ranges.sort()
        end = 0
        for (a, b), nm in ranges:
            R.need(a == end and b >= a, "S02/disjoint", short, "the fields' places adjoin and do not overlap", at, "%s at %d..%d, previous field ends at %d" % (nm, a, b, end))
            end = b
        R.need(end == size, "S02/disjoint", short, "the fields fill the record", at, "%s of %s" % (end, size))
        for nm in place:
            n = held_size(C, types[nm])
            if n is not None:
                R.count("typed places")
                R.need(place[nm][1] - place[nm][0] == n, "S02/size", short, "a field's place has the size of what it holds", at, "%s: %d bytes for %s" % (nm, place[nm][1] - place[nm][0], types[nm]))
        # getters and setters
        plain = proj.engine(W.P)
        kinds = {}
        for g in W.P.fns.values():
            acc = plain.accessor(g)
            if not acc or acc[1] != T:
                continue
            kind, _, nm = acc
            R.count("accessors")
            E = record_engine(W)
            me = N("ref", "host", 0, ())
            idx, val = N("sym", "index"), N("sym", "value")
            indexed = g["nargs"] == (2 if kind == "get" else 3)
            args = [me] + ([idx] if indexed else []) + ([val] if kind == "set" else [])
            res = E.exec_fn(State({("l", "host", 0): obj}), g, args, E.frame("x", 0))
            lo, hi = place.get(nm, (None, None))
            w = "%s of %s" % (kind, short)
            if not R.need(res and lo is not None, "S02/access", w, "the field can be read and written", g["span"], nm):
                continue
            for s, r in res:
                wrote = [e for e in evlist(s.ev, None) if e.a[0] == "wrote"]
                other = [e for e in evlist(s.ev, None) if e.a[0] in ("write", "set", "copy_into", "call", "loop", "invoke")]
                if kind == "get":
                    x = read_of(r)
                    ok = x is not None and not wrote
                    ty, src = x if x else (None, None)
                else:
                    ok = len(wrote) == 1 and wrote[0].a[2] is val
                    ty, src = (wrote[0].a[1], wrote[0].a[3]) if wrote else (None, None)
                if not R.need(ok and not other, "S02/access", w, "one value is read, or the given value written, and nothing else happens", g["span"], "%s: %s" % (nm, nice(r)[:200])):
                    continue
                S = C.size(ty)
                sp = span_of(src)
                if not R.need(S is not None and sp is not None, "S02/access", w, "the value is read from or written to a part of the record", g["span"], "%s: %s in %s" % (nm, ty, nice(src)[:200])):
                    continue
                first = add(Int(lo), mul(idx, Int(S))) if indexed else Int(lo)
                good = not sub_lin(sp[0], first) and not sub_lin(sp[1], add(first, Int(S)))
                R.need(good, "S02/place", w, "the value's bytes are those of its field" + (" and index" if indexed else ""), g["span"], "%s: %s, field at %d..%d" % (nm, nice(src), lo, hi))
                R.need((hi - lo) % S == 0 if indexed and S else hi - lo == S, "S02/place", w, "the field holds a whole number of values", g["span"], "%s: %d bytes for values of %s" % (nm, hi - lo, S))
                kinds.setdefault((nm, indexed), {})[kind] = C.local(ty)
        for (nm, ix), k in kinds.items():
            R.need(len(set(k.values())) == 1, "S02/type", short, "a field is read as what it was written as", at, "%s: %s" % (nm, k))
    return job


def held_size(C, t):
    """bytes of a field that reads itself"""
    g, ar = generic(C.local(t))
    ar = [x for x in ar if not x.startswith("'")]
    k = g.split("::")[-1]
    if k == "Lazy":
        return C.size(ar[0])
    if k in ("JITArray", "LazyArray"):
        n = re.sub(r"_?usize$", "", ar[1])
        e = C.size(ar[0])
        return e * int(n) if e is not None and n.isdigit() else None
    return None


def array_job(W, C, f, kind, elem, n, what):
    """containers that read and write their elements themselves"""
    def job(R):
        short = "%s of %s" % (kind, elem.split("::")[-1])
        adt = [x for x in W.P.adts if x.split("::")[-1] == kind][0]
        names = [x[0] for x in W.P.adts[adt]["variants"][0][2]]
        S = C.size(elem)
        idx, val, old = N("sym", "index"), N("sym", "value"), N("sym", "values set before")
        R.count("container operations")
        E = record_engine(W)
        if what == "new":
            for s, r in E.exec_fn(State({}), f, [BYTES], E.frame("x", 0)):
                v = mk_fld(r, names.index("data"), "data")
                fresh = "values" not in names or all(y.op == "adt" and y.a[1] == "None" for y in (known_elems(E, mk_fld(r, names.index("values"), "values")) or [UNIT]))
                R.need(v is BYTES and fresh, "S02/container", short, "a container starts with nothing read from all of its bytes", f["span"], nice(r)[:200])
            return
        part = {"data": BYTES, "modified": N("sym", "modified"), "values": old, "phantom": UNIT}
        me = N("adt", adt, None, *[part[x] for x in names])
        R.need(set(names) <= set(part), "S02/container", short, "the container's parts are known", f["span"])
        args = {"get": [idx], "set": [idx, val], "serialize": []}[what]
        res = E.exec_fn(State({("l", "host", 0): me}), f, [N("ref", "host", 0, ())] + args, E.frame("x", 0))
        R.need(bool(res), "S02/container", short, "the container can be used", f["span"], what)
        for s, r in res:
            wrote = [e for e in evlist(s.ev, None) if e.a[0] == "wrote"]
            if what == "get":
                x = read_of(r)
                if x is None:
                    e = mk_fld(mk_as(mk_idx(old, idx), "Some"), 0, "0")
                    R.need("values" in names and r is e, "S02/container", short, "an element read is the one stored at its index", f["span"], nice(r)[:200])
                    continue
                sp = span_of(x[1])
                R.need(sp is not None and C.local(x[0]) == elem and not sub_lin(sp[0], mul(idx, Int(S))) and not sub_lin(sp[1], mul(add(idx, Int(1)), Int(S))), "S02/container", short, "an element is read from its own bytes", f["span"], nice(x[1])[:200])
                if "values" in names:
                    now = mk_fld(s.st[("l", "host", 0)], names.index("values"), "values")
                    R.need(now is update(old, (("i", idx),), N("adt", "std::option::Option", "Some", r)), "S02/container", short, "an element read is remembered at its index only", f["span"], nice(now)[:200])
            elif what == "set" and "values" not in names:
                sp = span_of(wrote[0].a[3]) if len(wrote) == 1 else None
                R.need(sp is not None and wrote[0].a[2] is val and C.local(wrote[0].a[1]) == elem and not sub_lin(sp[0], mul(idx, Int(S))) and not sub_lin(sp[1], mul(add(idx, Int(1)), Int(S))), "S02/container", short, "an element is written to its own bytes", f["span"], nice(wrote[0].a[3])[:200] if wrote else "not written")
    return job


def lazy_array_job(W, C, fs, elem, n):
    """remembered elements are all written, each to its own bytes"""
    def job(R):
        short = "LazyArray of %s" % elem.split("::")[-1]
        adt = [x for x in W.P.adts if x.split("::")[-1] == "LazyArray"][0]
        names = [x[0] for x in W.P.adts[adt]["variants"][0][2]]
        S = C.size(elem)
        f = fs["serialize"]
        R.count("container operations")
        vals = [N("sym", "v%d" % i) for i in range(n)]
        for pattern in ("all", "none", "even"):
            hold = [v if pattern == "all" or pattern == "even" and i % 2 == 0 else None for i, v in enumerate(vals)]
            arr = N("arr", *[N("adt", "std::option::Option", "None") if v is None else N("adt", "std::option::Option", "Some", v) for v in hold])
            part = {"data": BYTES, "modified": TRUE, "values": arr}
            E = record_engine(W)
            me = N("adt", adt, None, *[part[x] for x in names])
            res = E.exec_fn(State({("l", "host", 0): me}), f, [N("ref", "host", 0, ())], E.frame("x", 0))
            R.need(len(res) == 1, "S02/container", short, "changed elements are written in one way", f["span"])
            for s, r in res:
                got = {}
                for e in evlist(s.ev, None):
                    if e.a[0] == "wrote":
                        sp = span_of(e.a[3])
                        got[(number(sp[0]), number(sp[1])) if sp else None] = e.a[2]
                want = {(i * S, (i + 1) * S): v for i, v in enumerate(hold) if v is not None}
                R.need(got == want, "S02/container", short, "each changed element is written to its own bytes", f["span"], "%s" % sorted(str(k) for k in set(got) ^ set(want))[:4])
        # setting
        f = fs["set"]
        idx, val, old = N("sym", "index"), N("sym", "value"), N("sym", "values set before")
        E = proj.engine(W.P, opaque=[r"LazyField.*>::serialize$"], pure=[], opts={"accessors": False})
        part = {"data": BYTES, "modified": N("sym", "modified"), "values": old}
        me = N("adt", adt, None, *[part[x] for x in names])
        res = E.exec_fn(State({("l", "host", 0): me}), f, [N("ref", "host", 0, ()), idx, val], E.frame("x", 0))
        R.need(bool(res), "S02/container", short, "an element can be set", f["span"])
        for s, r in res:
            called = [e for e in evlist(s.ev, None) if e.a[0] == "call" and "serialize" in str(e.a[1])]
            want = update(old, (("i", idx),), N("adt", "std::option::Option", "Some", val))
            before = any(y is want for e in called for y in walk(e))
            R.need(len(called) == 1 and before, "S02/container", short, "a set element is remembered at its index and written", f["span"], nice(s.st[("l", "host", 0)])[:300])
            flag = [y for e in called for y in walk(e) if y.op == "adt" and y.a[0] == adt]
            R.need(any(mk_fld(y, names.index("modified"), "modified") in (TRUE, Int(1)) for y in flag), "S02/container", short, "setting marks the elements as changed", f["span"])
    return job


@prop("S02", ("elusiv", "warden"), "the division of every record into fields and the bytes each getter, setter and container operation touches")
def s02(R, We, Ww):
    """Reading an account as a record is analysed on symbolic bytes: it needs exactly the record's size, and the fields' places adjoin and fill the record. Every generated getter and setter, which all other checks take at its word, is analysed from its own code: it reads or writes one value of one type in exactly its field's bytes, at its index (compared as linear expressions, so for all indices); so are the containers that read their elements one by one."""
    for W in (We, Ww):
        C = Codec(W)
        jobs = []
        arrays = {}
        for f in W.P.fns.values():
            m = re.match(r"^<(.*) as elusiv_types::ProgramAccount(<.*>)?>::new$", f["inst"])
            if m:
                T = generic(m.group(1))[0]
                jobs.append((T, record_job(W, C, f, T)))
            m = re.search(r"types::(JITArray|LazyArray)(?:::)?<'_, (.*), (\d+)>(?: as .*)?(?:>)?::(new|get|set|serialize)$", f["inst"])
            if m and (m.group(1), m.group(4)) != ("JITArray", "serialize"):
                kind, elem, n, what = m.group(1), C.local(m.group(2)), int(m.group(3)), m.group(4)
                arrays.setdefault((kind, elem, n), {})[what] = f
                if not (kind == "LazyArray" and what in ("set", "serialize")):
                    jobs.append((kind + what, array_job(W, C, f, kind, elem, n, what)))
        for (kind, elem, n), fs in arrays.items():
            if kind == "LazyArray" and "set" in fs and "serialize" in fs:
                jobs.append((kind, lazy_array_job(W, C, fs, elem, n)))
        parallel(R, jobs)
    R.floor("records", 29)
    R.floor("fields", 120)
    R.floor("accessors", 150)
