"""Library semantics used by the engine: Option/Result plumbing, iterators, slices,
account infos.  A model takes (engine, state, call) and returns [(state, value)]."""
from .engine import *
from .engine import mk_and, mk_or, mk_not, mk_eq, mk_lt, mk_is, mk_as, mk_fld, mk_idx, mk_bin

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def split(E, s, x, good):
    """[(state, ok?, payload)] for an Option/Result value"""
    bad = {"Some": "None", "Ok": "Err", "Continue": "Break"}[good]
    if x.op == "adt":
        return [(s, x.a[1] == good, x.a[2] if len(x.a) > 2 else UNIT)]
    out = []
    a = s.copy()
    if assume(a, mk_is(x, good), True):
        out.append((a, True, mk_fld(mk_as(x, good), 0, "0")))
    b = s.copy()
    if assume(b, mk_is(x, good), False):
        out.append((b, False, mk_fld(mk_as(x, bad), 0, "0") if bad == "Err" else UNIT))
    return out


def good_of(ty):
    t = ty.split("<")[0]
    return "Some" if t.endswith("Option") else "Ok"


@model("std::ops::Try::branch")
def m_branch(E, s, c):
    x = c.args[0]
    g = good_of(c.gargs[0]) if c.gargs else "Ok"
    out = []
    for st, ok, p in split(E, s, x, g):
        if ok:
            out.append((st, N("adt", "std::ops::ControlFlow", "Continue", p)))
        else:
            out.append((st, N("adt", "std::ops::ControlFlow", "Break", ERR(p) if g == "Ok" else NONE)))
    return out


@model("std::ops::FromResidual::from_residual")
def m_from_residual(E, s, c):
    return [(s, c.args[0])]


def ident(E, s, c):
    return [(s, c.args[0])]


for n in ["std::hint::must_use", "std::convert::From::from_", "std::iter::IntoIterator::into_iter_"]:
    MODELS[n] = ident


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec",
       "core::slice::<impl [T]>::to_vec", "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied")
def m_clone(E, s, c):
    return [(s, E.deep(s, c.args[0]))]


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::borrow::Borrow::borrow",
       "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::array::<impl [T; N]>::as_slice",
       "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
       "std::cell::RefCell::<T>::borrow", "std::cell::RefCell::<T>::borrow_mut", "std::rc::Rc::<T>::clone")
def m_deref(E, s, c):
    a = c.args[0]
    if c.fid is not None:
        return None
    if a.op == "fld" and a.a[1] == "lamports":
        return [(s, app("lamref", a.a[0]))]
    # a guard (RefMut/Ref/Box/Vec) stands for the reference/collection it wraps
    if a.op == "ref" and c.name in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
        self_ty = c.gargs[0] if c.gargs else ""
        if self_ty.startswith(("std::cell::Ref", "std::rc::Rc", "std::boxed::Box")):
            return [(s, E.read(s, E.loc_of(a)))] if not self_ty.startswith("std::boxed") or E.read(s, E.loc_of(a)).op == "ref" else [(s, a)]
    return [(s, a)]


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(E, s, c):
    a = c.args[0]
    g = [x for x in c.gargs]
    if c.fid is not None:
        return None
    src = dst = ""
    if c.name.endswith("into") and len(g) >= 2:
        src, dst = g[0], g[1]
    elif len(g) >= 2:
        dst, src = g[0], g[1]
    if src in INTBITS and dst in INTBITS:
        return [(s, E.cast(a, dst, src))]
    if "Error" in src or "Error" in dst:
        return [(s, a)]
    if src == dst:
        return [(s, a)]
    return [(s, app("into<%s>" % dst, E.deep(s, a)))]


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_tryinto(E, s, c):
    a = E.deep(s, c.args[0])
    g = c.gargs
    if c.fid is not None:
        return None
    src, dst = (g[0], g[1]) if c.name.endswith("into") else (g[1], g[0])
    if a.op == "int" and dst in INTBITS:
        return [(s, OK(a) if wrap(a.a[0], dst) == a.a[0] else ERR(N("adt", "std::num::TryFromIntError", None)))]
    if dst in INTBITS and src in INTBITS:
        bs, bd = INTBITS[src], INTBITS[dst]
        if src[0] == dst[0] == "u" and bd >= bs:
            return [(s, OK(a))]
    out = []
    fits = N("fits", dst, a)
    x = s.copy()
    if assume(x, fits, True):
        out.append((x, OK(a)))
    x = s.copy()
    if assume(x, fits, False):
        out.append((x, ERR(N("sym", "TryFromError"))))
    return out


# ---------------------------------------------------------------- Option / Result
def _opt(name, g):
    return "std::option::Option::<T>::" + name if g == "Some" else "std::result::Result::<T, E>::" + name


for G in ("Some", "Ok"):
    def reg(name, f, G=G):
        MODELS[_opt(name, G)] = lambda E, s, c, f=f, G=G: f(E, s, c, G)

    def f_isgood(E, s, c, G):
        return [(s, mk_is(E.deep(s, c.args[0]), G))]

    def f_isbad(E, s, c, G):
        return [(s, mk_not(mk_is(E.deep(s, c.args[0]), G)))]

    def f_unwrap(E, s, c, G):
        return [(st, p) for st, ok, p in split(E, s, c.args[0], G) if ok]

    def f_unwrap_or(E, s, c, G):
        return [(st, p if ok else c.args[1]) for st, ok, p in split(E, s, c.args[0], G)]

    def f_unwrap_or_default(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r.append((st, p))
            else:
                d = default_of(E, st, c, c.dty)
                r.append((st, d))
        return r

    def f_unwrap_or_else(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r.append((st, p))
            else:
                r += E.call_value(st, c.args[1], [p] if G == "Ok" else [], (c.F, c.b, "uoe"), c.site)
        return r

    def f_ok_or(E, s, c, G):
        return [(st, OK(p) if ok else ERR(c.args[1])) for st, ok, p in split(E, s, c.args[0], G)]

    def f_ok_or_else(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r.append((st, OK(p)))
            else:
                r += [(x, ERR(v)) for x, v in E.call_value(st, c.args[1], [], (c.F, c.b, "ooe"), c.site)]
        return r

    def f_ok(E, s, c, G):
        return [(st, SOME(p) if ok else NONE) for st, ok, p in split(E, s, c.args[0], G)]

    def f_or(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            r.append((st, N("adt", c.args[0].a[0], G, p) if c.args[0].op == "adt" and ok else (OK(p) if G == "Ok" else SOME(p)) if ok else c.args[1]))
        return r

    def f_map(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r += [(x, OK(v) if G == "Ok" else SOME(v)) for x, v in E.call_value(st, c.args[1], [p], (c.F, c.b, "map"), c.site)]
            else:
                r.append((st, ERR(p) if G == "Ok" else NONE))
        return r

    def f_and_then(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r += E.call_value(st, c.args[1], [p], (c.F, c.b, "map"), c.site)
            else:
                r.append((st, ERR(p) if G == "Ok" else NONE))
        return r

    def f_map_or(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r += E.call_value(st, c.args[2], [p], (c.F, c.b, "map"), c.site)
            else:
                r.append((st, c.args[1]))
        return r

    def f_map_err(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if ok:
                r.append((st, OK(p)))
            else:
                r += [(x, ERR(v)) for x, v in E.call_value(st, c.args[1], [p], (c.F, c.b, "mape"), c.site)]
        return r

    def f_filter(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if not ok:
                r.append((st, NONE))
                continue
            for x, v in E.call_value(st, c.args[1], [p], (c.F, c.b, "filt"), c.site):
                for y, b in fork(x, v):
                    r.append((y, SOME(p) if b else NONE))
        return r

    def f_is_and(E, s, c, G):
        r = []
        for st, ok, p in split(E, s, c.args[0], G):
            if not ok:
                r.append((st, FALSE))
            else:
                r += E.call_value(st, c.args[1], [p], (c.F, c.b, "isand"), c.site)
        return r

    def f_asref(E, s, c, G):
        # Option<T> by reference -> Option<&T>
        out = []
        loc = E.loc_of(c.args[0])
        x = E.read(s, loc)
        for st, ok, p in split(E, s, x, G):
            if ok:
                if loc[0] == "L":
                    r = N("ref", loc[1], loc[2], loc[3] + (("v", G), ("f", 0, "0")))
                else:
                    r = p
                out.append((st, SOME(r) if G == "Some" else OK(r)))
            else:
                out.append((st, NONE if G == "Some" else ERR(p)))
        return out

    reg("is_some" if G == "Some" else "is_ok", f_isgood)
    reg("is_none" if G == "Some" else "is_err", f_isbad)
    reg("unwrap", f_unwrap)
    reg("expect", f_unwrap)
    reg("unwrap_or", f_unwrap_or)
    reg("unwrap_or_default", f_unwrap_or_default)
    reg("unwrap_or_else", f_unwrap_or_else)
    reg("ok_or", f_ok_or)
    reg("ok_or_else", f_ok_or_else)
    reg("or", f_or)
    reg("map", f_map)
    reg("and_then", f_and_then)
    reg("map_or", f_map_or)
    reg("map_err", f_map_err)
    reg("as_ref", f_asref)
    reg("as_mut", f_asref)
    reg("is_some_and" if G == "Some" else "is_ok_and", f_is_and)
    if G == "Ok":
        reg("ok", f_ok)
    else:
        reg("filter", f_filter)


@model("std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned")
def m_copied(E, s, c):
    return [(st, SOME(E.deep(st, p)) if ok else NONE) for st, ok, p in split(E, s, c.args[0], "Some")]


def fork(s, cond):
    """split on a boolean value"""
    out = []
    a = s.copy()
    if assume(a, cond, True):
        out.append((a, True))
    b = s.copy()
    if assume(b, cond, False):
        out.append((b, False))
    return out


# ---------------------------------------------------------------- comparison
@model("std::cmp::PartialEq::eq")
def m_eq(E, s, c):
    return [(s, E.eq_discr(E.deep(s, c.args[0]), E.deep(s, c.args[1])))]


@model("std::cmp::PartialEq::ne")
def m_ne(E, s, c):
    return [(s, mk_not(E.eq_discr(E.deep(s, c.args[0]), E.deep(s, c.args[1]))))]


def _signed(c):
    t = (c.gargs[0] if c.gargs else "").lstrip("&")
    return t[:1] == "i" and t in INTBITS


def three_way(E, s, a, b, sg=False):
    """a total order's comparison, decided by equality and the strict order"""
    O = "std::cmp::Ordering"
    out = []
    for x, e in fork(s, mk_eq(a, b)):
        if e:
            out.append((x, N("adt", O, "Equal")))
            continue
        for y, l in fork(x, mk_lt(a, b, sg)):
            if l:
                out.append((y, N("adt", O, "Less")))
            else:
                z = y.copy()
                if assume(z, mk_lt(b, a, sg), True):
                    out.append((z, N("adt", O, "Greater")))
    return out


@model("std::cmp::Ord::cmp")
def m_cmp(E, s, c):
    t = (c.gargs[0] if c.gargs else "").lstrip("&")
    if t not in INTBITS:
        return None
    return three_way(E, s, E.deep(s, c.args[0]), E.deep(s, c.args[1]), t[0] == "i")


@model("std::cmp::PartialOrd::lt")
def m_lt(E, s, c):
    return [(s, mk_lt(E.deep(s, c.args[0]), E.deep(s, c.args[1]), _signed(c)))]


@model("std::cmp::PartialOrd::gt")
def m_gt(E, s, c):
    return [(s, mk_lt(E.deep(s, c.args[1]), E.deep(s, c.args[0]), _signed(c)))]


@model("std::cmp::PartialOrd::le")
def m_le(E, s, c):
    return [(s, mk_not(mk_lt(E.deep(s, c.args[1]), E.deep(s, c.args[0]), _signed(c))))]


@model("std::cmp::PartialOrd::ge")
def m_ge(E, s, c):
    return [(s, mk_not(mk_lt(E.deep(s, c.args[0]), E.deep(s, c.args[1]), _signed(c))))]


TOPS = {"u%d" % b: (1 << b) - 1 for b in (8, 16, 32, 64, 128)}


@model("solana_program::rent::Rent::is_exempt")
def m_is_exempt(E, s, c):
    r, bal, n = (E.deep(s, a) for a in c.args[:3])
    return [(s, mk_not(mk_lt(bal, app("solana_program::rent::Rent::minimum_balance", r, n))))]


@model("std::cmp::max", "std::cmp::Ord::max")
def m_max(E, s, c):
    a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
    if a.op == "int" and b.op == "int":
        return [(s, a if a.a[0] >= b.a[0] else b)]
    if c.gargs and c.gargs[0] in TOPS:
        # the type's own bounds
        for x, y in ((a, b), (b, a)):
            if x.op == "int" and x.a[0] == 0:
                return [(s, y)]
    if E.split_minmax and not _signed(c):
        # the two cases apart
        return [(x, b if y else a) for x, y in fork(s, mk_lt(a, b))]
    if a.id > b.id:
        a, b = b, a
    return [(s, app("max", a, b))]


@model("std::cmp::min", "std::cmp::Ord::min")
def m_min(E, s, c):
    a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
    if a.op == "int" and b.op == "int":
        return [(s, a if a.a[0] <= b.a[0] else b)]
    if c.gargs and c.gargs[0] in TOPS:
        # the type's own bounds
        for x, y in ((a, b), (b, a)):
            if x.op == "int" and x.a[0] == TOPS[c.gargs[0]]:
                return [(s, y)]
    if E.split_minmax and not _signed(c):
        # the two cases apart
        return [(x, a if y else b) for x, y in fork(s, mk_lt(a, b))]
    if a.id > b.id:
        a, b = b, a
    return [(s, app("min", a, b))]


def arith(op):
    def f(E, s, c):
        if c.fid is not None:
            return None
        a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
        t = (c.gargs[0] if c.gargs else "").lstrip("&")
        if t in INTBITS:
            return [(s, mk_bin(op, a, b, t))]
        return [(s, app("%s<%s>" % (op, t), a, b))]
    return f


for nm, op in [("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Div::div", "div"), ("Rem::rem", "rem"),
               ("Shl::shl", "shl"), ("Shr::shr", "shr"), ("BitAnd::bitand", "bitand"), ("BitOr::bitor", "bitor")]:
    MODELS["std::ops::" + nm] = arith(op)


def arith_assign(op):
    def f(E, s, c):
        if c.fid is not None:
            return None
        s = s.copy()
        loc = E.loc_of(c.args[0])
        a, b = E.deep(s, E.read(s, loc)), E.deep(s, c.args[1])
        t = (c.gargs[0] if c.gargs else "").lstrip("&")
        v = mk_bin(op, a, b, t) if t in INTBITS else app("%s<%s>" % (op, t), a, b)
        E.write(s, loc, v)
        return [(s, UNIT)]
    return f


for nm, op in [("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul")]:
    MODELS["std::ops::" + nm] = arith_assign(op)


def checked(op, ty):
    def f(E, s, c):
        a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
        v = mk_bin(op, a, b, None) if not (op in ('div', 'rem') and b is Int(0)) else None
        if v is None:
            return [(s, NONE)]
        if v.op == "int":
            return [(s, SOME(v) if wrap(v.a[0], ty) == v.a[0] else NONE)]
        if v is a or v is b:
            return [(s, SOME(v))]
        cond = N("nowrap", ty, app(op, a, b) if v.op != "app" else v)
        if op == "sub":
            cond = mk_not(mk_lt(a, b))
        if op in ("div", "rem"):
            cond = mk_not(mk_eq(b, Int(0)))
        return [(x, SOME(v) if k else NONE) for x, k in fork(s, cond)]
    return f


def wrapping(op, ty, kind):
    def f(E, s, c):
        a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
        if kind == "wrapping":
            return [(s, mk_bin(op, a, b, ty))]
        return [(s, app(kind + "_" + op, a, b))]
    return f


for ty in INTBITS:
    for op in ("add", "sub", "mul", "div", "rem", "pow"):
        MODELS["core::num::<impl %s>::checked_%s" % (ty, op)] = checked(op, ty)
        for kind in ("wrapping", "saturating"):
            MODELS["core::num::<impl %s>::%s_%s" % (ty, kind, op)] = wrapping(op, ty, kind)

    def tole(E, s, c, ty=ty):
        a = E.deep(s, c.args[0])
        n = INTBITS[ty] // 8
        if a.op == "int":
            return [(s, N("arr", *[Int((a.a[0] >> (8 * i)) & 255) for i in range(n)]))]
        if n == 1:
            return [(s, N("arr", a))]
        return [(s, N("le", ty, a))]
    MODELS["core::num::<impl %s>::to_le_bytes" % ty] = tole

    def fromle(E, s, c, ty=ty):
        a = E.deep(s, c.args[0])
        if a.op == "le" and a.a[0] == ty:
            return [(s, a.a[1])]
        if a.op == "arr" and all(x.op == "int" for x in a.a):
            return [(s, Int(sum(x.a[0] << (8 * i) for i, x in enumerate(a.a))))]
        return [(s, app("from_le_" + ty, a))]
    MODELS["core::num::<impl %s>::from_le_bytes" % ty] = fromle


# ---------------------------------------------------------------- defaults
@model("std::default::Default::default")
def m_default(E, s, c):
    if c.fid is not None:
        return None
    return [(s, default_of(E, s, c, c.gargs[0] if c.gargs else c.dty))]


def default_of(E, s, c, ty):
    if ty in INTBITS:
        return Int(0)
    if ty.startswith("std::option::Option"):
        return NONE
    if ty.startswith("std::vec::Vec"):
        return N("arr")
    if ty == "()":
        return UNIT
    import re
    m = re.match(r"^\[(.*); (\d+)\]$", ty)
    if m and int(m.group(2)) <= 64:
        return N("arr", *([default_of(E, s, c, m.group(1))] * int(m.group(2))))
    return app("default<%s>" % ty)


# ---------------------------------------------------------------- iterators
def mk_iter(desc):
    return N("iter", desc, Int(0))


def slice_desc(E, s, v):
    return N("it_slice", v)


@model("core::slice::<impl [T]>::iter", "std::vec::Vec::<T, A>::iter")
def m_iter(E, s, c):
    return [(s, mk_iter(N("it_slice", E.deep(s, c.args[0]))))]


@model("core::slice::<impl [T]>::iter_mut", "std::vec::Vec::<T, A>::iter_mut")
def m_iter_mut(E, s, c):
    a = c.args[0]
    if a.op == "ref":
        v = E.read(s, E.loc_of(a))
        if v.op != "arr" and v.op != "repeat":
            # still a location in local memory
            pass
        return [(s, mk_iter(N("it_mut", a, E.mk_len(E.deep(s, a)))))]
    return [(s, mk_iter(N("it_slice", a)))]


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(E, s, c):
    a = c.args[0]
    if a.op == "iter":
        return [(s, a)]
    if a.op == "ref":
        v = E.read(s, E.loc_of(a))
        if v.op == "iter":
            return [(s, a)]
        if (c.gargs and c.gargs[0].startswith("&mut")):
            return m_iter_mut(E, s, c)
    v = E.deep(s, a)
    if v.op == "iter":
        return [(s, v)]
    models_more.learn(E, v, c.gargs[0] if c.gargs else "")
    if v.op != "adt" and c.gargs and c.gargs[0].startswith("std::option::Option<"):
        return [(x, mk_iter(N("it_slice", N("arr", *([p] if b else []))))) for x, b, p in split(E, s, v, "Some")]
    if v.op == "adt" and v.a[0].startswith("std::ops::Range"):
        if v.a[0] == "std::ops::Range":
            return [(s, mk_iter(N("it_range", v.a[2], v.a[3])))]
        if v.a[0] == "std::ops::RangeFrom":
            return [(s, mk_iter(N("it_from", v.a[2])))]
    if v.op == "rangeincl":
        return [(s, mk_iter(N("it_range", v.a[0], mk_bin("add", v.a[1], Int(1), "usize"))))]
    if v.op == "adt" and v.a[0] == "std::option::Option":
        return [(s, mk_iter(N("it_slice", N("arr", *v.a[2:]))))]
    return [(s, mk_iter(N("it_slice", v)))]


@model("std::ops::RangeInclusive::<Idx>::new")
def m_rangeincl(E, s, c):
    return [(s, N("rangeincl", c.args[0], c.args[1]))]


@model("std::ops::Range::<Idx>::contains", "std::ops::RangeInclusive::<Idx>::contains", "std::ops::RangeBounds::contains")
def m_range_contains(E, s, c):
    r, x = E.deep(s, c.args[0]), E.deep(s, c.args[1])
    if r.op == "adt" and r.a[0] == "std::ops::Range":
        return [(s, mk_and(mk_not(mk_lt(x, r.a[2], _signed(c))), mk_lt(x, r.a[3], _signed(c))))]
    if r.op == "rangeincl":
        return [(s, mk_and(mk_not(mk_lt(x, r.a[0], _signed(c))), mk_not(mk_lt(r.a[1], x, _signed(c)))))]
    return None


def as_iter(E, s, a):
    if a.op == "ref":
        a = E.read(s, E.loc_of(a))
    if a.op == "iter":
        return a
    if a.op == "adt" and a.a[0] == "std::ops::Range":
        return mk_iter(N("it_range", a.a[2], a.a[3]))
    if a.op == "adt" and a.a[0] == "std::ops::RangeFrom":
        return mk_iter(N("it_from", a.a[2]))
    if a.op == "rangeincl":
        return mk_iter(N("it_range", a.a[0], mk_bin("add", a.a[1], Int(1), "usize")))
    return mk_iter(N("it_slice", E.deep(s, a)))


def adaptor(fn):
    def f(E, s, c):
        it = as_iter(E, s, c.args[0])
        d = it.a[0]
        if it.a[1].op == "int" and it.a[1].a[0]:
            d = N("it_skip", d, it.a[1])
        elif it.a[1].op != "int":
            d = N("it_rest", d, it.a[1])
        return [(s, mk_iter(fn(E, s, c, d)))]
    return f


MODELS["std::iter::Iterator::enumerate"] = adaptor(lambda E, s, c, d: N("it_enum", d))
MODELS["std::iter::Iterator::rev"] = adaptor(lambda E, s, c, d: N("it_rev", d))
MODELS["std::iter::Iterator::skip"] = adaptor(lambda E, s, c, d: N("it_skip", d, c.args[1]))
MODELS["std::iter::Iterator::take"] = adaptor(lambda E, s, c, d: N("it_take", d, c.args[1]))
MODELS["std::iter::Iterator::step_by"] = adaptor(lambda E, s, c, d: N("it_step", d, c.args[1]))
MODELS["std::iter::Iterator::map"] = adaptor(lambda E, s, c, d: N("it_map", d, c.args[1]))
MODELS["std::iter::Iterator::filter"] = adaptor(lambda E, s, c, d: N("it_filter", d, c.args[1]))
MODELS["std::iter::Iterator::filter_map"] = adaptor(lambda E, s, c, d: N("it_fmap", d, c.args[1]))
MODELS["std::iter::Iterator::zip"] = adaptor(lambda E, s, c, d: N("it_zip", d, as_iter(E, s, c.args[1]).a[0]))
MODELS["std::iter::Iterator::chain"] = adaptor(lambda E, s, c, d: N("it_chain", d, as_iter(E, s, c.args[1]).a[0]))
for _n in ("cloned", "copied", "by_ref", "peekable", "fuse"):
    MODELS["std::iter::Iterator::" + _n] = adaptor(lambda E, s, c, d: d)


def iter_len(E, d):
    op = d.op
    if op == "it_slice":
        return E.mk_len(d.a[0])
    if op == "it_mut":
        return d.a[1]
    if op == "it_range":
        a, b = d.a
        if a.op == "int" and b.op == "int":
            return Int(max(0, b.a[0] - a.a[0]))
        return mk_bin("sub", b, a, "usize")
    if op in ("it_enum", "it_rev", "it_map"):
        return iter_len(E, d.a[0])
    if op == "it_skip":
        n = iter_len(E, d.a[0])
        if n is None:
            return None
        if n.op == "int" and d.a[1].op == "int":
            return Int(max(0, n.a[0] - d.a[1].a[0]))
        return mk_bin("sub", n, d.a[1], "usize")
    if op == "it_take":
        n = iter_len(E, d.a[0])
        if n is None:
            return None if has_filter(d.a[0]) else d.a[1]
        if n.op == "int" and d.a[1].op == "int":
            return Int(min(n.a[0], d.a[1].a[0]))
        return app("min", n, d.a[1])
    if op == "it_zip":
        x, y = iter_len(E, d.a[0]), iter_len(E, d.a[1])
        if x is None or y is None:
            return None if has_filter(d) else x or y
        if x.op == "int" and y.op == "int":
            return Int(min(x.a[0], y.a[0]))
        return x if y is x else app("min", x, y)
    if op == "it_chain":
        x, y = iter_len(E, d.a[0]), iter_len(E, d.a[1])
        if x is None or y is None:
            return None
        return mk_bin("add", x, y, "usize")
    if op == "it_step":
        n = iter_len(E, d.a[0])
        if n is not None and n.op == "int" and d.a[1].op == "int" and d.a[1].a[0]:
            return Int(-(-n.a[0] // d.a[1].a[0]))
        return None
    return None


def has_filter(d):
    return d.op in ("it_filter", "it_fmap") or any(isinstance(x, Node) and x.op.startswith("it_") and has_filter(x) for x in d.a)


def candidates(E, d):
    """number of elements before filters drop some; defined when filters are outermost"""
    while d.op in ("it_map", "it_fmap", "it_filter"):
        d = d.a[0]
    return iter_len(E, d)


def elem(E, s, d, i, ctx, site=""):
    """[(state, value or None when filtered out)] of the i-th element"""
    op = d.op
    if op == "it_slice":
        return [(s, mk_idx(d.a[0], i))]
    if op == "it_mut":
        r = d.a[0]
        return [(s, N("ref", r.a[0], r.a[1], r.a[2] + (("i", i),)))]
    if op == "it_range":
        if i.op == "ivar":
            return [(s, N("ivar", i.a[0], d.a[0], d.a[1]))]
        return [(s, mk_bin("add", d.a[0], i, "usize"))]
    if op == "it_from":
        return [(s, mk_bin("add", d.a[0], i, "usize"))]
    if op == "it_rep":
        return [(s, d.a[0])]
    if op == "it_enum":
        return [(x, None if v is None else N("tup", i, v)) for x, v in elem(E, s, d.a[0], i, ctx, site)]
    if op == "it_rev":
        n = iter_len(E, d.a[0])
        if n is None:
            return [(s, N("idx", d, i))]
        j = mk_bin("sub", mk_bin("sub", n, Int(1), "usize"), i, "usize")
        return elem(E, s, d.a[0], j, ctx, site)
    if op == "it_skip":
        return elem(E, s, d.a[0], mk_bin("add", i, d.a[1], "usize"), ctx, site)
    if op == "it_take":
        return elem(E, s, d.a[0], i, ctx, site)
    if op == "it_step":
        return elem(E, s, d.a[0], mk_bin("mul", i, d.a[1], "usize"), ctx, site)
    if op == "it_zip":
        out = []
        for x, v in elem(E, s, d.a[0], i, ctx, site):
            for y, w in elem(E, x, d.a[1], i, ctx, site):
                out.append((y, N("tup", v, w) if v is not None and w is not None else None))
        return out
    if op == "it_chain":
        n = iter_len(E, d.a[0])
        if n is not None and n.op == "int" and i.op == "int":
            if i.a[0] < n.a[0]:
                return elem(E, s, d.a[0], i, ctx, site)
            return elem(E, s, d.a[1], Int(i.a[0] - n.a[0]), ctx, site)
        return [(s, N("idx", d, i))]
    if op == "it_map":
        out = []
        for x, v in elem(E, s, d.a[0], i, ctx, site):
            if v is None:
                out.append((x, None))
            else:
                out += E.call_value(x, d.a[1], [v], (ctx, "map", d.a[1].a[0] if isinstance(d.a[1].a[0], str) else 0), site)
        return out
    if op == "it_filter":
        out = []
        for x, v in elem(E, s, d.a[0], i, ctx, site):
            if v is None:
                out.append((x, None))
                continue
            for y, w in E.call_value(x, d.a[1], [v], (ctx, "filter"), site):
                for z, b in fork(y, w):
                    out.append((z, v if b else None))
        return out
    if op == "it_fmap":
        out = []
        for x, v in elem(E, s, d.a[0], i, ctx, site):
            if v is None:
                out.append((x, None))
                continue
            for y, w in E.call_value(x, d.a[1], [v], (ctx, "fmap"), site):
                for z, ok, p in split(E, y, w, "Some"):
                    out.append((z, p if ok else None))
        return out
    return [(s, N("idx", d, i))]


@model("std::iter::Iterator::next")
def m_next(E, s, c):
    if c.fid is not None:
        return None
    loc = E.loc_of(c.args[0])
    it = E.read(s, loc)
    while it.op == "ref":
        loc = E.loc_of(it)
        it = E.read(s, loc)
    if it.op == "adt" and it.a[0] == "std::ops::Range":
        it = as_iter(E, s, it)
    if it.op != "iter":
        return None
    d, pos = it.a
    ctx = (c.F, c.b, "next")
    n = candidates(E, d)
    out = []
    if pos.op == "int" and n is not None and n.op == "int":
        if pos.a[0] >= n.a[0]:
            return [(s, NONE)]
        s = s.copy()
        E.write_quiet(s, loc, N("iter", d, Int(pos.a[0] + 1)))
        for x, v in elem(E, s, d, pos, ctx, c.site):
            if v is None:
                out += m_next(E, x, c)
            else:
                out.append((x, SOME(v)))
        return out
    if pos.op == "int":
        i = pos
        more = mk_lt(i, n) if n is not None else N("more", d, i)
        for x, b in fork(s, more):
            if not b:
                out.append((x, NONE))
                continue
            E.write_quiet(x, loc, N("iter", d, Int(pos.a[0] + 1)))
            for y, v in elem(E, x, d, i, ctx, c.site):
                if v is not None:
                    out.append((y, SOME(v)))
                else:
                    # a filtered-out element: the next candidate is unknown
                    out.append((y, NONE))
                    out.append((y.copy(), SOME(N("idx", d, app("later", i)))))
        return out
    key = pos.a[0]
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", d))
    for y, v in elem(E, s.copy(), d, i, ctx, c.site):
        if v is not None:
            out.append((y, SOME(v)))
    out.append((s.copy(), NONE))
    return out


def quantify(E, s, c, it, clos, want_pos=False):
    """run a predicate closure on a generic element; -> (states true, states false, elem)"""
    d = it.a[0]
    key = "Q%s.%s" % (c.F, c.b)
    n = iter_len(E, d)
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", d))
    ts, fs = [], []
    for x, v in elem(E, s.copy(), d, i, (c.F, c.b, "q"), c.site):
        if v is None:
            continue
        for y, w in E.call_value(x, clos, [v], (c.F, c.b, "qc"), c.site):
            for z, b in fork(y, w):
                (ts if b else fs).append((z, v))
    return key, i, ts, fs


def common_facts(s, sts):
    r = None
    for x, _ in sts:
        f = x.facts - s.facts
        r = f if r is None else r & f
    return r or frozenset()


def forall_node(key, facts):
    return N("forall", key, *sorted((fact_node(f) for f in facts), key=lambda n: n.id))


def concrete_all(E, s, c, it, clos, any_):
    """short-circuit evaluation over a concrete list"""
    d = it.a[0]
    n = candidates(E, d).a[0]
    cur = [s]
    out = []
    for k in range(it.a[1].a[0], n):
        nxt = []
        for x in cur:
            for y, v in elem(E, x, d, Int(k), (c.F, c.b, "qe", k), c.site):
                if v is None:
                    nxt.append(y)
                    continue
                for z, w in E.call_value(y, clos, [v], (c.F, c.b, "qc"), c.site):
                    for q, b in fork(z, w):
                        if b == any_:
                            out.append((q, TRUE if any_ else FALSE))
                        else:
                            nxt.append(q)
        cur = merge(nxt)
    return out + [(x, FALSE if any_ else TRUE) for x in cur]


def is_concrete(E, it):
    n = candidates(E, it.a[0])
    return n is not None and n.op == "int" and it.a[1].op == "int" and n.a[0] - it.a[1].a[0] <= E.UNROLL


@model("std::iter::Iterator::all")
def m_all(E, s, c):
    it = as_iter(E, s, c.args[0])
    if is_concrete(E, it):
        return concrete_all(E, s, c, it, c.args[1], False)
    key, i, ts, fs = quantify(E, s, c, it, c.args[1])
    fa = forall_node(key, common_facts(s, ts))
    x, y = s.copy(), s.copy()
    x.facts = x.facts | {(fa, True)}
    y.facts = y.facts | {(fa, False)}
    r = []
    if ts:
        r.append((x, TRUE))
    if fs:
        r.append((y, FALSE))
    if not ts:
        r.append((x, TRUE))
    return r


@model("std::iter::Iterator::any")
def m_any(E, s, c):
    it = as_iter(E, s, c.args[0])
    if is_concrete(E, it):
        return concrete_all(E, s, c, it, c.args[1], True)
    key, i, ts, fs = quantify(E, s, c, it, c.args[1])
    fa = forall_node(key, common_facts(s, fs))
    x, y = s.copy(), s.copy()
    x.facts = x.facts | {(fa, True)}
    y.facts = y.facts | {(N("exists", key, *sorted((fact_node(f) for f in common_facts(s, ts)), key=lambda n: n.id)), True), (fa, False)}
    r = [(x, FALSE)]
    if ts:
        r.append((y, TRUE))
    return r


def find_like(E, s, c, val):
    it = as_iter(E, s, c.args[0])
    if is_concrete(E, it):
        d = it.a[0]
        n = candidates(E, d).a[0]
        cur, out = [s], []
        for k in range(it.a[1].a[0], n):
            nxt = []
            for x in cur:
                for y, v in elem(E, x, d, Int(k), (c.F, c.b, "qe", k), c.site):
                    if v is None:
                        nxt.append(y)
                        continue
                    for z, w in E.call_value(y, c.args[1], [v], (c.F, c.b, "qc"), c.site):
                        for q, b in fork(z, w):
                            if b:
                                out.append((q, SOME(val(v, Int(k - it.a[1].a[0])))))
                            else:
                                nxt.append(q)
            cur = merge(nxt)
        return out + [(x, NONE) for x in cur]
    key, i, ts, fs = quantify(E, s, c, it, c.args[1])
    out = []
    none = s.copy()
    none.facts = none.facts | {(forall_node(key, common_facts(s, fs)), True)}
    out.append((none, NONE))
    before = common_facts(s, fs)
    for x, v in ts:
        if before:
            # the elements in front of the one found
            x.facts = x.facts | {(forall_node(key + "<", before), True)}
        out.append((x, SOME(val(v, i))))
    return out


@model("std::iter::Iterator::find")
def m_find(E, s, c):
    return find_like(E, s, c, lambda v, i: v)


@model("std::iter::Iterator::position")
def m_position(E, s, c):
    return find_like(E, s, c, lambda v, i: i)


@model("std::iter::Iterator::collect", "std::vec::Vec::<T>::from_iter")
def m_collect(E, s, c):
    it = as_iter(E, s, c.args[0])
    d = it.a[0]
    n = candidates(E, d)
    if n is not None and n.op == "int" and it.a[1].op == "int" and n.a[0] - it.a[1].a[0] <= E.UNROLL:
        n = n.a[0]
        cur = [(s, ())]
        for k in range(it.a[1].a[0], n):
            nxt = []
            for x, l in cur:
                for y, v in elem(E, x, d, Int(k), (c.F, c.b, "col", k), c.site):
                    nxt.append((y, l + ((v,) if v is not None else ())))
            cur = nxt
            if len(cur) > 512:
                return [(s, N("comp_f", E.deep(s, d), c.site))]
        if (c.dty or "").startswith("std::result::Result<"):
            out = []
            for x, l in cur:
                bad = [v for v in l if v.op == "adt" and v.a[1] == "Err"]
                if bad:
                    out.append((x, bad[0]))
                elif all(v.op == "adt" for v in l):
                    out.append((x, OK(N("arr", *[v.a[2] for v in l]))))
                else:
                    return None
            return out
        return [(x, N("arr", *[E.deep(x, v) if not (c.dty or "").startswith("std::vec::Vec<&mut") else v for v in l])) for x, l in cur]
    if d.op == "it_slice" and it.a[1] is Int(0):
        return [(s, d.a[0])]
    key = "C%s.%s" % (c.F, c.b)
    n = iter_len(E, d)
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", d))
    r = elem(E, s.copy(), d, i, (c.F, c.b, "col"), c.site)
    if len(r) == 1 and r[0][1] is not None:
        return [(r[0][0], N("comp", E.deep(r[0][0], r[0][1]), i))]
    return [(s, N("comp_f", E.deep(s, d), c.site))]


@model("std::iter::Iterator::fold")
def m_fold(E, s, c):
    it = as_iter(E, s, c.args[0])
    d = it.a[0]
    if is_concrete(E, it):
        n = candidates(E, d).a[0]
        cur = [(s, c.args[1])]
        for k in range(it.a[1].a[0], n):
            nxt = []
            for x, acc in cur:
                for y, v in elem(E, x, d, Int(k), (c.F, c.b, "fold", k), c.site):
                    if v is None:
                        nxt.append((y, acc))
                    else:
                        nxt += E.call_value(y, c.args[2], [acc, v], (c.F, c.b, "fc"), c.site)
            cur = nxt
            if len(cur) > 64:
                return [(s, N("fold", E.deep(s, d), c.site))]
        return cur
    node = N("fold", E.deep(s, d), E.deep(s, c.args[1]), c.site)
    key = "C%s.%s" % (c.F, c.b)
    n = iter_len(E, d)
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", d))
    acc = N("phi", key, "fold", (), E.deep(s, c.args[1]))
    back = []
    for x, v in elem(E, s.copy(), d, i, (c.F, c.b, "fold"), c.site):
        if v is None:
            continue
        for y, r in E.call_value(x, c.args[2], [acc, v], (c.F, c.b, "fc"), c.site):
            back.append((E.deep(y, r), y.facts - s.facts, y.ev is s.ev))
    E.folds[node] = (acc, back, n)
    return [(s, node)]


@model("std::iter::Iterator::sum", "std::iter::Iterator::product", "std::iter::Iterator::count",
       "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::last")
def m_sum(E, s, c):
    it = as_iter(E, s, c.args[0])
    op = c.name.split("::")[-1]
    if op in ("sum", "product", "count") and is_concrete(E, it):
        n = candidates(E, it.a[0]).a[0]
        cur = [(s, Int(1) if op == "product" else Int(0))]
        ty = c.dty if c.dty in INTBITS else None
        for k in range(it.a[1].a[0], n):
            nxt = []
            for x, acc in cur:
                for y, v in elem(E, x, it.a[0], Int(k), (c.F, c.b, "sum", k), c.site):
                    if v is None:
                        nxt.append((y, acc))
                    else:
                        v = Int(1) if op == "count" else E.deep(y, v)
                        nxt.append((y, mk_bin("mul" if op == "product" else "add", acc, v, ty)))
            cur = nxt
            if len(cur) > 64 or ty is None and op != "count":
                break
        else:
            return cur
    if op == "last" and is_concrete(E, it) and not has_filter(it.a[0]):
        n = candidates(E, it.a[0]).a[0]
        if n <= it.a[1].a[0]:
            return [(s, NONE)]
        return [(x, SOME(v)) for x, v in elem(E, s, it.a[0], Int(n - 1), (c.F, c.b, "last"), c.site)]
    if op in ("max", "min") and is_concrete(E, it) and not has_filter(it.a[0]) and re.search(r"Option<&*[ui]\d", c.dty or ""):
        cur = [(s, None)]
        for k in range(it.a[1].a[0], candidates(E, it.a[0]).a[0]):
            nxt = []
            for x, acc in cur:
                for y, v in elem(E, x, it.a[0], Int(k), (c.F, c.b, "max", k), c.site):
                    v = E.deep(y, v)
                    if acc is None:
                        nxt.append((y, v))
                        continue
                    for z, b in fork(y, mk_lt(v, acc) if op == "max" else mk_lt(acc, v)):
                        nxt.append((z, acc if b else v))
            cur = nxt
            if len(cur) > 64:
                break
        else:
            return [(x, NONE if v is None else SOME(v)) for x, v in cur]
    return [(s, N("reduce", c.name.split("::")[-1], E.deep(s, it)))]


@model("std::iter::Iterator::for_each")
def m_foreach(E, s, c):
    it = as_iter(E, s, c.args[0])
    if is_concrete(E, it):
        d = it.a[0]
        cur = [s]
        for k in range(it.a[1].a[0], candidates(E, d).a[0]):
            nxt = []
            for x in cur:
                for y, v in elem(E, x, d, Int(k), (c.F, c.b, "fe", k), c.site):
                    if v is None:
                        nxt.append(y)
                    else:
                        nxt += [z for z, _ in E.call_value(y, c.args[1], [v], (c.F, c.b, "fec"), c.site)]
            cur = merge(nxt)
        return [(x, UNIT) for x in cur]
    return m_foreach_sym(E, s, c, it)


# ---------------------------------------------------------------- slices, vectors
@model("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "core::str::<impl str>::len")
def m_len(E, s, c):
    return [(s, E.mk_len(E.deep(s, c.args[0])))]


@model("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "core::str::<impl str>::is_empty")
def m_is_empty(E, s, c):
    return [(s, mk_eq(E.mk_len(E.deep(s, c.args[0])), Int(0)))]


@model("core::slice::<impl [T]>::first")
def m_first(E, s, c):
    v = E.deep(s, c.args[0])
    n = E.mk_len(v)
    return [(x, NONE if b else SOME(mk_idx(v, Int(0)))) for x, b in fork(s, mk_eq(n, Int(0)))]


@model("core::slice::<impl [T]>::get")
def m_get(E, s, c):
    v = E.deep(s, c.args[0])
    i = E.deep(s, c.args[1])
    if i.op == "adt":
        return None
    return [(x, SOME(mk_idx(v, i)) if b else NONE) for x, b in fork(s, mk_lt(i, E.mk_len(v)))]


def mk_slice(E, v, a, b):
    if a.op == "int" and b.op == "int":
        if v.op == "arr":
            return N("arr", *v.a[a.a[0]:b.a[0]])
        if v.op == "bytes":
            return N("bytes", v.a[0][2 * a.a[0]:2 * b.a[0]])
    if a is Int(0) and b is E.mk_len(v):
        return v
    if v.op == "slice":
        return N("slice", v.a[0], mk_bin("add", v.a[1], a, "usize"), mk_bin("add", v.a[1], b, "usize"))
    return N("slice", v, a, b)


def index_core(E, s, c, mut):
    base, i = c.args[0], E.deep(s, c.args[1])
    if c.fid is not None:
        return None
    loc = E.loc_of(base)
    if c.tys and models_more.array_len(c.tys[0]) is not None:
        models_more.learn(E, E.deep(s, base), c.tys[0])
    if i.op == "adt" and i.a[0].startswith("std::ops::Range"):
        kind = i.a[0].split("::")[-1]
        if kind == "RangeFull":
            return [(s, base)]
        v = E.read(s, loc)
        while v.op == "ref":
            loc = E.loc_of(v)
            v = E.read(s, loc)
        if kind == "Range":
            a, b = i.a[2], i.a[3]
        elif kind == "RangeTo":
            a, b = Int(0), i.a[2]
        elif kind == "RangeToInclusive":
            a, b = Int(0), mk_bin("add", i.a[2], Int(1), "usize")
        elif kind == "RangeFrom":
            a, b = i.a[2], E.mk_len(v)
        else:
            return None
        if not mut:
            return [(s, mk_slice(E, E.deep(s, v), a, b))]
        if loc[0] == "L":
            return [(s, N("ref", loc[1], loc[2], loc[3] + (("rng", a, b),)))]
        return [(s, mk_slice(E, loc[1], a, b))]
    if i.op == "rangeincl":
        v = E.deep(s, base)
        return [(s, mk_slice(E, v, i.a[0], mk_bin("add", i.a[1], Int(1), "usize")))]
    v = E.read(s, loc)
    while v.op == "ref":
        loc = E.loc_of(v)
        v = E.read(s, loc)
    n = E.mk_len(v)
    if n.op == "int" and i.op == "int" and i.a[0] >= n.a[0]:
        return []
    if loc[0] == "L":
        return [(s, N("ref", loc[1], loc[2], loc[3] + (("i", i),)))]
    return [(s, mk_idx(loc[1], i))]


@model("std::ops::Index::index")
def m_index(E, s, c):
    return index_core(E, s, c, False)


@model("std::ops::IndexMut::index_mut")
def m_index_mut(E, s, c):
    return index_core(E, s, c, True)


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def m_vecnew(E, s, c):
    return [(s, N("arr"))]


@model("std::vec::from_elem")
def m_fromelem(E, s, c):
    x, n = c.args
    if n.op == "int" and n.a[0] <= 64:
        return [(s, N("arr", *([x] * n.a[0])))]
    return [(s, N("repeat", x, n))]


@model("std::vec::Vec::<T, A>::push")
def m_push(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    x = c.args[1]
    if v.op == "arr":
        nv = N("arr", *(v.a + (x,)))
    else:
        nv = N("pushed", v, E.deep(s, x))
    E.write_quiet(s, loc, nv)
    return [(s, UNIT)]


@model("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice")
def m_extend(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    if v.op == "arr":
        it = as_iter(E, s, c.args[1])
        if it is not None and it.op == "iter" and it.a[0].op != "it_slice" and is_concrete(E, it):
            cur = [(s, ())]
            for k in range(it.a[1].a[0], candidates(E, it.a[0]).a[0]):
                cur = [(y, l + ((w,) if w is not None else ())) for z, l in cur for y, w in elem(E, z, it.a[0], Int(k), (c.F, c.b, "ext", k), c.site)]
            if len(cur) <= 256:
                out = []
                for z, l in cur:
                    z = z.copy()
                    E.write_quiet(z, loc, N("arr", *(v.a + tuple(E.deep(z, w) for w in l))))
                    out.append((z, UNIT))
                return out
    x = E.deep(s, c.args[1])
    if x.op == "iter":
        x = x.a[0].a[0] if x.a[0].op == "it_slice" and x.a[1] is Int(0) else x
    if v.op == "arr" and x.op == "arr":
        nv = N("arr", *(v.a + x.a))
    elif v.op == "arr" and x.op == "bytes":
        nv = N("arr", *(v.a + tuple(Int(b) for b in bytes.fromhex(x.a[0]))))
    else:
        nv = N("concat", v, x)
    E.write_quiet(s, loc, nv)
    return [(s, UNIT)]


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copyfrom(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    src = E.deep(s, c.args[1])
    if loc[0] == "L" and loc[3] and loc[3][-1][0] == "rng":
        a, b = loc[3][-1][1:]
        base = ("L", loc[1], loc[2], loc[3][:-1])
        v = E.read(s, base)
        if v.op == "arr" and a.op == "int" and b.op == "int" and src.op == "arr":
            nv = N("arr", *(v.a[:a.a[0]] + src.a + v.a[b.a[0]:]))
        else:
            nv = N("splice", v, a, b, src)
        E.write_quiet(s, base, nv)
        return [(s, UNIT)]
    if loc[0] == "L":
        E.write_quiet(s, loc, src)
    else:
        s.st[("o", loc[1])] = src
        s.emit("copy_into", loc[1], src, c.site, c.fn["inst"])
    return [(s, UNIT)]


@model("std::boxed::Box::<T>::new_uninit", "std::boxed::Box::<T>::new")
def m_box(E, s, c):
    s = s.copy()
    f = E.frame(c.F, "box", c.b)
    s.st[("l", f, 0)] = c.args[0] if c.args else N("uninit")
    return [(s, N("ref", f, 0, ()))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(E, s, c):
    a = c.args[0]
    v = E.read(s, E.loc_of(a)) if a.op == "ref" else a
    s = s.copy()
    if a.op == "ref":
        s.st.pop(("l", a.a[0], a.a[1]), None)
    return [(s, v)]


@model("std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_unstable",
       "std::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort_unstable_by_key")
def m_sort(E, s, c):
    """a permutation of the elements; which one stays open"""
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    if v.op != "arr" or len(v.a) > 16:
        return None
    s = s.copy()
    if len(v.a) > 1:
        d = E.deep(s, v)
        E.write_quiet(s, loc, N("arr", *[N("sel", Int(k), d) for k in range(len(v.a))]))
    return [(s, UNIT)]


@model("std::iter::Iterator::partition")
def m_partition(E, s, c):
    it = as_iter(E, s, c.args[0])
    if not is_concrete(E, it):
        return None
    d = it.a[0]
    n = candidates(E, d).a[0]
    cur = [(s, (), ())]
    for k in range(it.a[1].a[0], n):
        nxt = []
        for x, l, r in cur:
            for y, v in elem(E, x, d, Int(k), (c.F, c.b, "part", k), c.site):
                if v is None:
                    nxt.append((y, l, r))
                    continue
                for z, w in E.call_value(y, c.args[1], [v], (c.F, c.b, "pc"), c.site):
                    for q, b in fork(z, w):
                        nxt.append((q, l + (v,), r) if b else (q, l, r + (v,)))
        cur = nxt
        if len(cur) > 256:
            return None
    return [(x, N("tup", N("arr", *l), N("arr", *r))) for x, l, r in cur]


@model("std::mem::swap")
def m_swap(E, s, c):
    s = s.copy()
    l1, l2 = E.loc_of(c.args[0]), E.loc_of(c.args[1])
    a, b = E.read(s, l1), E.read(s, l2)
    E.write(s, l1, b)
    E.write(s, l2, a)
    return [(s, UNIT)]


# ---------------------------------------------------------------- formatting / logging: no value, no effect
def m_nop(E, s, c):
    return [(s, N("sym", "fmt"))]


for _n in ("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst",
           "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display", "std::fmt::format",
           "solana_program::log::sol_log", "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::new_v1"):
    MODELS[_n] = m_nop


# ---------------------------------------------------------------- solana
@model("solana_program::account_info::next_account_info")
def m_nai(E, s, c):
    loc = E.loc_of(c.args[0])
    it = E.read(s, loc)
    while it.op == "ref":
        loc = E.loc_of(it)
        it = E.read(s, loc)
    if it.op != "iter":
        return [(s, N("app", "next_account_info", E.deep(s, it)))]
    d, pos = it.a
    out = []
    if pos.op == "int":
        a = s.copy()
        E.write_quiet(a, loc, N("iter", d, Int(pos.a[0] + 1)))
        e = elem(E, a, d, pos, (c.F, c.b, "nai"), c.site)
        out += [(x, OK(v)) for x, v in e]
    else:
        i = N("ivar", pos.a[0], Int(0), iter_len(E, d))
        out += [(x, OK(v)) for x, v in elem(E, s.copy(), d, i, (c.F, c.b, "nai"), c.site)]
    out.append((s.copy(), ERR(N("adt", "solana_program::program_error::ProgramError", "NotEnoughAccountKeys"))))
    return out


def lamports_loc(E, s, acct):
    ep = s.st.get(("e", N("world")), Int(0))
    return app("lamports", acct) if ep is Int(0) else app("lamports", acct, ep)


def bump_world(s):
    k = ("e", N("world"))
    e = s.st.get(k, Int(0))
    s.st[k] = Int(e.a[0] + 1) if e.op == "int" else app("succ", e)
    for x in [x for x in s.st if x[0] == "o" and x[1].op == "app" and x[1].a[0] == "lamports"]:
        del s.st[x]


@model("solana_program::account_info::AccountInfo::<'a>::lamports")
def m_lamports(E, s, c):
    a = E.deep(s, c.args[0])
    l = lamports_loc(E, s, a)
    return [(s, E.load_loc(s, l))]


@model("solana_program::account_info::AccountInfo::<'a>::try_borrow_mut_lamports",
       "solana_program::account_info::AccountInfo::<'a>::try_borrow_lamports")
def m_tbml(E, s, c):
    a = E.deep(s, c.args[0])
    return [(s, OK(app("lamref", a)))]


@model("solana_program::account_info::AccountInfo::<'a>::try_borrow_data", "solana_program::account_info::AccountInfo::<'a>::try_borrow_mut_data")
def m_tbd(E, s, c):
    return [(s, OK(N("fld", E.deep(s, c.args[0]), "data")))]


@model("solana_program::account_info::AccountInfo::<'a>::data_len")
def m_datalen(E, s, c):
    return [(s, E.mk_len(N("fld", E.deep(s, c.args[0]), "data")))]


@model("solana_program::account_info::AccountInfo::<'a>::signer_key")
def m_signerkey(E, s, c):
    a = E.deep(s, c.args[0])
    out = []
    for x, b in fork(s, N("fld", a, "is_signer")):
        out.append((x, SOME(N("fld", a, "key")) if b else NONE))
    return out


def m_invoke(E, s, c):
    s = s.copy()
    da = [E.deep(s, a) for a in c.args]
    kind = c.name.split("::")[-1]
    if kind == "invoke_signed" and da[2].op == "arr" and not da[2].a:
        kind, da = "invoke", da[:2]       # no seeds: nothing is signed for
    s.emit("invoke", kind, N("args", *da), c.site, c.fn["inst"])
    bump_world(s)
    out = []
    # the cross-program call either succeeds or the whole transaction is reverted
    out.append((s, OK()))
    return out


MODELS["solana_program::program::invoke"] = m_invoke
MODELS["solana_program::program::invoke_signed"] = m_invoke


@model("solana_program::pubkey::Pubkey::to_bytes")
def m_tobytes(E, s, c):
    a = E.deep(s, c.args[0])
    if a.op == "adt" and len(a.a) == 3:
        return [(s, a.a[2])]
    if a.op == "app" and a.a[0] == "pubkey":
        return [(s, a.a[1])]
    return [(s, app("bytes_of", a))]


@model("solana_program::pubkey::Pubkey::new_from_array")
def m_newfromarray(E, s, c):
    a = E.deep(s, c.args[0])
    if a.op == "app" and a.a[0] == "bytes_of":
        return [(s, a.a[1])]
    return [(s, app("pubkey", a))]


@model("solana_program::pubkey::Pubkey::create_program_address")
def m_cpa(E, s, c):
    da = [E.deep(s, a) for a in c.args]
    return [(s, N("app", "create_pda", *da))]


@model("solana_program::pubkey::Pubkey::find_program_address")
def m_fpa(E, s, c):
    da = [E.deep(s, a) for a in c.args]
    return [(s, N("tup", N("app", "find_pda_key", *da), N("app", "find_pda_bump", *da)))]


# borsh
@model("borsh::BorshSerialize::try_to_vec")
def m_tryvec(E, s, c):
    if c.gargs and re.match(r"^\[u8; \d+\]$", c.gargs[0]):
        return [(s, OK(E.deep(s, c.args[0])))]
    return [(s, OK(app("borsh", E.deep(s, c.args[0]))))]


@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_fncall(E, s, c):
    f, t = c.args[0], E.read(s, E.loc_of(c.args[1])) if c.args[1].op == "ref" else c.args[1]
    fv = f
    n = 0
    while fv.op == "ref" and n < 4:
        fv = E.deref(s, fv)
        n += 1
    args = list(t.a) if t.op == "tup" else [t]
    if fv.op in ("closure", "fnptr"):
        if fv.op == "closure" and f.op == "ref" and fv is not f:
            fn = E.p.fns.get(fv.a[1])
            if fn is not None and fn["nargs"] == len(args) + 1:
                return E.exec_fn(s, fn, [f if n == 1 else fv] + args, E.frame(c.F, c.b, fn["id"]))
        return E.call_value(s, fv, args, (c.F, c.b, "fn"), c.site)
    if c.fid is not None:
        fn = E.p.fns[c.fid]
        if fn["nargs"] == len(args):
            return E.exec_fn(s, fn, args, E.frame(c.F, c.b, fn["id"]))
        if fn["nargs"] == len(args) + 1:
            return E.exec_fn(s, fn, [f] + args, E.frame(c.F, c.b, fn["id"]))
    return None


# ---------------------------------------------------------------- further library plumbing
@model("core::bool::<impl bool>::then")
def m_then(E, s, c):
    out = []
    for x, b in fork(s, E.deep(s, c.args[0])):
        if b:
            out += [(y, SOME(v)) for y, v in E.call_value(x, c.args[1], [], (c.F, c.b, "then"), c.site)]
        else:
            out.append((x, NONE))
    return out


@model("core::bool::<impl bool>::then_some")
def m_then_some(E, s, c):
    return [(x, SOME(c.args[1]) if b else NONE) for x, b in fork(s, E.deep(s, c.args[0]))]


@model("std::option::Option::<T>::take")
def m_take(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    E.write_quiet(s, loc, NONE)
    return [(s, v)]


@model("std::option::Option::<T>::replace", "std::mem::replace")
def m_replace(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    E.write(s, loc, SOME(c.args[1]) if "Option" in c.name else c.args[1])
    return [(s, v)]


@model("std::mem::take")
def m_mtake(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    E.write(s, loc, default_of(E, s, c, c.gargs[0] if c.gargs else c.dty))
    return [(s, v)]


def _reg2(name, f):
    for G in ("Some", "Ok"):
        MODELS[_opt(name, G)] = lambda E, s, c, G=G: f(E, s, c, G)


def f_and(E, s, c, G):
    return [(st, c.args[1] if ok else (ERR(p) if G == "Ok" else NONE)) for st, ok, p in split(E, s, c.args[0], G)]


def f_or_else(E, s, c, G):
    r = []
    for st, ok, p in split(E, s, c.args[0], G):
        if ok:
            r.append((st, OK(p) if G == "Ok" else SOME(p)))
        else:
            r += E.call_value(st, c.args[1], [p] if G == "Ok" else [], (c.F, c.b, "ore"), c.site)
    return r


def f_map_or_else(E, s, c, G):
    r = []
    for st, ok, p in split(E, s, c.args[0], G):
        if ok:
            r += E.call_value(st, c.args[2], [p], (c.F, c.b, "moe"), c.site)
        else:
            r += E.call_value(st, c.args[1], [p] if G == "Ok" else [], (c.F, c.b, "moe2"), c.site)
    return r


_reg2("and", f_and)
_reg2("or_else", f_or_else)
_reg2("map_or_else", f_map_or_else)


@model("std::option::Option::<T>::is_none_or")
def m_is_none_or(E, s, c):
    r = []
    for st, ok, p in split(E, s, c.args[0], "Some"):
        r += E.call_value(st, c.args[1], [p], (c.F, c.b, "ino"), c.site) if ok else [(st, TRUE)]
    return r


@model("std::result::Result::<T, E>::err")
def m_err(E, s, c):
    return [(st, NONE if ok else SOME(p)) for st, ok, p in split(E, s, c.args[0], "Ok")]


@model("std::result::Result::<T, E>::unwrap_err", "std::result::Result::<T, E>::expect_err")
def m_unwrap_err(E, s, c):
    return [(st, p) for st, ok, p in split(E, s, c.args[0], "Ok") if not ok]


@model("std::option::Option::<std::option::Option<T>>::flatten")
def m_flatten(E, s, c):
    return [(st, p if ok else NONE) for st, ok, p in split(E, s, c.args[0], "Some")]


@model("core::slice::<impl [T]>::contains")
def m_contains(E, s, c):
    v, x = E.deep(s, c.args[0]), E.deep(s, c.args[1])
    if v.op == "arr":
        r = FALSE
        for y in v.a:
            r = mk_or(r, E.eq_discr(y, x))
        return [(s, r)]
    key = "K%s.%s" % (c.F, c.b)
    i = N("ivar", key, Int(0), E.mk_len(v))
    e = E.eq_discr(mk_idx(v, i), x)
    a, b = s.copy(), s.copy()
    fa = forall_node(key, [(e, False)] if e.op != "not" else [(e.a[0], True)])
    a.facts = a.facts | {(fa, True)}
    b.facts = b.facts | {(fa, False), (N("exists", key, e), True)}
    return [(a, FALSE), (b, TRUE)]


@model("core::slice::<impl [T]>::last")
def m_last(E, s, c):
    v = E.deep(s, c.args[0])
    n = E.mk_len(v)
    return [(x, NONE if b else SOME(mk_idx(v, mk_bin("sub", n, Int(1), "usize")))) for x, b in fork(s, mk_eq(n, Int(0)))]


@model("core::slice::<impl [T]>::get_mut")
def m_get_mut(E, s, c):
    i = E.deep(s, c.args[1])
    if i.op == "adt":
        return None
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    while v.op == "ref":
        loc = E.loc_of(v)
        v = E.read(s, loc)
    out = []
    for x, b in fork(s, mk_lt(i, E.mk_len(v))):
        if not b:
            out.append((x, NONE))
        elif loc[0] == "L":
            out.append((x, SOME(N("ref", loc[1], loc[2], loc[3] + (("i", i),)))))
        else:
            out.append((x, SOME(mk_idx(loc[1], i))))
    return out


@model("core::slice::<impl [T]>::fill")
def m_fill(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    while v.op == "ref":
        loc = E.loc_of(v)
        v = E.read(s, loc)
    n = E.mk_len(E.deep(s, v))
    x = E.deep(s, c.args[1])
    nv = N("arr", *([x] * n.a[0])) if n.op == "int" and n.a[0] <= 64 else N("repeat", x, n)
    if loc[0] == "L":
        E.write_quiet(s, loc, nv)
    else:
        s.st[("o", loc[1])] = nv
        s.emit("copy_into", loc[1], nv, c.site, c.fn["inst"])
    return [(s, UNIT)]


@model("core::slice::<impl [T]>::swap")
def m_sswap(E, s, c):
    s = s.copy()
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    while v.op == "ref":
        loc = E.loc_of(v)
        v = E.read(s, loc)
    i, j = E.deep(s, c.args[1]), E.deep(s, c.args[2])
    a, b = mk_idx(v, i), mk_idx(v, j)
    nv = update(update(v, (("i", i),), b), (("i", j),), a)
    E.write(s, loc, nv)
    return [(s, UNIT)]


@model("std::vec::Vec::<T, A>::pop")
def m_pop(E, s, c):
    loc = E.loc_of(c.args[0])
    v = E.read(s, loc)
    s = s.copy()
    if v.op == "arr":
        if not v.a:
            return [(s, NONE)]
        E.write_quiet(s, loc, N("arr", *v.a[:-1]))
        return [(s, SOME(v.a[-1]))]
    out = []
    for x, b in fork(s, mk_eq(E.mk_len(v), Int(0))):
        if b:
            out.append((x, NONE))
        else:
            E.write_quiet(x, loc, N("popped", v))
            out.append((x, SOME(app("last_of", v))))
    return out


for ty in INTBITS:
    def abs_diff(E, s, c):
        a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
        if a.op == "int" and b.op == "int":
            return [(s, Int(abs(a.a[0] - b.a[0])))]
        if a.id > b.id:
            a, b = b, a
        return [(s, app("abs_diff", a, b))]
    MODELS["core::num::<impl %s>::abs_diff" % ty] = abs_diff

    def powm(E, s, c, ty=ty):
        return [(s, mk_bin("pow", E.deep(s, c.args[0]), E.deep(s, c.args[1]), ty))]
    MODELS["core::num::<impl %s>::pow" % ty] = powm

    def overflowing(E, s, c, ty=ty):
        a, b = E.deep(s, c.args[0]), E.deep(s, c.args[1])
        op = c.name.split("overflowing_")[1]
        v = mk_bin(op, a, b, ty)
        cond = mk_lt(a, b) if op == "sub" else mk_not(N("nowrap", ty, v))
        if v.op == "int":
            cond = FALSE
        return [(s, N("tup", v, cond))]
    for op in ("add", "sub", "mul"):
        MODELS["core::num::<impl %s>::overflowing_%s" % (ty, op)] = overflowing


def sym_loop(E, s, c, key, body):
    """run `body(state) -> [state]` an unknown number of times; -> the state afterwards"""
    hdr = s.copy()
    for rnd in range(12):
        backs = body(hdr.copy())
        new = dict(hdr.st)
        changed = False
        for b in backs:
            for k, v0 in list(new.items()):
                v1 = b.st.get(k)
                if v1 is not None and v1 is not v0:
                    j = E.join(v0, v1, key, k, ())
                    if j is not v0:
                        new[k] = j
                        changed = True
            for k, v1 in b.st.items():
                if k not in new and k[0] in ("o", "g", "e"):
                    base = E.initial(k)
                    if base is not v1:
                        new[k] = E.join(base, v1, key, k, ())
                        changed = True
        if not changed:
            break
        hdr = State(new, s.facts, s.ev)
    E.note_induction(key, hdr, backs)
    alts, common = [], None
    for b in backs:
        f = b.facts - s.facts
        common = f if common is None else common & f
        evs = N("evs", *evlist(b.ev, hdr.ev))
        if evs not in alts:
            alts.append(evs)
    out = hdr.copy()
    if any(a.a for a in alts):
        out.ev = N("evc", out.ev, N("ev", "loop", key, *alts))
    if common:
        out.facts = out.facts | {(forall_node(key, common), True)}
    return out


def m_foreach_sym(E, s, c, it):
    key = "FE%s.%s" % (c.F, c.b)
    n = iter_len(E, it.a[0])
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", it.a[0]))

    def body(st):
        r = []
        for x, v in elem(E, st, it.a[0], i, (c.F, c.b, "fes"), c.site):
            if v is None:
                r.append(x)
            else:
                r += [z for z, _ in E.call_value(x, c.args[1], [v], (c.F, c.b, "fecs"), c.site)]
        return merge(r)
    return [(sym_loop(E, s, c, key, body), UNIT)]


@model("std::iter::Iterator::try_for_each")
def m_tryforeach(E, s, c):
    it = as_iter(E, s, c.args[0])
    if is_concrete(E, it):
        d = it.a[0]
        cur, out = [s], []
        for k in range(it.a[1].a[0], candidates(E, d).a[0]):
            nxt = []
            for x in cur:
                for y, v in elem(E, x, d, Int(k), (c.F, c.b, "tfe", k), c.site):
                    if v is None:
                        nxt.append(y)
                        continue
                    for z, w in E.call_value(y, c.args[1], [v], (c.F, c.b, "tfec"), c.site):
                        for q, ok, p in split(E, z, w, "Ok"):
                            if ok:
                                nxt.append(q)
                            else:
                                out.append((q, ERR(p)))
            cur = merge(nxt)
        return out + [(x, OK()) for x in cur]
    key = "TFE%s.%s" % (c.F, c.b)
    n = iter_len(E, it.a[0])
    i = N("ivar", key, Int(0), n if n is not None else N("len_of", it.a[0]))
    errs = []

    def body(st):
        r = []
        del errs[:]
        for x, v in elem(E, st, it.a[0], i, (c.F, c.b, "tfes"), c.site):
            if v is None:
                r.append(x)
                continue
            for z, w in E.call_value(x, c.args[1], [v], (c.F, c.b, "tfecs"), c.site):
                for q, ok, p in split(E, z, w, "Ok"):
                    if ok:
                        r.append(q)
                    else:
                        errs.append((q, ERR(p)))
        return merge(r)
    fin = sym_loop(E, s, c, key, body)
    return [(fin, OK())] + list(errs)


@model("std::iter::Iterator::nth")
def m_nth(E, s, c):
    loc = E.loc_of(c.args[0])
    it = E.read(s, loc)
    while it.op == "ref":
        loc = E.loc_of(it)
        it = E.read(s, loc)
    k = E.deep(s, c.args[1])
    if it.op != "iter" or it.a[1].op != "int" or k.op != "int":
        return None
    d, pos = it.a
    n = iter_len(E, d)
    p = Int(pos.a[0] + k.a[0])
    if n is not None and n.op == "int" and p.a[0] >= n.a[0]:
        return [(s, NONE)]
    out = []
    conds = [(s.copy(), True)] if n is not None and n.op == "int" else fork(s, mk_lt(p, n) if n is not None else N("more", d, p))
    for x, b in conds:
        if not b:
            out.append((x, NONE))
            continue
        E.write_quiet(x, loc, N("iter", d, Int(p.a[0] + 1)))
        for y, v in elem(E, x, d, p, (c.F, c.b, "nth"), c.site):
            if v is not None:
                out.append((y, SOME(v)))
    return out


@model("std::num::NonZero::<T>::new")
def m_nznew(E, s, c):
    v = E.deep(s, c.args[0])
    return [(x, NONE if b else SOME(v)) for x, b in fork(s, mk_eq(v, Int(0)))]


@model("std::num::NonZero::<T>::get")
def m_nzget(E, s, c):
    return [(s, E.deep(s, c.args[0]))]


@model("spl_token::id")
def m_splid(E, s, c):
    return [(s, N("static", "spl_token::ID"))]


from . import models_more  # noqa: E402,F401
