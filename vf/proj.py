"""Project-specific intrinsics: account views and child accounts."""
import re
from .engine import *
from .engine import mk_is
from .models import split, fork
from . import models


def base_type(t):
    """strip generics/lifetimes of a type path"""
    t = re.sub(r"::<.*$", "", t)
    t = re.sub(r"<.*$", "", t)
    return t


def h_new(E, s, c, m):
    T = base_type(m.group(1))
    d = E.deep(s, c.args[0])
    acct = d.a[0] if d.op == "fld" and d.a[1] == "data" else d
    v = N("view", T, acct)
    out = []
    for x, b in fork(s, N("is", N("app", "account_new", N("str", T), acct), "Ok")):
        out.append((x, OK(v) if b else ERR(N("sym", "InvalidAccountData"))))
    return out


def h_find_children(E, s, c, m):
    T = base_type(m.group(1))
    acct = E.deep(s, c.args[0])
    node = N("children", T, acct, *[E.deep(s, a) for a in c.args[1:3]])
    out = []
    for x, b in fork(s, N("is", node, "Ok")):
        out.append((x, OK(node) if b else ERR(N("sym", "ChildAccountError"))))
    return out


def h_set_children(E, s, c, m):
    s = s.copy()
    s.emit("set_children", E.deep(s, c.args[0]), E.deep(s, c.args[1]))
    return [(s, UNIT)]


def de_node(E, s, T, src):
    if src.op == "fld" and src.a[0].op == "view":
        v = s.st.get(("g", src.a[0].a[0] + "." + src.a[1], src.a[0]))
        if v is not None and v.op == "adt" and v.a[0].split("::")[-1] == T.split("::")[-1]:
            # the value the account was given or is assumed to hold
            return [(s, OK(v))]
    n = N("app", "de<%s>" % T, src)
    return [(x, OK(mk_fld_ok(n)) if b else ERR(N("sym", "DeserializeError"))) for x, b in fork(s, N("is", n, "Ok"))]


def mk_fld_ok(n):
    return N("fld", N("as", n, "Ok"), "0")


def h_deserialize(E, s, c, m):
    """reading a value from account or instruction bytes: a typed, otherwise unknown value"""
    T = m.group(1)
    src = E.deep(s, c.args[0])
    r = de_node(E, s, T, src)
    for x, v in r:
        if c.args[0].op == "ref":
            E.havoc(x, c.args[0], N("after", src, N("str", T)))
    return r


def h_enum_full(E, s, c, m):
    T = c.gargs[0] if c.gargs else m.group(1)
    src = E.deep(s, c.args[0])
    if src.op == "slice" and src.a[1] is Int(0):
        src = src.a[0]
    return de_node(E, s, T, src)


def m_try_from_slice(E, s, c):
    if c.fid is not None:
        return None
    src = E.deep(s, c.args[0])
    return de_node(E, s, c.gargs[0] if c.gargs else "?", src)


def m_deser(E, s, c):
    if c.fid is not None:
        return None
    T = c.gargs[0] if c.gargs else "?"
    src = E.deep(s, c.args[0])
    r = de_node(E, s, T, src)
    for x, v in r:
        if c.args[0].op == "ref":
            E.havoc(x, c.args[0], N("after", src, N("str", T)))
    return r


models.MODELS["borsh::BorshDeserialize::try_from_slice"] = m_try_from_slice
models.MODELS["borsh::BorshDeserialize::deserialize"] = m_deser

HOOKS = [(re.compile(p), f) for p, f in [
    (r"^<(.*) as borsh::BorshDeserialize>::deserialize$", h_deserialize),
    (r"^(elusiv_types::BorshSerDeSizedEnum::deserialize_enum_full)$", h_enum_full),
    (r"^<(.*) as elusiv_types::BorshSerDeSizedEnum>::deserialize_enum_full$", h_enum_full),
    (r"^<(.*?) as elusiv_types::ProgramAccount(?:<.*>)?>::new$", h_new),
    (r"^<(.*?) as elusiv_types::ParentAccount(?:<.*>)?>::find_child_accounts$", h_find_children),
    (r"^(.*?)::ParentAccount::find_child_accounts$", h_find_children),
    (r"^<(.*?) as elusiv_types::ParentAccount(?:<.*>)?>::set_child_accounts$", h_set_children),
]]

OPAQUE = [
    r"^elusiv::commitment::poseidon_hash::",
    r"^elusiv::proof::verifier::",
    r"elusiv::map::ElusivMap",
    r"NullifierAccount.*(try_insert_nullifier_hash|can_insert_nullifier_hash|move_nullifier_hashes_to_next_account|is_moved_nullifier_empty)$",
    r"^elusiv::commitment::compute_",
]
PURE = [
    r"^elusiv::fields::(u256_to_big_uint|u256_to_fr_skip_mr|fr_to_u256_le|big_uint_to_u256|fr_to_u256_le_repr|u64_to_scalar\w*|u64_to_u256\w*)$",
    r"^elusiv::types::RawU256::reduce$",
    r"^elusiv::token::TokenPrice::",
]


def engine(P, opaque=None, pure=None, watch=(), extra_opaque=(), extra_pure=(), opts=None):
    return Engine(P, hooks=HOOKS, opaque=list(OPAQUE if opaque is None else opaque) + list(extra_opaque),
                  pure=list(PURE if pure is None else pure) + list(extra_pure), watch=watch, opts=opts)
