"""Specifications of the integer operations, shared by several checks."""
from checks.common import *

UNS = ['U8', 'U16', 'U32', 'U64', 'U128']
SGN = ['I8', 'I16', 'I32', 'I64', 'I128']
SECRET = UNS + SGN
PUB_U = ['u8', 'u16', 'u32', 'u64', 'u128']
PUB_S = ['i8', 'i16', 'i32', 'i64', 'i128']
PUBLIC = PUB_U + PUB_S
ALL = SECRET + PUBLIC


def width(T):
    return int(T[1:])


def signed(T):
    return T[0] in 'Ii'


def xy(w):
    return var('x', w), var('y', w)


def zval(T, x):
    return zs(x, width(T)) if signed(T) else zu(x, width(T))


def fits(T, z):
    w = width(T)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed(T) else (0, (1 << w) - 1)
    return band(1, bnot(1, zlt(z, lo)), bnot(1, zlt(hi, z)))


def lt_(T, a, b):
    return slt(width(T), a, b) if signed(T) else ult(width(T), a, b)


def mask(w, c):
    return sext(c, 1, w)


def prog_fn(t, key, root, specs, want, ok=1, assume=()):
    """value `want` (list of leaves), returned exactly when `ok`"""
    r = t.run(root, specs, key)
    if r is None:
        return
    w = site(t.prog, root)
    t.returns(key + '/returns', r, ok)
    if r.ret is None:
        t.ok(key, type(ok) is int and ok == 0, 'never returns', w)
        return
    try:
        got = leaves(r.I, r.ret)
    except Unsupported as e:
        t.ok(key, False, str(e), w)
        return
    t.equal(key, got, want, ok=band(1, r.ok, ok), assume=assume, where=w, rounds=60)


def panics(t, key, root, specs):
    """never returns normally (a loud refusal)"""
    r = t.run(root, specs, key)
    if r is None:
        return
    t.ok(key, r.ret is None or (type(r.ok) is int and r.ok == 0), 'returns although the operation is not supported', site(t.prog, root))
