"""helpers for the checks on mathematical integers (num::BigInt values are terms of width 0)"""
from checks.common import *


def zgt(a, b):
    return zlt(b, a)


def within(z, lo, hi):
    return band(1, bxor(1, zlt(z, lo), 1), bxor(1, zlt(hi, z), 1))


def zcheck(t, key, root, specs, want, ok=1):
    """root returns exactly on ok, and its leaves are then `want`"""
    r = t.run(root, specs, key)
    if r is None:
        return None
    t.returns(key + '/refusal', r, ok)
    if r.ret is None:
        if not (type(ok) is int and ok == 0):
            t.ok(key, False, 'never returns', site(t.prog, root))
        return r
    if type(ok) is int and ok == 0:
        return r
    try:
        got = leaves(r.I, r.ret)
    except Unsupported as e:
        t.ok(key, False, str(e), site(t.prog, root))
        return r
    t.equal(key, got, want, ok=r.ok, assume=[ok], where=site(t.prog, root))
    return r


def ztag(t, key, root, specs, lt, eqc, ok=1):
    """root returns an Ordering"""
    r = t.run(root, specs, key)
    if r is None or r.ret is None:
        return t.ok(key, False, 'never returns')
    t.returns(key + '/refusal', r, ok)
    parts = option_parts(r)
    less, equal, greater = 0, 0, 0
    for c, v, f in parts:
        if type(v) is T:
            c2 = [band(1, c, eq(v.w, v, k)) for k in (0, 1, 2)]
            c3 = [band(1, c, eq(v.w, v, (k - 1) % (1 << v.w))) for k in (0, 1, 2)]
            raise Unsupported('symbolic discriminant')
        if v == 0:
            less = bor(1, less, c)
        elif v == 1:
            equal = bor(1, equal, c)
        else:
            greater = bor(1, greater, c)
    t.equal(key, [less, equal, greater], [lt, eqc, band(1, bnot(1, lt), bnot(1, eqc))], ok=r.ok, assume=[ok], where=site(t.prog, root))
