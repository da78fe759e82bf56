"""Bounded mathematical integers: range invariant and exactness."""
from checks.zint import *
EXPLANATION = BASE_EXPL + (' Roots: every operation of bounded integer types instantiated from the public macros, seen through From<BigInt>/Into<BigInt>; '
                           'constructors with an unbounded mathematical integer, operations with every pair of in-range values.')
RULE = 'returns exactly when the mathematical result lies in the declared range, and the value is that result'
FLOOR = 400
# module, bits, signed, public
TYPES = [('up64', 64, 0, 1), ('up12', 12, 0, 1), ('sp64', 64, 1, 1), ('sp12', 12, 1, 1),
         ('us64', 64, 0, 0), ('us12', 12, 0, 0), ('ss64', 64, 1, 0), ('leg', 40, 0, 1)]
HS = [('hup', 64, 0), ('hsp', 64, 1), ('hus', 64, 0), ('hss', 64, 1)]
Z = 'abs::z::'


def rng(bits, sg):
    top = (1 << bits) - 1
    return (-top if sg else 0), top


def vals(bits, sg, names='xy'):
    """in-range operands, by sign"""
    import itertools
    base = [zu(var(n, bits), bits) for n in names]
    for signs in itertools.product(*([(1, -1)] * len(names) if sg else [(1,)] * len(names))):
        yield ''.join('+' if s > 0 else '-' for s in signs), [v if s > 0 else zneg(v) for v, s in zip(base, signs)]


def t_con(t, m, bits, sg):
    lo, hi = rng(bits, sg)
    x = var('x', 0)
    zcheck(t, m + '/from-bigint', Z + m + '::round', [x], [x], within(x, lo, hi))
    u = zu(var('u', bits + 30), bits + 30)
    zcheck(t, m + '/from-biguint', Z + m + '::uround', [u], [u], within(u, 0, hi))
    zcheck(t, m + '/from-bigint-wide', Z + m + '::round', [u], [u], within(u, lo, hi))
    zcheck(t, m + '/from-bigint-wide-neg', Z + m + '::round', [zneg(u)], [zneg(u)], within(zneg(u), lo, hi))
    zcheck(t, m + '/default', Z + m + '::default', [], [0])
    l = var('l', 128)
    zl = zu(l, 128)
    zcheck(t, m + '/from_literal', Z + m + '::lit', [l], [zl], within(zl, 0, hi))
    zl = zs(l, 128)
    zcheck(t, m + '/from_signed_literal', Z + m + '::slit', [l], [zl], within(zl, lo, hi))
    for k in list(range(0, bits + 9)) + [127, 128, 200]:
        zcheck(t, m + '/pow2[%d]' % k, Z + m + '::pow2', [k], [1 << k], int((1 << k) <= hi))
    for s, (v,) in vals(bits, sg, 'x'):
        zcheck(t, m + '/round' + s, Z + m + '::round', [v], [v])
        for i in range(0, 8 * ((bits + 7) // 8) + 2):
            b = bvz(zband(zshr(v, i), 1), 1)
            zcheck(t, m + '/bit%s[%d]' % (s, i), Z + m + '::bit', [v, i], [b], int(i < 8 * ((bits + 7) // 8)))


def t_ops(t, m, bits, sg):
    lo, hi = rng(bits, sg)
    for s, (x, y) in vals(bits, sg):
        for f, z in (('add', zadd(x, y)), ('sub', zsub(x, y)), ('mul', zmul(x, y))):
            zcheck(t, m + '/%s%s' % (f, s), Z + m + '::' + f, [x, y], [z], within(z, lo, hi))


def t_pub(t, m, bits, sg):
    for s, (x, y) in vals(bits, sg):
        nz = bxor(1, zeq(y, 0), 1)
        q = Z + m + 'p::'
        zcheck(t, m + '/div' + s, q + 'div', [x, y], [zdivt(x, y)], nz)
        zcheck(t, m + '/rem' + s, q + 'rem', [x, y], [zrem(x, y)], nz)
        lt, e, gt = zlt(x, y), zeq(x, y), zlt(y, x)
        for f, v in (('eq', e), ('ne', bnot(1, e)), ('lt', lt), ('gt', gt), ('le', bnot(1, gt)), ('ge', bnot(1, lt))):
            zcheck(t, m + '/%s%s' % (f, s), q + f, [x, y], [v])
        ztag(t, m + '/cmp' + s, q + 'cmp', [x, y], lt, e)
        zcheck(t, m + '/max' + s, q + 'max', [x, y], [ite(lt, 0, y, x)])


def t_bytes(t, m, bits):
    lo, hi = rng(bits, 0)
    q = Z + m + 'u::'
    for n in range(0, (bits + 7) // 8 + 3):
        b = V('b', n)
        z = zu(cat([(x, 0, 8) for x in reversed(b)]), 8 * n) if n else 0
        zcheck(t, m + '/from_le_bytes[%d]' % n, q + 'from_le_bytes', [b], [z], within(z, 0, hi))
    x = zu(var('x', bits), bits)
    zcheck(t, m + '/into-biguint', q + 'into_biguint', [x], [x])


def t_hs(t, m, bits, sg):
    lo, hi = rng(bits, sg)
    x = var('x', 0)
    zcheck(t, m + '/from-bigint', 'abs::hz::%s::round' % m, [x], [x], within(x, lo, hi))
    for s, (x, y) in vals(bits, sg):
        for f, z in (('wrap_add', zadd(x, y)), ('wrap_sub', zsub(x, y)), ('wrap_mul', zmul(x, y))):
            zcheck(t, m + '/%s%s' % (f, s), 'abs::hz::%s::%s' % (m, f), [x, y], [z], within(z, lo, hi))


def tasks(prog, tier):
    for m, b, s, p in TYPES:
        yield 'con-' + m, t_con, (m, b, s)
        yield 'ops-' + m, t_ops, (m, b, s)
        if p:
            yield 'pub-' + m, t_pub, (m, b, s)
        if not s:
            yield 'bytes-' + m, t_bytes, (m, b)
    for m, b, s in HS:
        yield 'hs-' + m, t_hs, (m, b, s)
