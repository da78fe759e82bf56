"""Modular integers: canonical representatives and exact operations."""
from checks.zint import *
EXPLANATION = BASE_EXPL + (' Roots: every operation of modular integer types instantiated from the public macros (secret, public, legacy, hacspec wrappers), seen '
                           'through From<Base>/Into<Base> and From<BigInt>/Into<BigInt>; every pair of base values, reduced and unreduced.')
RULE = 'result = canonical residue of the mathematical result (quotient/remainder of representatives for /, %); comparisons and bytes act on the representative'
FLOOR = 200
ASSUMPTIONS = ['num-bigint modpow computes the modular power', 'inv is claimed as the power n-2, the inverse for prime n']
# module, base bits, modulus, public
TYPES = [('nms', 64, 0xffffffffffffffc5, 0), ('nmp', 72, 0x01fffffffffffffffb, 1), ('legm', 40, 0x0fffffffa9, 1)]
HS = [('hnm', 64, 0xffffffffffffffc5), ('hpnm', 128, 0xfffffffffffffffffffffffffffffd1f)]
Z = 'abs::z::'


def res(name, n):
    """an arbitrary canonical representative"""
    return zmodf(zu(var(name, n.bit_length()), n.bit_length()), n)


def t_con(t, m, bits, n, pub):
    top = (1 << bits) - 1
    x = var('x', 0)
    zcheck(t, m + '/from-base', Z + m + '::round', [x], [zmodf(x, n)], within(x, 0, top))
    u = zu(var('x', bits), bits)
    zcheck(t, m + '/from-base-in-range', Z + m + '::round', [u], [zmodf(u, n)])
    zcheck(t, m + '/default', Z + m + '::default', [], [0])
    zcheck(t, m + '/max', Z + m + '::max', [], [n])
    l = var('l', 128)
    zcheck(t, m + '/from_literal', Z + m + '::lit', [l], [zmodf(zu(l, 128), n)], within(zu(l, 128), 0, n))
    zl = zs(l, 128)
    zcheck(t, m + '/from_signed_literal', Z + m + '::slit', [l], [zmodf(zl, n)], within(zl, 0, n))
    for k in range(0, (bits + 7) // 8 + 3):
        b = V('b', k)
        z = zu(cat([(q, 0, 8) for q in reversed(b)]), 8 * k) if k else 0
        zcheck(t, m + '/from_le_bytes[%d]' % k, Z + m + '::from_le_bytes', [b], [zmodf(z, n)], within(z, 0, top))
    r = res('x', n)
    for i in (0, 1, 7, 8, bits - 1, 8 * ((bits + 7) // 8) - 1, 8 * ((bits + 7) // 8)):
        zcheck(t, m + '/bit[%d]' % i, Z + m + '::bit', [r, i], [bvz(zband(zshr(r, i), 1), 1)], int(i < 8 * ((bits + 7) // 8)))
    # exported bytes: minimal little-endian representation of the representative
    for nm, v in (('reduced', r), ('unreduced', u)):
        q = t.run(Z + m + '::to_le_bytes', [v], m + '/to_le_bytes/' + nm)
        if q is not None:
            t.returns(m + '/to_le_bytes/%s/total' % nm, q)
            t.equal(m + '/to_le_bytes/' + nm, [le_value(q)], [zmodf(v, n)], where=site(t.prog, q.root))


def le_value(q):
    """the integer that the returned bytes denote, little-endian"""
    out = leaves(q.I, q.ret)
    if len(out) == 1 and type(out[0]) is T and out[0].w == 0 or len(out) == 1 and type(out[0]) is int:
        return out[0]
    return zu(cat([(x, 0, 8) for x in reversed(out)]), 8 * len(out))


def t_ops(t, m, bits, n):
    for nm, mk_ in (('residues', lambda v: res(v, n)), ('base', lambda v: zu(var(v, bits), bits))):
        x, y = mk_('x'), mk_('y')
        cx, cy = zmodf(x, n), zmodf(y, n)
        for f, z in (('add', zadd(cx, cy)), ('sub', zsub(cx, cy)), ('mul', zmul(cx, cy))):
            zcheck(t, m + '/%s/%s' % (f, nm), Z + m + '::' + f, [x, y], [zmodf(z, n)])


def t_pub(t, m, bits, n):
    q = Z + m + 'p::'
    x, y = res('x', n), res('y', n)
    nz = bxor(1, zeq(y, 0), 1)
    zcheck(t, m + '/div', q + 'div', [x, y], [zdivt(x, y)], nz)
    zcheck(t, m + '/rem', q + 'rem', [x, y], [zmodf(x, y)], nz)
    for nm, a, b in (('residues', x, y), ('base', zu(var('x', bits), bits), zu(var('y', bits), bits))):
        ca, cb = zmodf(a, n), zmodf(b, n)
        lt, e, gt = zlt(ca, cb), zeq(ca, cb), zlt(cb, ca)
        for f, v in (('eq', e), ('ne', bnot(1, e)), ('lt', lt), ('gt', gt), ('le', bnot(1, gt)), ('ge', bnot(1, lt))):
            zcheck(t, m + '/%s/%s' % (f, nm), q + f, [a, b], [v])
        ztag(t, m + '/cmp/' + nm, q + 'cmp', [a, b], lt, e)
    e = var('e', 128)
    ze = zu(e, 128)
    zcheck(t, m + '/pow', q + 'pow', [x, e], [zmodpow(x, ze, n)], within(ze, 0, (1 << bits) - 1))
    for k in (0, 1, 2, 3, 7):
        zcheck(t, m + '/pow[%d]' % k, q + 'pow', [x, k], [zmodpow(x, k, n)])
    zcheck(t, m + '/pow_felem', q + 'pow_felem', [x, y], [zmodpow(x, y, n)])
    zcheck(t, m + '/inv', q + 'inv', [x], [zmodpow(x, n - 2, n)])


def t_hs(t, m, bits, n):
    x = var('x', 0)
    zcheck(t, m + '/from-base', 'abs::hz::%s::round' % m, [x], [zmodf(x, n)], within(x, 0, (1 << bits) - 1))
    zcheck(t, m + '/max', 'abs::hz::%s::max' % m, [], [n])
    x, y = res('x', n), res('y', n)
    for f, z in (('wrap_add', zadd(x, y)), ('wrap_sub', zsub(x, y)), ('wrap_mul', zmul(x, y))):
        zcheck(t, m + '/' + f, 'abs::hz::%s::%s' % (m, f), [x, y], [zmodf(z, n)])


def t_seq(t):
    n, top = HS[1][2], (1 << 128) - 1
    q = 'abs::hz::pnm::'
    for k in list(range(0, 19)):
        b = V('b', k)
        z = zu(cat([(v, 0, 8) for v in reversed(b)]), 8 * k) if k else 0
        zcheck(t, 'hpnm/from_byte_seq_le[%d]' % k, q + 'from_byte_seq_le', [b], [zmodf(z, n)], within(z, 0, top))
    l = var('l', 128)
    zcheck(t, 'hpnm/from_secret_literal', q + 'from_secret_literal', [l], [zmodf(zu(l, 128), n)], within(zu(l, 128), 0, n))
    # exported bytes: every position of the highest set bit
    x = zu(var('x', 128), 128)
    for f in ('to_public_byte_seq_le', 'to_byte_seq_le'):
        for k in range(-1, 128):
            v = zu(cat([(1, 0, 1), (var('x', k), 0, k)] if k else [(1, 0, 1)]), k + 1) if k >= 0 else 0
            if k == 127:
                continue
            r = t.run(q + f, [v], 'hpnm/%s[%d]' % (f, k))
            if r is not None:
                t.returns('hpnm/%s[%d]/total' % (f, k), r)
                t.equal('hpnm/%s[%d]' % (f, k), [le_value(r)], [v], where=site(t.prog, r.root))


def tasks(prog, tier):
    for m, b, n, p in TYPES:
        yield 'con-' + m, t_con, (m, b, n, p)
        yield 'ops-' + m, t_ops, (m, b, n)
        if p:
            yield 'pub-' + m, t_pub, (m, b, n)
    for m, b, n in HS:
        yield 'hs-' + m, t_hs, (m, b, n)
    yield 'seq', t_seq, ()
