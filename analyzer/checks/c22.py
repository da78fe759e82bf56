"""Public machine integers: Numeric/Integer/ModNumeric semantics."""
from checks.ints import *
from checks.c10 import bits
EXPLANATION = BASE_EXPL + ' Roots: Integer, NumericBase and ModNumeric methods of the ten public machine integer types (and modular methods of the secret ones).'
RULE = 'graph(code) = mathematical operation on the type\'s values; refusals (panics) exactly where the result is not representable or undefined'
FLOOR = 5000
ASSUMPTIONS = ['sub_mod/modulo of signed integers: loops that lift into the residue range are unrolled for the listed concrete moduli']


def t_basic(t, T):
    w = width(T)
    x, y = xy(w)
    m = 'mi::n_%s::' % T
    k = T + '/'
    top = (1 << (w - 1)) - 1 if signed(T) else ones(w)
    prog_fn(t, k + 'NUM_BITS', m + 'NUM_BITS', [], [w])
    for f, v in (('ZERO', 0), ('ONE', 1), ('TWO', 2), ('max_val', top)):
        prog_fn(t, k + f, m + f, [], [v])
    l = var('l', 128)
    prog_fn(t, k + 'from_literal', m + 'from_literal', [l], [extract(l, 128, 0, w)])
    for f, v in (('wrap_add', add(w, x, y)), ('wrap_sub', sub(w, x, y)), ('wrap_mul', mul(w, x, y))):
        prog_fn(t, k + f, m + f, [x, y], [v])
    D = sdiv if signed(T) else udiv
    R = srem if signed(T) else urem
    nz = bnot(1, eq(w, y, 0))
    ovf = band(1, eq(w, x, 1 << (w - 1)), eq(w, y, ones(w))) if signed(T) else 0
    prog_fn(t, k + 'wrap_div', m + 'wrap_div', [x, y], [ite(ovf, w, x, D(w, x, y)) if signed(T) else D(w, x, y)], ok=nz)
    prog_fn(t, k + 'div', m + 'div', [x, y], [D(w, x, y)], ok=band(1, nz, bnot(1, ovf)))
    zx = zval(T, x)
    z, v, ok = 1, 1, 1
    for e in range(0, 5):
        prog_fn(t, k + 'pow[%d]' % e, m + 'pow', [x, e], [v], ok=fits(T, z) if e else 1)
        z = zmul(z, zx) if e else zx
        v = mul(w, v, x) if e else x
    bits(t, T, k, m)


def t_mod(t, T):
    """unsigned: one symbolic modulus"""
    w = width(T)
    x, y, n = var('x', w), var('y', w), var('n', w)
    m = 'mi::n_%s::' % T
    nz = bnot(1, eq(w, n, 0))
    if not signed(T):
        prog_fn(t, T + '/modulo', m + 'modulo', [x, n], [urem(w, x, n)], ok=nz)
        zx, zy = zu(x, w), zu(y, w)
        prog_fn(t, T + '/add_mod', m + 'add_mod', [x, y, n], [urem(w, add(w, x, y), n)], ok=band(1, nz, fits(T, zadd(zx, zy))))
        prog_fn(t, T + '/mul_mod', m + 'mul_mod', [x, y, n], [urem(w, mul(w, x, y), n)], ok=band(1, nz, fits(T, zmul(zx, zy))))


def moduli(T):
    w = width(T)
    return [2, 3, 7, 13, 100, (1 << (w - 1)) - 1]


def t_smod(t, T, n):
    """signed: lifting into 0..n for concrete moduli (the lifting loop has at most one iteration)"""
    w = width(T)
    x, y = xy(w)
    m = 'mi::n_%s::' % T
    zx, zy = zs(x, w), zs(y, w)
    prog_fn(t, '%s/modulo[%d]' % (T, n), m + 'modulo', [x, n], [bvz(zmodf(zx, n), w)])
    if w < 64:
        for f, z in (('add_mod', zadd(zx, zy)), ('sub_mod', zsub(zx, zy)), ('mul_mod', zmul(zx, zy))):
            prog_fn(t, '%s/%s[%d]' % (T, f, n), m + f, [x, y, n], [bvz(zmodf(z, n), w)])
    else:
        i128 = lambda z: fits('I128', z)
        for f, z in (('add_mod', zadd(zx, zy)), ('sub_mod', zsub(zx, zy)), ('mul_mod', zmul(zx, zy))):
            prog_fn(t, '%s/%s[%d]' % (T, f, n), m + f, [x, y, n], [bvz(zmodf(z, n), w)], ok=i128(z))


def t_usub(t, T, n):
    """unsigned sub_mod on all residues of a concrete modulus: the lifting loop runs at most once"""
    w = width(T)
    x, y = (urem(w, v, n) for v in xy(w))
    prog_fn(t, '%s/sub_mod[%d]' % (T, n), 'mi::n_%s::sub_mod' % T, [x, y, n], [bvz(zmodf(zsub(zu(x, w), zu(y, w)), n), w)])


def tasks(prog, tier):
    for T in PUBLIC:
        yield 'basic-' + T, t_basic, (T,)
    for T in ALL:
        yield 'mod-' + T, t_mod, (T,)
        if signed(T):
            for n in moduli(T):
                yield 'smod-%s-%d' % (T, n), t_smod, (T, n)
        else:
            for n in (2, 3, 7, 13, 100, 127):
                yield 'usub-%s-%d' % (T, n), t_usub, (T, n)
