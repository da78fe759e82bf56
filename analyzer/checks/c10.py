"""Arithmetic and bit operations of the secret integers."""
from checks.ints import *
EXPLANATION = BASE_EXPL + ' Roots: every inherent method, operator and compound assignment of the ten secret integer types, and their Numeric/Integer implementation, with all operand bits symbolic.'
RULE = 'graph(code) = two\'s-complement / bitwise operation of the type\'s width; panic condition = documented one'
FLOOR = 10000


def t_type(t, T):
    w = width(T)
    x, y = xy(w)
    n = var('n', 32)
    m = 'si::%s_::' % T
    zx, zy = zval(T, x), zval(T, y)
    top = (1 << (w - 1)) - 1 if signed(T) else ones(w)
    for f, v in (('classify', x), ('declassify', x), ('from_repr', x), ('clone', x)):
        prog_fn(t, '%s/%s' % (T, f), m + f, [x], [v])
    for f, v in (('zero', 0), ('one', 1), ('ones', ones(w)), ('max_value', top), ('default', 0)):
        prog_fn(t, '%s/%s' % (T, f), m + f, [], [v])
    ops = {'add': add(w, x, y), 'sub': sub(w, x, y), 'mul': mul(w, x, y), 'bitand': band(w, x, y), 'bitor': bor(w, x, y), 'bitxor': bxor(w, x, y)}
    for f, v in ops.items():
        for g in (f, f + '_assign'):
            prog_fn(t, '%s/%s' % (T, g), m + g, [x, y], [v])
    prog_fn(t, T + '/not', m + 'not', [x], [bnot(w, x)])
    prog_fn(t, T + '/neg', m + 'neg', [x], [neg(w, x)])
    inb = ult(32, n, w)
    nn = resize(n, 32, False, w)
    for c in range(w):
        for g in ('shl', 'shl_assign'):
            prog_fn(t, '%s/%s[%d]' % (T, g, c), m + g, [x, c], [shl(w, x, c)])
        for g in ('shr', 'shr_assign'):
            prog_fn(t, '%s/%s[%d]' % (T, g, c), m + g, [x, c], [ashr(w, x, c) if signed(T) else lshr(w, x, c)])
        prog_fn(t, '%s/rotate_left[%d]' % (T, c), m + 'rotate_left', [x, c], [rotl(w, x, c)])
        prog_fn(t, '%s/rotate_right[%d]' % (T, c), m + 'rotate_right', [x, c], [rotr(w, x, c)])
    for g in ('shl', 'shl_assign', 'shr', 'shr_assign'):
        r = t.run(m + g, [x, n], T + '/' + g)
        if r is not None:
            t.returns('%s/%s/returns' % (T, g), r, inb)
    for c in (w, w + 1, 3 * w + 5):
        prog_fn(t, '%s/rotate_left[%d]' % (T, c), m + 'rotate_left', [x, c], [rotl(w, x, c % w)])
        prog_fn(t, '%s/rotate_right[%d]' % (T, c), m + 'rotate_right', [x, c], [rotr(w, x, c % w)])
    for f, z, v in (('add', zadd(zx, zy), ops['add']), ('sub', zsub(zx, zy), ops['sub']), ('mul', zmul(zx, zy), ops['mul'])):
        prog_fn(t, '%s/checked_%s' % (T, f), m + 'checked_' + f, [x, y], [v], ok=fits(T, z))


def t_trait(t, T):
    w = width(T)
    x, y = xy(w)
    m = 'mi::n_%s::' % T
    top = (1 << (w - 1)) - 1 if signed(T) else ones(w)
    k = '%s/trait-' % T
    prog_fn(t, k + 'NUM_BITS', m + 'NUM_BITS', [], [w])
    for f, v in (('ZERO', 0), ('ONE', 1), ('TWO', 2), ('max_val', top)):
        prog_fn(t, k + f, m + f, [], [v])
    l = var('l', 128)
    prog_fn(t, k + 'from_literal', m + 'from_literal', [l], [extract(l, 128, 0, w)])
    prog_fn(t, k + 'classify', 'mi::s_%s::classify' % T, [x], [x])
    for f, v in (('wrap_add', add(w, x, y)), ('wrap_sub', sub(w, x, y)), ('wrap_mul', mul(w, x, y))):
        prog_fn(t, k + f, m + f, [x, y], [v])
    panics(t, k + 'wrap_div', m + 'wrap_div', [x, y])
    p = 1
    for e in range(0, 9):
        prog_fn(t, k + 'pow[%d]' % e, m + 'pow', [x, e], [p])
        p = mul(w, p, x) if e else x
    bits(t, T, k, m)


def bits(t, T, k, m):
    w = width(T)
    x, y = xy(w)
    b = var('b', 1)
    for i in range(w):
        prog_fn(t, k + 'get_bit[%d]' % i, m + 'get_bit', [x, i], [zext(extract(x, w, i, 1), 1, w)])
        bit = cat([(x, i + 1, w - 1 - i), (b, 0, 1), (x, 0, i)]) if 0 < i < w - 1 else (
            cat([(x, 1, w - 1), (b, 0, 1)]) if i == 0 else cat([(b, 0, 1), (x, 0, w - 1)]))
        prog_fn(t, k + 'set_bit[%d]' % i, m + 'set_bit', [x, zext(b, 1, w), i], [bit])
        j = (i * 7 + 3) % w
        yb = extract(y, w, j, 1)
        bit = cat([(x, i + 1, w - 1 - i), (yb, 0, 1), (x, 0, i)]) if 0 < i < w - 1 else (
            cat([(x, 1, w - 1), (yb, 0, 1)]) if i == 0 else cat([(yb, 0, 1), (x, 0, w - 1)]))
        prog_fn(t, k + 'set[%d,%d]' % (i, j), m + 'set', [x, i, y, j], [bit])
        prog_fn(t, k + 'rotate_left[%d]' % i, m + 'rotate_left', [x, i], [rotl(w, x, i)])
        prog_fn(t, k + 'rotate_right[%d]' % i, m + 'rotate_right', [x, i], [rotr(w, x, i)])
    for f in ('rotate_left', 'rotate_right'):
        panics(t, k + f + '[out of range]', m + f, [x, w])
    panics(t, k + 'get_bit[out of range]', m + 'get_bit', [x, w])


def tasks(prog, tier):
    for T in SECRET:
        yield T, t_type, (T,)
        yield T + '-trait', t_trait, (T,)
