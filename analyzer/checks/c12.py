"""Byte order of every integer/byte conversion."""
from checks.ints import *
from shapes import lengths
EXPLANATION = BASE_EXPL + ' Roots: to/from little/big-endian conversions of secret and public integers (slices, words, traits), get_byte, array and sequence conversions.'
RULE = 'graph(code) = byte permutation prescribed by the endianness; wrong lengths are refused'
FLOOR = 700


def ser(xs, w, e):
    return sum([S.to_le(x, w) if e == 'le' else S.to_be(x, w) for x in xs], [])


def de(bs, w, e):
    n = w // 8
    return [(S.le if e == 'le' else S.be)(bs[i:i + n]) for i in range(0, len(bs), n)]


def t_slices(t, T):
    w = width(T)
    for e in ('le', 'be'):
        for n in sorted({0, 1, 2, 3, 5, 33, 130} | set(lengths(t.prog, 'si::%s_::to_%s_bytes' % (T, e), 1200)) | set(lengths(t.prog, 'si::%s_::from_%s_bytes' % (T, e), 1200))):
            xs = V('x', n, w)
            prog_fn(t, '%s/to_%s_bytes[%d]' % (T, e, n), 'si::%s_::to_%s_bytes' % (T, e), [xs], ser(xs, w, e))
            bs = V('b', n * w // 8)
            prog_fn(t, '%s/from_%s_bytes[%d]' % (T, e, n), 'si::%s_::from_%s_bytes' % (T, e), [bs], de(bs, w, e))
        if w > 8:
            for n in (1, w // 8 - 1, w // 8 + 1):
                panics(t, '%s/from_%s_bytes[%d bytes]' % (T, e, n), 'si::%s_::from_%s_bytes' % (T, e), [V('b', n)])


def t_traits(t, T):
    w = width(T)
    x = var('x', w)
    for e in ('le', 'be'):
        prog_fn(t, '%s/seq-to_%s_bytes' % (T, e), 'mi::b_%s::to_%s_bytes' % (T, e), [x], ser([x], w, e))
        bs = V('b', w // 8)
        prog_fn(t, '%s/seq-from_%s_bytes' % (T, e), 'mi::b_%s::from_%s_bytes' % (T, e), [bs], de(bs, w, e))
        if w > 8:
            prog_fn(t, '%s/word-to_%s' % (T, e), 'mi::t_%s::to_%s' % (T, e), [x], ser([x], w, e))
            prog_fn(t, '%s/word-from_%s' % (T, e), 'mi::t_%s::from_%s' % (T, e), [bs], de(bs, w, e))
        panics(t, '%s/seq-from_%s_bytes[long]' % (T, e), 'mi::b_%s::from_%s_bytes' % (T, e), [V('b', w // 8 + 1)])
        panics(t, '%s/seq-from_%s_bytes[empty]' % (T, e), 'mi::b_%s::from_%s_bytes' % (T, e), [[]])
    if T[0] == 'U':
        for i in range(w // 8):
            prog_fn(t, '%s/get_byte[%d]' % (T, i), 'mi::get_byte::%s_' % T, [x, i], [zext(extract(x, w, 8 * i, 8), 8, w)])


def t_arr(t):
    for c, n, w in (('U8', 16, 8), ('U16', 5, 16), ('U32', 5, 32), ('U64', 5, 64), ('U128', 5, 128), ('BothSec', 7, 8), ('LU32', 72, 32), ('LU8', 130, 8)):
        xs = V('x', n, w)
        for e in ('le', 'be'):
            prog_fn(t, '[%s;%d]/to_%s_bytes' % (c, n, e), 'arr::c_%s::to_%s_bytes' % (c, e), [xs], ser(xs, w, e))


def t_words(t, m, n):
    """words of byte arrays; a length that is no multiple of the word size is refused"""
    for w in (32, 64, 128):
        for u in 'Uu':
            for e in ('be', 'le'):
                bs = V('b', n)
                nm, f = '[%s8;%d]/to_%s_%s%ds' % (u, n, e, u, w), 'arr::%s::to_%s_%s%ds' % (m, e, u, w)
                if n % (w // 8):
                    panics(t, nm, f, [bs])
                else:
                    prog_fn(t, nm, f, [bs], de(bs, w, e))


def tasks(prog, tier):
    for T in SECRET:
        yield 'slices-' + T, t_slices, (T,)
    for T in UNS + PUB_U:
        yield 'traits-' + T, t_traits, (T,)
    yield 'arrays', t_arr, ()
    for m, n in (('words', 16), ('words7', 7), ('words20', 20), ('words130', 130), ('words144', 144)):
        yield m, t_words, (m, n)
