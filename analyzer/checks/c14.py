"""Arithmetic on arrays and sequences is pointwise."""
from checks.seqs import *
EXPLANATION = BASE_EXPL + ' Roots: + - * / ^ and wrap_* of the ten numeric array types, of public sequences, and vec_poly_{add,sub,mul}; comparisons of public arrays.'
RULE = 'result[i] = x[i] op y[i] in the element type for every i, and the length is that of the operands'
FLOOR = 300


def t_arr(t, s, w, n):
    x, y = V('x', n, w), V('y', n, w)
    m = 'arr::p_%s::' % s
    for f, o in (('add', add), ('sub', sub), ('mul', mul), ('wrap_add', add), ('wrap_sub', sub), ('wrap_mul', mul), ('bitxor', bxor)):
        prog_fn(t, '[%s]/%s' % (s, f), m + f, [x, y], [o(w, a, b) for a, b in zip(x, y)])


def conj(x, y, w):
    e = 1
    for a, b in zip(x, y):
        e = band(1, e, eq(w, a, b))
    return e


def t_pub(t, s, w, n):
    """equality, order and division of public arrays"""
    x, y = V('x', n, w), V('y', n, w)
    q = 'arr::q_%s::' % s
    e = conj(x, y, w)
    prog_fn(t, '[%s]/eq' % s, q + 'eq', [x, y], [e])
    prog_fn(t, '[%s]/ne' % s, q + 'ne', [x, y], [bnot(1, e)])
    nz = 1
    for b in y:
        nz = band(1, nz, bnot(1, eq(w, b, 0)))
    if n <= 20:
        prog_fn(t, '[%s]/div' % s, q + 'div', [x, y], [udiv(w, a, b) for a, b in zip(x, y)], ok=nz)
    o = 0
    for a, b in list(zip(x, y))[::-1]:
        o = ite(ult(w, a, b), 8, 0xff, ite(ult(w, b, a), 8, 1, o))
    prog_fn(t, '[%s]/cmp' % s, q + 'cmp', [x, y], [o])
    prog_fn(t, '[%s]/partial_cmp' % s, q + 'partial_cmp', [x, y], [o])


def t_seceq(t, s, w, n):
    x, y = V('x', n, w), V('y', n, w)
    prog_fn(t, '[%s]/declassify_eq' % s, 'arr::c_%s::declassify_eq' % s, [x, y], [conj(x, y, w)])


def t_seqeq(t, n, n2):
    x, y = V('x', n), V('y', n2)
    prog_fn(t, 'Seq<U8>/eq[%d,%d]' % (n, n2), 'arr::seqx::eq', [x, y], [conj(x, y, 8) if n == n2 else 0])


def t_seq(t, n, n2):
    w = 32
    x, y = V('x', n, w), V('y', n2, w)
    for f, o in (('add', add), ('sub', sub), ('mul', mul), ('bitxor', bxor)):
        fn_(t, 'PublicSeq/%s[%d,%d]' % (f, n, n2), 'arr::seqx::p_' + f, [x, y], [o(w, a, b) for a, b in zip(x, y)] if n == n2 else None)
    for f, o in (('add', add), ('sub', sub), ('mul', mul)):
        fn_(t, 'vec_poly_%s[%d,%d]' % (f, n, n2), 'arr::seqx::vec_poly_' + f, [x, y, 0], [o(w, a, b) for a, b in zip(x, y)] if n == n2 else None)
    if n == n2:
        q = 13
        x, y = [urem(w, a, q) for a in x], [urem(w, a, q) for a in y]
        for f, o in (('add', zadd), ('sub', zsub), ('mul', zmul)):
            prog_fn(t, 'vec_poly_%s[%d mod %d]' % (f, n, q), 'arr::seqx::vec_poly_' + f, [x, y, q],
                    [bvz(zmodf(o(zu(a, w), zu(b, w)), q), w) for a, b in zip(x, y)])


def tasks(prog, tier):
    for s, w, n in ARR[:10] + LARR:
        yield 'arr-' + s, t_arr, (s, w, n)
    more = set(lengths(prog, 'arr::seqx::p_add', 1200)) | set(lengths(prog, 'arr::seqx::vec_poly_add', 1200)) | set(lengths(prog, 'arr::seqx::vec_poly_mul', 1200))
    for n in sorted(set(range(0, 6)) | {16, 17, 70, 257} | more):
        yield 'seq-%d' % n, t_seq, (n, n)
    for n, k in ((0, 1), (1, 0), (3, 4), (4, 3), (2, 5)):
        yield 'seq-%d-%d' % (n, k), t_seq, (n, k)
    for s, w, n in [a for a in ARR[:10] if a[0][0] == 'u'] + [('Lu8', 8, 300), ('One', 64, 1), ('w20', 8, 20), ('w130', 8, 130)]:
        yield 'pub-' + s, t_pub, (s, w, n)
    for s, w, n in [a for a in ARR[:10] if a[0][0] == 'U'] + [('BothSec', 8, 7), ('B7', 8, 7), ('LU32', 32, 72), ('LU8', 8, 130)]:
        yield 'sec-' + s, t_seceq, (s, w, n)
    for n in sorted(set(range(5)) | {16, 17, 33, 64, 65, 130, 257} | set(lengths(prog, 'arr::seqx::eq', 1200))):
        yield 'eq-%d' % n, t_seqeq, (n, n)
    for n, k in ((0, 1), (1, 0), (3, 4), (4, 3), (16, 32), (64, 65), (65, 64), (0, 64)):
        yield 'eq-%d-%d' % (n, k), t_seqeq, (n, k)
