"""ChaCha20 keystream block (RFC 8439 2.1-2.3)."""
from checks.common import *
EXPLANATION = BASE_EXPL + ' Roots: quarter_round for every index pattern used, block_init, block_inner, block, state_to_bytes.'
RULE = 'graph(code) = graph(RFC 8439 2.1-2.3), all key/counter/nonce bits symbolic'
FLOOR = 30


def t_qr(t, idx):
    s = V('s', 16, 32)
    pure_eq(t, 'quarter_round%s' % (idx,), 'spec::chacha::quarter_round', list(idx) + [s], S.qr(s, *idx))


def t_init(t):
    k, c, n = V('k', 32), var('c', 32), V('n', 12)
    st = S.chacha_init(k, c, n)
    pure_eq(t, 'block_init', 'spec::chacha::block_init', [k, c, n], st)


def t_inner(t):
    k, c, n = V('k', 32), var('c', 32), V('n', 12)
    pure_eq(t, 'block_inner', 'spec::chacha::block_inner', [k, c, n], S.chacha_inner(S.chacha_init(k, c, n)))


def t_block(t):
    k, c, n = V('k', 32), var('c', 32), V('n', 12)
    pure_eq(t, 'block', 'spec::chacha::block', [k, c, n], S.chacha_block(k, c, n))


def t_ser(t):
    s = V('s', 16, 32)
    pure_eq(t, 'state_to_bytes', 'spec::chacha::state_to_bytes', [s], sum([S.to_le(x, 32) for x in s], []))


def tasks(prog, tier):
    for i in range(4):
        yield 'qr-col%d' % i, t_qr, ((i, 4 + i, 8 + i, 12 + i),)
        yield 'qr-diag%d' % i, t_qr, ((i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4),)
    for idx in ((3, 2, 1, 0), (15, 0, 7, 9), (5, 11, 2, 14)):
        yield 'qr%s' % (idx,), t_qr, (idx,)
    yield 'init', t_init, ()
    yield 'inner', t_inner, ()
    yield 'block', t_block, ()
    yield 'ser', t_ser, ()
