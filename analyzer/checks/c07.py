"""BLAKE2b-512 (RFC 7693)."""
from checks.summ import *
EXPLANATION = BASE_EXPL + ' Root: blake2b; message symbolic; lengths around the 128-byte block boundary.'
RULE = 'digest = RFC 7693 BLAKE2b-512 (counter, final flag, padding) for every message of each analysed length'
FLOOR = 30


def t_b(t, n):
    m = V('m', n)
    pure_eq(t, 'blake2b/%d' % n, 'spec::hashes::blake2b', [m], S.blake2b(m))


def t_bs(t, n):
    m = V('m', n)
    summarised(t, 'blake2b/%d/modular' % n, 'spec::hashes::blake2b', [m], lambda: S.blake2b(m), ['blake2b_compress'], n // 128, (t_bs, (130,)))


def tasks(prog, tier):
    for n in ((0, 1, 2, 3, 7, 8, 63, 64, 111, 112, 126, 127, 128, 129, 130, 255, 256, 257, 384, 385) if tier == 'quick' else range(0, 400)):
        yield 'blake2b-%d' % n, t_b, (n,)
    for n in sorted(set(range(0, 260)) | {383, 384, 385, 511, 512, 513, 640, 1000, 1024, 2047, 2048, 4096, 4097, 32768, 33000, 65535, 65536, 65537} | set(lengths(prog, 'spec::hashes::blake2b', 140000))):
        yield 'blake2b-sum-%d' % n, t_bs, (n,)
