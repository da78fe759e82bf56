"""AES-128/256 block cipher and counter mode (FIPS 197, SP 800-38A)."""
from checks.summ import *
EXPLANATION = BASE_EXPL + ' Roots: aes{128,256}_encrypt_block, aes{128,256}_{encrypt,decrypt} (counter mode) with symbolic key, nonce, counter, data.'
RULE = 'block = FIPS 197 cipher with the S-box derived from field inversion; ctr block i = E(nonce || counter+i)'
FLOOR = 40


def t_block(t, bits):
    k, b = V('k', bits // 8), V('b', 16)
    pure_eq(t, 'block%d' % bits, 'spec::aes::aes%d_encrypt_block' % bits, [k, b], S.aes_block(k, b))


def t_ctr(t, bits, d, n):
    k, iv, c, m = V('k', bits // 8), V('n', 12), var('c', 32), V('m', n)
    pure_eq(t, '%s%d/%d' % (d, bits, n), 'spec::aes::aes%d_%s' % (bits, d), [k, iv, c, m], S.aes_ctr(k, iv, c, m))


def t_ctr_sum(t, bits, d, n, c0=None):
    k, iv, c, m = V('k', bits // 8), V('n', 12), var('c', 32) if c0 is None else c0, V('m', n)
    summarised(t, '%s%d/%d/modular%s' % (d, bits, n, '' if c0 is None else '-from-%x' % c0), 'spec::aes::aes%d_%s' % (bits, d), [k, iv, c, m],
               lambda: S.aes_ctr(k, iv, c, m), ['aes_block'], n // 16, (t_ctr_sum, (bits, d, 33)))


def tasks(prog, tier):
    for b in (128, 256):
        yield 'block%d' % b, t_block, (b,)
        for d in ('encrypt', 'decrypt'):
            for n in ((0, 1, 15, 16, 17, 31, 32, 33, 50) if tier == 'quick' else list(range(0, 68)) + [80, 96, 111]):
                yield '%s%d-%d' % (d, b, n), t_ctr, (b, d, n)
            for n in sorted(set(range(0, 100)) | {255, 256, 257, 1000, 16 * 258 + 5} | set(lengths(prog, 'spec::aes::aes%d_%s' % (b, d), 70000)) | ({65540} if tier == 'thorough' else set())):
                yield '%s%d-sum-%d' % (d, b, n), t_ctr_sum, (b, d, n)
            for c0 in (0, 2, 0xff, 0xffff, 0xffffffff, 0x7fffffff):
                yield '%s%d-from-%x' % (d, b, c0), t_ctr_sum, (b, d, 16 * 258 + 5 if c0 == 0 else 100, c0)
