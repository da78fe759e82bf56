"""SHA-256, HMAC-SHA256, HKDF-SHA256."""
from checks.summ import *
EXPLANATION = BASE_EXPL + ' Roots: sha2::hash, hmac::hmac, hkdf::extract, hkdf::expand; message bytes symbolic, lengths around every padding boundary.'
RULE = 'digest/tag/output = FIPS 180-4, RFC 2104, RFC 5869 graph for every input of each analysed length'
FLOOR = 70


def t_sha(t, n):
    m = V('m', n)
    pure_eq(t, 'sha256/%d' % n, 'spec::hashes::sha256', [m], S.sha256(m))


def t_hmac(t, k, n):
    a, b = V('k', k), V('m', n)
    pure_eq(t, 'hmac/key%d/msg%d' % (k, n), 'spec::hashes::hmac_', [a, b], S.hmac(a, b))


def t_ext(t, k, n):
    a, b = V('s', k), V('i', n)
    pure_eq(t, 'hkdf_extract/salt%d/ikm%d' % (k, n), 'spec::hashes::hkdf_extract', [a, b], S.hkdf_extract(a, b))


def t_exp(t, k, n, l):
    a, b = V('p', k), V('i', n)
    pure_eq(t, 'hkdf_expand/info%d/len%d' % (n, l), 'spec::hashes::hkdf_expand', [a, b, l], S.hkdf_expand(a, b, l))


def t_max(t, l, must):
    """output lengths at the 255-block limit, with the inner MAC summarised (decided by the hmac obligations)"""
    p, i = V('p', 32), V('i', 2)
    key = 'hkdf_expand/limit/len%d' % l

    def body(t, setup):
        r = t.run('spec::hashes::hkdf_expand', [p, i, l], key, setup=setup)
        if r is None:
            return
        if must:
            t.returns(key + '/total', r)
            if r.ret is not None:
                t.equal(key, leaves(r.I, r.ret), S.hkdf_expand(p, i, l))
        else:
            t.ok(key + '/refused', r.ret is None, 'more than 255 blocks accepted', site(t.prog, r.root))
    with_summaries(t, ['hmac'], body, 1000, (t_exp_sum, (32, 2, 33)))


def t_sha_sum(t, n):
    m = V('m', n)
    summarised(t, 'sha256/%d/modular' % n, 'spec::hashes::sha256', [m], lambda: S.sha256(m), ['sha256_compress'], n // 64, (t_sha_sum, (70,)))


def t_hmac_sum(t, k, n):
    a, b = V('k', k), V('m', n)
    summarised(t, 'hmac/key%d/msg%d/modular' % (k, n), 'spec::hashes::hmac_', [a, b], lambda: S.hmac(a, b), ['sha256'], (k + n) // 64, (t_hmac_sum, (k if k <= 64 else 65, 3)))


def t_ext_sum(t, k, n):
    a, b = V('s', k), V('i', n)
    summarised(t, 'hkdf_extract/salt%d/ikm%d/modular' % (k, n), 'spec::hashes::hkdf_extract', [a, b], lambda: S.hkdf_extract(a, b), ['hmac'], (k + n) // 64, (t_ext_sum, (8, 3)))


def t_exp_sum(t, k, n, l):
    a, b = V('p', k), V('i', n)
    summarised(t, 'hkdf_expand/prk%d/info%d/len%d/modular' % (k, n, l), 'spec::hashes::hkdf_expand', [a, b, l], lambda: S.hkdf_expand(a, b, l), ['hmac'] if l else [], l // 8 + n // 64, (t_exp_sum, (32, 3, 33)))


def tasks(prog, tier):
    q = tier == 'quick'
    lens = [0, 1, 3, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 183, 192]
    for n in (lens if q else range(0, 260)):
        yield 'sha-%d' % n, t_sha, (n,)
    for k, n in ([(0, 0), (0, 3), (20, 8), (32, 56), (63, 1), (64, 64), (65, 10), (131, 54)] if q else
                 [(k, n) for k in (0, 1, 20, 32, 63, 64, 65, 100, 127, 128, 131) for n in (0, 1, 8, 54, 55, 56, 63, 64, 65, 120)]):
        yield 'hmac-%d-%d' % (k, n), t_hmac, (k, n)
    for k, n in [(0, 22), (13, 22), (80, 80), (64, 0), (32, 64)]:
        yield 'ext-%d-%d' % (k, n), t_ext, (k, n)
    for n, l in [(0, 0), (0, 1), (10, 31), (10, 32), (10, 33), (0, 42), (23, 64), (22, 65), (80, 82)]:
        yield 'exp-%d-%d' % (n, l), t_exp, (32, n, l)
    for l in (([8160] if q else [8129, 8160])):
        yield 'max-%d' % l, t_max, (l, True)
    for l in (([8161] if q else [8161, 8192, 8193])):
        yield 'over-%d' % l, t_max, (l, False)
    for n in sorted(set(range(0, 200)) | {255, 256, 257, 511, 512, 513, 575, 576, 8191, 8192, 8193, 64 * 257 + 5, 65536} | set(lengths(prog, 'spec::hashes::sha256', 100000))):
        yield 'sha-sum-%d' % n, t_sha_sum, (n,)
    kn = set(range(0, 70)) | {127, 128, 129, 255, 256, 257, 1000}
    near = lengths(prog, 'spec::hashes::hmac_', 70000, kn)
    for k in near:
        yield 'hmac-sum-20-%d' % k, t_hmac_sum, (20, k)
        yield 'ext-sum-20-%d' % k, t_ext_sum, (20, k)
        yield 'ext-sum-%d-20' % k, t_ext_sum, (k, 20)
        yield 'exp-sum-32-%d-40' % k, t_exp_sum, (32, k, 40)
        if k <= 8160:
            yield 'exp-sum-32-3-%d' % k, t_exp_sum, (32, 3, k)
    for k in sorted(kn | set(near)):
        for n in (0, 1, 64, 300):
            yield 'hmac-sum-%d-%d' % (k, n), t_hmac_sum, (k, n)
    for k, n in ((0, 0), (1, 5), (31, 3), (32, 64), (33, 1000), (64, 3), (65, 7), (300, 300)):
        yield 'ext-sum-%d-%d' % (k, n), t_ext_sum, (k, n)
    for l in list(range(1, 100)) + [127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 4096, 8100, 8128, 8129, 8159, 8160]:
        for k, n in ((32, 0), (32, 10), (64, 300)) if l % 16 < 2 else ((32, 10),):
            yield 'exp-sum-%d-%d-%d' % (k, n, l), t_exp_sum, (k, n, l)
