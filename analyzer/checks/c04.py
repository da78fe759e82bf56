"""AEAD encryption: keystream position, one-time MAC key and MAC input."""
from checks.aead import *
EXPLANATION = BASE_EXPL + ' Roots: the three AEAD encryption entry points, plus chacha() and gmac(), over a set of (aad, message) lengths around the block sizes.'
RULE = 'ciphertext = msg xor keystream from the prescribed block on; tag = MAC over pad16(aad)||pad16(ct)||len||len under the prescribed key'
FLOOR = 80


def t_stream(t, n, setup=None):
    k, iv, m = V('k', 32), V('n', 12), V('m', n)
    key = 'chacha/%d' % n
    r = t.run('spec::chacha::chacha', [k, iv, m], key, setup=setup)
    if r is None:
        return
    t.returns(key + '/total', r)
    ps = option_parts(r)
    if t.ok(key + '/ok', len(ps) == 1 and ps[0][1] == 0, 'may fail'):
        t.equal(key, leaves(r.I, ps[0][2][0]), S.chacha_xor(k, 1, iv, m), ok=r.ok, where=site(t.prog, r.root))


def t_stream_sum(t, n):
    with_summaries(t, ['chacha_block'], lambda t, setup: t_stream(t, n, setup), n // 64, (t_stream_sum, (70,)))


def t_gmac(t, n):
    m, k = V('m', n), V('k', 16)
    pure_eq(t, 'gmac/%d' % n, 'spec::aes::gmac', [m, k], S.ghash(m, k))


def tasks(prog, tier):
    for la, lm in (SHAPES if tier == 'quick' else SHAPES + [(a, m) for a in range(0, 34, 3) for m in (2, 62, 66, 130)]):
        yield 'cp-%d-%d' % (la, lm), t_chacha, (True, la, lm)
    for b in (128, 256):
        for la, lm in (GSHAPES if tier == 'quick' else GSHAPES + [(33, 64), (0, 48), (64, 0), (13, 47)]):
            yield 'gcm%d-%d-%d' % (b, la, lm), t_gcm, (b, True, la, lm)
    for n in (0, 1, 63, 64, 65, 127, 128, 129, 200):
        yield 'chacha-%d' % n, t_stream, (n,)
    for n in (0, 1, 15, 16, 17, 32, 47, 48):
        yield 'gmac-%d' % n, t_gmac, (n,)
    for la, lm in sorted(set(GRID + near(prog, 'spec::chacha::encrypt'))):
        yield 'cp-sum-%d-%d' % (la, lm), t_chacha_sum, (True, la, lm)
    for la, lm in BIG + (BIG_T if tier == 'thorough' else []):
        yield 'cp-big-%d-%d' % (la, lm), t_chacha_sum, (True, la, lm)
    for b in (128, 256):
        for la, lm in sorted(set(GRID + near(prog, 'spec::aes::gcm%d_encrypt' % b))):
            yield 'gcm%d-sum-%d-%d' % (b, la, lm), t_gcm_sum, (b, True, la, lm)
        for la, lm in GBIG + (BIG_T if tier == 'thorough' else []):
            yield 'gcm%d-big-%d-%d' % (b, la, lm), t_gcm_sum, (b, True, la, lm)
    for n in sorted({64 * 257 + 5, 64 * 66} | set(range(0, 140, 3)) | set(lengths(prog, 'spec::chacha::chacha', 70000))):
        yield 'chacha-big-%d' % n, t_stream_sum, (n,)
    for n in sorted({1040, 1041} | set(range(49, 68)) | set(lengths(prog, 'spec::aes::gmac', 5000, range(50))) | ({4096, 4101} if tier != 'quick' else set())):
        yield 'gmac-%d' % n, t_gmac, (n,)
