from checks.summ import *


def decided(t, key, r, spectag, tag, plain, where):
    """r.ret: Result whose Ok branch is taken exactly on okcond and then holds `plain`; Err otherwise"""
    okcond = alleq(spectag, tag)
    parts = option_parts(r)
    ok, okv, shapes = 0, None, 0
    bad = False
    for c, v, f in parts:
        if v == 0:
            ok = bor(1, ok, c)
            shapes += 1
    t.equal(key + '/accept-condition', [ok], [okcond], where=where, rounds=600, bind=list(zip(tag, spectag)))
    for j, (c, v, f) in enumerate(parts):
        if v == 0:
            got = leaves(r.I, f[0])
            t.equal(key + '/released-plaintext%s' % ('' if shapes == 1 else '.%d' % j), got, plain, ok=c, where=where)
        else:
            # the error value must not depend on the key or the data
            try:
                lv = leaves(r.I, f[0]) if f else []
            except Unsupported:
                lv = []
            t.ok(key + '/error-constant.%d' % j, not support(lv), 'error value depends on %s' % sorted(support(lv))[:4] if lv else '', where)


def alleq(a, b):
    c = 1
    for x, y in zip(a, b):
        c = band(1, c, eq(8, x, y))
    return c


def t_chacha(t, enc, la, lm, setup=None):
    k, iv, a = V('k', 32), V('n', 12), V('a', la)
    root = 'spec::chacha::' + ('encrypt' if enc else 'decrypt')
    w = site(t.prog, root)
    key = 'chacha20poly1305-%s/aad%d/msg%d' % ('encrypt' if enc else 'decrypt', la, lm)
    if enc:
        m = V('m', lm)
        ct = S.chacha_xor(k, 1, iv, m)
        r = t.run(root, [k, iv, a, m], key, setup=setup)
        if r is None:
            return
        t.returns(key + '/total', r)
        ps = option_parts(r)
        if not t.ok(key + '/ok', len(ps) == 1 and ps[0][1] == 0, 'encryption may fail', w):
            return
        ctv, tagv = ps[0][2][0][1]
        t.equal(key + '/ciphertext', leaves(r.I, ctv), ct, ok=r.ok, where=w)
        t.equal(key + '/tag', leaves(r.I, tagv), S.aead_tag(k, iv, a, ct), ok=r.ok, where=w)
    else:
        c, tg = V('c', lm), V('t', 16)
        r = t.run(root, [k, iv, a, c, tg], key, setup=setup)
        if r is None:
            return
        t.returns(key + '/total', r)
        decided(t, key, r, S.aead_tag(k, iv, a, c), tg, S.chacha_xor(k, 1, iv, c), w)


def t_gcm(t, bits, enc, la, lm, setup=None):
    k, iv, a = V('k', bits // 8), V('n', 12), V('a', la)
    root = 'spec::aes::gcm%d_%s' % (bits, 'encrypt' if enc else 'decrypt')
    w = site(t.prog, root)
    key = 'gcm%d-%s/aad%d/msg%d' % (bits, 'encrypt' if enc else 'decrypt', la, lm)
    if enc:
        m = V('m', lm)
        ct = S.aes_ctr(k, iv, 2, m)
        r = t.run(root, [k, iv, a, m], key, setup=setup)
        if r is None:
            return
        t.returns(key + '/total', r)
        ctv, tagv = r.ret[1]
        t.equal(key + '/ciphertext', leaves(r.I, ctv), ct, ok=r.ok, where=w)
        t.equal(key + '/tag', leaves(r.I, tagv), S.gcm_tag(k, iv, a, ct), ok=r.ok, where=w)
    else:
        c, tg = V('c', lm), V('t', 16)
        r = t.run(root, [k, iv, a, c, tg], key, setup=setup)
        if r is None:
            return
        t.returns(key + '/total', r)
        decided(t, key, r, S.gcm_tag(k, iv, a, c), tg, S.aes_ctr(k, iv, 2, c), w)


SHAPES = [(0, 0), (0, 1), (1, 0), (5, 20), (12, 114), (15, 15), (16, 16), (17, 17), (16, 64), (31, 63), (32, 65), (3, 128), (48, 33)]
GSHAPES = [(0, 0), (0, 1), (1, 0), (5, 20), (15, 15), (16, 16), (17, 17), (20, 33)]


def t_chacha_sum(t, enc, la, lm):
    names = ['chacha_block', 'poly1305']
    with_summaries(t, names, lambda t, setup: t_chacha(t, enc, la, lm, setup), (la + lm) // 64, (t_chacha_sum, (enc, 5, 20)))


def t_gcm_sum(t, bits, enc, la, lm):
    with_summaries(t, ['aes_block', 'ghash'], lambda t, setup: t_gcm(t, bits, enc, la, lm, setup), (la + lm) // 8, (t_gcm_sum, (bits, enc, 5, 20)))


# lengths decided with the block functions and the MAC summarised: around 2^8 blocks, 2^13 bytes (2^16 bits) and odd tails
BIG = [(8192, 3), (8197, 40), (3, 64 * 129 + 5), (255, 1000), (256, 4096), (4095, 257), (700, 701)]
GBIG = [(8192, 3), (8197, 40), (3, 16 * 258 + 5), (255, 1000), (256, 4096), (4095, 257), (700, 701), (32, 8192)]
GRID = [(0, m) for m in range(0, 70)] + [(13, m) for m in range(0, 70, 4)] + [(a, 5) for a in range(0, 40)] + [(a, m) for a in (64, 100, 127, 128, 129) for m in (0, 16, 300)]


def near(prog, root):
    """shapes next to the constants in the code below root"""
    out = []
    for n in lengths(prog, root, 70000, range(0, 40)):
        out += [(n, 3), (3, n), (n, n)] if n < 300 else [(n, 3), (3, n)]
    return out


BIG_T = [(65536, 0), (65537, 17), (3, 64 * 257 + 5), (17, 65552)]
