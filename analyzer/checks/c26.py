"""X25519 (RFC 7748)."""
from checks.common import *
EXPLANATION = BASE_EXPL + (' Roots: scalarmult and secret_to_public with every scalar and point byte symbolic (2^512 pairs); all ladder steps are interpreted, joined after every '
                           'conditional swap. The minimal byte string of the result is analysed by cases on its length.')
RULE = 'bytes(scalarmult(s, u)) = x2 * z2^(p-2) mod p after the RFC 7748 section 5 ladder on clamp(s) and u mod 2^255'
FLOOR = 8
LIMIT = 800
LIMIT_T = 3000


def clamp(k):
    """bits 0..254 of the clamped scalar"""
    b = [extract(k[i // 8], 8, i % 8, 1) for i in range(255)]
    b[0] = b[1] = b[2] = 0
    b[254] = 1
    return b


def want(k, u):
    F = S.Field(S.P25519)
    z = zmodf(zu(cat([(extract(u[31], 8, 0, 7), 0, 7)] + [(x, 0, 8) for x in reversed(u[:31])]), 255), S.P25519) if type(u) is list else u
    return S.ladder_x25519(F, clamp(k), z)


def t_mult(t, n, base):
    k = V('k', 32)
    u = 9 if base else V('u', 32)
    nm = ('secret_to_public' if base else 'scalarmult') + '/len%d' % n
    root = 'spec::ecc::x25519_base' if base else 'spec::ecc::x25519'
    seen = []

    def setup(I):
        I.split_len = n
        seen.append(I)
    r = t.run(root, [k] if base else [k, u], nm, setup=setup)
    if r is None:
        return
    t.returns(nm + '/total', r)
    if r.ret is None:
        return t.ok(nm, False, 'never returns', root)
    z = want(k, u)
    if not seen[0].split_seen:
        n = 32
    b = bvz(z, 256)
    w = [extract(b, 256, 8 * i, 8) for i in range(n)] + [0] * (32 - n)
    t.equal(nm, leaves(r.I, r.ret), w, ok=r.ok, where=site(t.prog, root))
    t.count('ladder steps interpreted', 256)


# the points of small order (and their unreduced representations): every clamped scalar maps them to 0
O8 = 0x57119fd0dd4e22d8868e1c58c45c44045bef839c55b1d0b1248c50a3bc959c5f
O8B = 39382357235489614581723060781553021112529911719440698176882885853963445705823
LOW = {'0': 0, '1': 1, 'p-1': S.P25519 - 1, 'order8': O8, 'order8b': O8B, 'p': S.P25519, 'p+1': S.P25519 + 1, '1+2^255': 1 + (1 << 255)}


def t_low(t, nm):
    k = V('k', 32)
    u = [LOW[nm] >> 8 * i & 255 for i in range(32)]

    def setup(I):
        I.split_len = 32
    key = 'small-order/' + nm
    r = t.run('spec::ecc::x25519', [k, u], key, setup=setup)
    if r is None:
        return
    t.returns(key + '/total', r)
    if r.ret is None:
        return t.ok(key, False, 'never returns')
    t.equal(key, leaves(r.I, r.ret), [0] * 32, ok=r.ok, where=site(t.prog, 'spec::ecc::x25519'))


def tasks(prog, tier):
    for nm in LOW if tier != 'quick' else ('0', '1', 'p-1', 'order8', '1+2^255'):
        yield 'low-' + nm, t_low, (nm,)
    for n in ((32, 31, 1) if tier == 'quick' else range(32, 0, -1)):
        yield 'mult%d' % n, t_mult, (n, False)
    yield 'base32', t_mult, (32, True)
    if tier != 'quick':
        yield 'base31', t_mult, (31, True)
