"""SHA-3 and SHAKE (FIPS 202)."""
from checks.summ import *
EXPLANATION = BASE_EXPL + ' Roots: sha3{224,256,384,512}, shake{128,256}; message symbolic; lengths around each rate, output lengths around each squeeze block.'
RULE = 'output = sponge[Keccak-f[1600], pad10*1] with the prescribed rate, suffix and length'
FLOOR = 80
H = {'sha3224': (144, 28), 'sha3256': (136, 32), 'sha3384': (104, 48), 'sha3512': (72, 64)}


def t_h(t, nm, n):
    r, l = H[nm]
    m = V('m', n)
    pure_eq(t, '%s/%d' % (nm, n), 'spec::hashes::' + nm, [m], S.keccak(r, m, 6, l))


def t_x(t, nm, n, l):
    r = {'shake128': 168, 'shake256': 136}[nm]
    m = V('m', n)
    pure_eq(t, '%s/msg%d/out%d' % (nm, n, l), 'spec::hashes::' + nm, [m, l], S.keccak(r, m, 0x1f, l))


def t_hs(t, nm, n):
    r, l = H[nm]
    m = V('m', n)
    summarised(t, '%s/%d' % (nm, n), 'spec::hashes::' + nm, [m], lambda: S.keccak(r, m, 6, l), ['keccak_f'], n // r, (t_hs, (nm, r + 3)))


def t_xs(t, nm, n, l):
    r = {'shake128': 168, 'shake256': 136}[nm]
    m = V('m', n)
    summarised(t, '%s/msg%d/out%d' % (nm, n, l), 'spec::hashes::' + nm, [m, l], lambda: S.keccak(r, m, 0x1f, l), ['keccak_f'], n // r + l // r, (t_xs, (nm, r + 3, r + 1)))


def tasks(prog, tier):
    q = tier == 'quick'
    for nm, (r, _) in H.items():
        for n in ((0, 1, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r) if q else range(0, 2 * r + 3)):
            yield '%s-%d' % (nm, n), t_h, (nm, n)
    for nm, r in (('shake128', 168), ('shake256', 136)):
        for n, l in ([(0, 32), (1, r), (r - 1, r + 1), (r, r - 1), (r + 1, 2 * r), (5, 2 * r + 1), (2 * r - 1, 1), (7, 0), (200, 64)] if q else
                     [(n, l) for n in (0, 1, 7, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1) for l in (0, 1, 32, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r)]):
            yield '%s-%d-%d' % (nm, n, l), t_x, (nm, n, l)
    for nm, (r, _) in H.items():
        for n in sorted(set(range(0, 2 * r + 2)) | {3 * r - 1, 3 * r, 4 * r + 1, 255, 256, 257, 7 * r + 3, 1023, 1024, 1025, 4096} | set(lengths(prog, 'spec::hashes::' + nm.replace('-', ''), 20000)) | ({260 * r - 1} if not q else set())):
            yield '%s-sum-%d' % (nm, n), t_hs, (nm, n)
    for nm, r in (('shake128', 168), ('shake256', 136)):
        near = lengths(prog, 'spec::hashes::' + nm, 20000)
        for x in near:
            yield '%s-sum-%d-40' % (nm, x), t_xs, (nm, x, 40)
            yield '%s-sum-3-%d' % (nm, x), t_xs, (nm, 3, x)
        for n in (0, 1, 7, r - 1, r, r + 1, 2 * r, 5 * r - 1):
            for l in (0, 1, 7, 8, 31, 32, 33, 64, 255, 256, 257, r - 8, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r, 1000, 9 * r + 3):
                yield '%s-sum-%d-%d' % (nm, n, l), t_xs, (nm, n, l)
        yield '%s-sum-long' % nm, t_xs, (nm, 1, 20 * r + 9 if q else 260 * r + 9)
