"""Poly1305 (RFC 8439 2.5, 2.6)."""
from checks.common import *
EXPLANATION = BASE_EXPL + ' Roots: poly and poly_mac for every message length of the listed set (all lengths modulo 16 occur); key and message bytes symbolic.'
RULE = 'tag = ((clamp(r)-polynomial of the 1-extended blocks mod 2^130-5) + s) mod 2^128'
LENS = list(range(0, 36)) + [47, 48, 49, 64, 65, 100, 128, 255, 256, 257, 512, 1031]
FLOOR = 80


def t_poly(t, n):
    m, k = V('m', n), V('k', 32)
    pure_eq(t, 'poly/%d' % n, 'spec::chacha::poly', [m, k], S.poly1305(m, k))


def t_mac(t, n):
    m, k, iv = V('m', n), V('k', 32), V('n', 12)
    otk = S.chacha_block(k, 0, iv)[:32]
    pure_eq(t, 'poly_mac/%d' % n, 'spec::chacha::poly_mac', [m, k, iv], S.poly1305(m, otk))


def tasks(prog, tier):
    lens = LENS if tier == 'quick' else list(range(0, 200)) + [255, 256, 257, 320, 512, 1024, 2048, 4097]
    for n in sorted(set(lens) | set(lengths(prog, 'spec::chacha::poly', 5000, lens))):
        yield 'poly%d' % n, t_poly, (n,)
    for n in (0, 1, 16, 33):
        yield 'mac%d' % n, t_mac, (n,)
