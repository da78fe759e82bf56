"""Specifications as value graphs: each function builds, from the term algebra, the value the standard prescribes.
Written from the standards (RFC 8439, FIPS 180-4, RFC 2104, RFC 5869, FIPS 202, RFC 7693, FIPS 197, SP 800-38D, RFC 7748);
applied to integers they evaluate, which ref/selftest.py uses against published vectors."""
from terms import *


def le(bs):
    """little-endian bytes -> word"""
    return cat([(b, 0, 8) for b in reversed(bs)])


def be(bs):
    return cat([(b, 0, 8) for b in bs])


def to_le(x, w):
    return [extract(x, w, 8 * i, 8) for i in range(w // 8)]


def to_be(x, w):
    return to_le(x, w)[::-1]


def zle(bs):
    return zu(le(bs), 8 * len(bs))


# ---------------------------------------------------------------- ChaCha20 (RFC 8439 2.1-2.4)
def qr(s, a, b, c, d):
    s = list(s)
    for x, y, z, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
        s[x] = add(32, s[x], s[y])
        s[z] = rotl(32, bxor(32, s[z], s[x]), r)
    return s


def chacha_init(key, ctr, nonce):
    return [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + [le(key[4 * i:4 * i + 4]) for i in range(8)] + [ctr] + [
        le(nonce[4 * i:4 * i + 4]) for i in range(3)]


def chacha_inner(st):
    s = st
    for _ in range(10):
        for i in range(4):
            s = qr(s, i, 4 + i, 8 + i, 12 + i)
        for i in range(4):
            s = qr(s, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [add(32, a, b) for a, b in zip(s, st)]


def chacha_block(key, ctr, nonce):
    out = []
    for x in chacha_inner(chacha_init(key, ctr, nonce)):
        out += to_le(x, 32)
    return out


def chacha_xor(key, ctr, nonce, msg):
    out = []
    for j in range((len(msg) + 63) // 64):
        ks = chacha_block(key, add(32, ctr, j), nonce)
        out += [bxor(8, m, k) for m, k in zip(msg[64 * j:64 * j + 64], ks)]
    return out


# ---------------------------------------------------------------- Poly1305 (RFC 8439 2.5)
P1305 = (1 << 130) - 5


def poly1305_acc(msg, r16):
    r = zu(band(128, le(r16), 0x0ffffffc0ffffffc0ffffffc0fffffff), 128)
    a = 0
    for i in range(0, len(msg), 16):
        blk = msg[i:i + 16]
        n = zadd(zle(blk), 1 << (8 * len(blk)))
        a = zmodf(zmul(zmodf(zadd(a, n), P1305), r), P1305)
    return a


def poly1305(msg, key):
    a = poly1305_acc(msg, key[:16])
    t = bvz(zadd(a, zle(key[16:32])), 128)
    return to_le(t, 128)


def aead_mac_data(aad, ct):
    def pad(n):
        return [0] * (-n % 16)
    return aad + pad(len(aad)) + ct + pad(len(ct)) + to_le(len(aad), 64) + to_le(len(ct), 64)


def aead_tag(key, nonce, aad, ct):
    otk = chacha_block(key, 0, nonce)[:32]
    return poly1305(aead_mac_data(aad, ct), otk)


# ---------------------------------------------------------------- AES (FIPS 197)
def gmul_c(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def _sbox():
    out = []
    for x in range(256):
        inv = 0
        if x:
            inv = next(y for y in range(1, 256) if gmul_c(x, y) == 1)
        r = 0x63
        for i in range(5):
            r ^= ((inv << i) | (inv >> (8 - i))) & 0xff
        out.append(r)
    return tuple(out)


SBOX = _sbox()


def sub(x):
    return sel(SBOX, 8, zext(x, 8, 64), 64)


def xt(x):
    return bxor(8, shl(8, x, 1), mul(8, lshr(8, x, 7), 0x1b))


def key_expansion(key, nk, nr):
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = [sub(x) for x in t[1:] + t[:1]]
            t = [bxor(8, t[0], rc)] + t[1:]
            rc = gmul_c(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = [sub(x) for x in t]
        w.append([bxor(8, a, b) for a, b in zip(w[i - nk], t)])
    return w


def aes_block(key, blk):
    nk = len(key) // 4
    nr = nk + 6
    w = key_expansion(key, nk, nr)

    def ark(s, r):
        k = sum(w[4 * r:4 * r + 4], [])
        return [bxor(8, a, b) for a, b in zip(s, k)]
    s = ark(blk, 0)
    for r in range(1, nr + 1):
        s = [sub(x) for x in s]
        s = [s[4 * ((c + i) % 4) + i] for c in range(4) for i in range(4)]
        if r != nr:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for i in range(4):
                    p, q, u, v = a[i], a[(i + 1) % 4], a[(i + 2) % 4], a[(i + 3) % 4]
                    # 2p ^ 3q ^ u ^ v
                    o.append(bxor(8, xt(bxor(8, p, q)), q, u, v))
            s = o
        s = ark(s, r)
    return s


def aes_ctr(key, nonce, ctr, msg):
    out = []
    for j in range((len(msg) + 15) // 16):
        ks = aes_block(key, nonce + to_be(add(32, ctr, j), 32))
        out += [bxor(8, m, k) for m, k in zip(msg[16 * j:16 * j + 16], ks)]
    return out


# ---------------------------------------------------------------- GCM (SP 800-38D)
R128 = 0xE1 << 120


def gf_mul(x, y):
    """bit-serial multiplication in GF(2^128), algorithm 1 of SP 800-38D: sum over the bits of y"""
    z = 0
    v = x
    for i in range(128):
        b = extract(y, 128, 127 - i, 1)
        z = ite(b, 128, bxor(128, z, v), z)
        low = extract(v, 128, 0, 1)
        v = ite(low, 128, bxor(128, lshr(128, v, 1), R128), lshr(128, v, 1))
    return z


def ghash(data, h16):
    h = be(h16)
    y = 0
    for i in range(0, len(data), 16):
        blk = data[i:i + 16]
        blk = blk + [0] * (16 - len(blk))
        y = gf_mul(bxor(128, be(blk), y), h)
    return to_be(y, 128)


def gcm_mac_data(aad, ct):
    def pad(n):
        return [0] * (-n % 16)
    return aad + pad(len(aad)) + ct + pad(len(ct)) + to_be(8 * len(aad), 64) + to_be(8 * len(ct), 64)


def gcm_tag(key, nonce, aad, ct):
    h = aes_block(key, [0] * 16)
    s = ghash(gcm_mac_data(aad, ct), h)
    e = aes_block(key, nonce + [0, 0, 0, 1])
    return [bxor(8, a, b) for a, b in zip(s, e)]


# ---------------------------------------------------------------- SHA-256 (FIPS 180-4)
def _primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _icbrt(n):
    lo, hi = 0, 1 << 64
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


def _isqrt(n):
    import math
    return math.isqrt(n)


K256 = [_icbrt(p << 96) & 0xffffffff for p in _primes(64)]
H256 = [_isqrt(p << 64) & 0xffffffff for p in _primes(8)]
H512 = [_isqrt(p << 128) & 0xffffffffffffffff for p in _primes(8)]


def sha256_compress(h, blk):
    w = [be(blk[4 * i:4 * i + 4]) for i in range(16)]
    r = lambda x, n: rotr(32, x, n)
    for t in range(16, 64):
        s0 = bxor(32, r(w[t - 15], 7), r(w[t - 15], 18), lshr(32, w[t - 15], 3))
        s1 = bxor(32, r(w[t - 2], 17), r(w[t - 2], 19), lshr(32, w[t - 2], 10))
        w.append(add(32, s1, w[t - 7], s0, w[t - 16]))
    a, b, c, d, e, f, g, hh = h
    for t in range(64):
        S1 = bxor(32, r(e, 6), r(e, 11), r(e, 25))
        ch = bxor(32, band(32, e, f), band(32, bnot(32, e), g))
        t1 = add(32, hh, S1, ch, K256[t], w[t])
        S0 = bxor(32, r(a, 2), r(a, 13), r(a, 22))
        maj = bxor(32, band(32, a, b), band(32, a, c), band(32, b, c))
        t2 = add(32, S0, maj)
        a, b, c, d, e, f, g, hh = add(32, t1, t2), a, b, c, add(32, d, t1), e, f, g
    return [add(32, x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]


def sha256(msg):
    n = len(msg)
    m = list(msg) + [0x80]
    m += [0] * (-(len(m) + 8) % 64) + to_be(8 * n, 64)
    h = list(H256)
    for i in range(0, len(m), 64):
        h = sha256_compress(h, m[i:i + 64])
    return sum([to_be(x, 32) for x in h], [])


def hmac(key, txt):
    if len(key) > 64:
        key = sha256(key)
    k = list(key) + [0] * (64 - len(key))
    inner = sha256([bxor(8, x, 0x36) for x in k] + list(txt))
    return sha256([bxor(8, x, 0x5c) for x in k] + inner)


def hkdf_extract(salt, ikm):
    return hmac(salt if salt else [0] * 32, ikm)


def hkdf_expand(prk, info, n):
    t, out, i = [], [], 1
    while len(out) < n:
        t = hmac(prk, t + list(info) + [i])
        out += t
        i += 1
    return out[:n]


# ---------------------------------------------------------------- SHA-3 (FIPS 202)
def _rc():
    out = []
    lfsr = 1
    for _ in range(24):
        rc = 0
        for j in range(7):
            if lfsr & 1:
                rc |= 1 << ((1 << j) - 1)
            lfsr = (lfsr << 1) ^ (0x171 if lfsr & 0x80 else 0)
        out.append(rc)
    return out


RC = _rc()


def keccak_f(a):
    for rnd in range(24):
        c = [bxor(64, *[a[x + 5 * y] for y in range(5)]) for x in range(5)]
        d = [bxor(64, c[(x - 1) % 5], rotl(64, c[(x + 1) % 5], 1)) for x in range(5)]
        a = [bxor(64, a[x + 5 * y], d[x]) for y in range(5) for x in range(5)]
        b = [0] * 25
        x, y = 1, 0
        b[0] = a[0]
        for t in range(24):
            b[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(64, a[x + 5 * y], ((t + 1) * (t + 2) // 2) % 64)
            x, y = y, (2 * x + 3 * y) % 5
        a = [bxor(64, b[x + 5 * y], band(64, bnot(64, b[(x + 1) % 5 + 5 * y]), b[(x + 2) % 5 + 5 * y])) for y in range(5) for x in range(5)]
        a[0] = bxor(64, a[0], RC[rnd])
    return a


def keccak(rate, msg, suffix, outlen):
    m = list(msg) + [suffix] + [0] * (-(len(msg) + 1) % rate)
    m[-1] = m[-1] ^ 0x80 if type(m[-1]) is int else bxor(8, m[-1], 0x80)
    a = [0] * 25
    for i in range(0, len(m), rate):
        for j in range(rate // 8):
            a[j] = bxor(64, a[j], le(m[i + 8 * j:i + 8 * j + 8]))
        a = keccak_f(a)
    out = []
    while True:
        for j in range(rate // 8):
            out += to_le(a[j], 64)
        if len(out) >= outlen:
            return out[:outlen]
        a = keccak_f(a)


# ---------------------------------------------------------------- BLAKE2b-512 unkeyed (RFC 7693)
def _sigma():
    base = [list(range(16)),
            [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3], [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
            [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8], [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
            [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9], [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
            [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10], [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
            [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]
    return base


SIGMA = _sigma()


def blake2b_compress(h, b, t, last):
    m = [le(b[8 * i:8 * i + 8]) for i in range(16)]
    v = list(h) + list(H512)
    v[12] = bxor(64, v[12], t[0])
    v[13] = bxor(64, v[13], t[1])
    if last:
        v[14] ^= ones(64)

    def G(a, b_, c, d, x, y):
        v[a] = add(64, v[a], v[b_], x)
        v[d] = rotr(64, bxor(64, v[d], v[a]), 32)
        v[c] = add(64, v[c], v[d])
        v[b_] = rotr(64, bxor(64, v[b_], v[c]), 24)
        v[a] = add(64, v[a], v[b_], y)
        v[d] = rotr(64, bxor(64, v[d], v[a]), 16)
        v[c] = add(64, v[c], v[d])
        v[b_] = rotr(64, bxor(64, v[b_], v[c]), 63)
    for r in range(12):
        s = SIGMA[r % 10]
        for i in range(4):
            G(i, 4 + i, 8 + i, 12 + i, m[s[2 * i]], m[s[2 * i + 1]])
        for i in range(4):
            G(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[s[8 + 2 * i]], m[s[9 + 2 * i]])
    return [bxor(64, h[i], v[i], v[i + 8]) for i in range(8)]


def blake2b(msg):
    h = list(H512)
    h[0] ^= 0x01010040
    n = len(msg)
    blocks = [list(msg[i:i + 128]) for i in range(0, n, 128)] or [[]]
    t = 0
    for bi, b in enumerate(blocks):
        t += len(b)
        last = bi == len(blocks) - 1
        h = blake2b_compress(h, b + [0] * (128 - len(b)), [t & ones(64), t >> 64], int(last))
    return sum([to_le(x, 64) for x in h], [])


# ---------------------------------------------------------------- X25519 (RFC 7748)
P25519 = (1 << 255) - 19


def x25519_int(k, u):
    """plain integers, for the self test of the ladder shape below"""
    F = Field(P25519)
    return ladder_x25519(F, [(k >> t) & 1 for t in range(255)], u)


class Field:
    """residues as Z terms reduced after every operation"""

    def __init__(self, p):
        self.p = p

    def add(self, a, b):
        return zmodf(zadd(a, b), self.p)

    def sub(self, a, b):
        return zmodf(zsub(a, b), self.p)

    def mul(self, a, b):
        return zmodf(zmul(a, b), self.p)

    def inv(self, a):
        return zmodpow(a, self.p - 2, self.p)


def ladder_step(F, x1, x2, z2, x3, z3):
    A = F.add(x2, z2)
    AA = F.mul(A, A)
    B = F.sub(x2, z2)
    BB = F.mul(B, B)
    E = F.sub(AA, BB)
    C = F.add(x3, z3)
    D = F.sub(x3, z3)
    DA = F.mul(D, A)
    CB = F.mul(C, B)
    s = F.add(DA, CB)
    d = F.sub(DA, CB)
    return F.mul(AA, BB), F.mul(E, F.add(AA, F.mul(121665, E))), F.mul(s, s), F.mul(x1, F.mul(d, d))


def ladder_x25519(F, bits, u):
    x1 = u
    x2, z2, x3, z3 = 1, 0, u, 1
    for b in reversed(bits):
        x2, x3 = zite(b, x3, x2), zite(b, x2, x3)
        z2, z3 = zite(b, z3, z2), zite(b, z2, z3)
        x2, z2, x3, z3 = ladder_step(F, x1, x2, z2, x3, z3)
        x2, x3 = zite(b, x3, x2), zite(b, x2, x3)
        z2, z3 = zite(b, z3, z2), zite(b, z2, z3)
    return F.mul(x2, F.inv(z2))


def zite(c, a, b):
    return ite(c, 0, a, b)
