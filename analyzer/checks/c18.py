"""Constant tables of the cryptographic specifications."""
from checks.summ import *
from checks import c04, c05, c06, c07, c23, c24, c25, c26, c27
EXPLANATION = ('Every constant integer vector and hexadecimal string of the example specifications (statics, promoted and named constants, constant aggregates in any '
               'MIR body) is read from the compiler-evaluated program and compared with tables derived from their mathematical definitions (field inversion, '
               'LFSR, cube roots of primes, walk of the rho/pi map, ...). A vector of the length of a table that agrees with it in at least half of the entries is '
               'taken to be that table, wherever it is and whatever it is called, and must agree in every entry. Constants that are not tables, or tables that '
               'are computed, are decided through the primitives that use them: each primitive is abstractly interpreted at one small shape, where every '
               'table entry is selected by some symbolic input, and its value graph must equal that of the standard.')
RULE = 'a vector that resembles a standard table equals it entry by entry; every primitive computes with the standard constants'
FLOOR = 25


def _rho_pi():
    """rotation offsets and source lanes of Keccak, lane index x + 5 y, listed in the order of the destination lanes"""
    rot = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        rot[(x, y)] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    offs = [rot[(i % 5, i // 5)] for i in range(25)]
    # destination (x, y) takes source (x + 3 y, x)
    pi = [((x + 3 * y) % 5) + 5 * x for y in range(5) for x in range(5)]
    return offs, pi


def _rcon(n):
    out = [0x8d]
    while len(out) < n:
        c = out[-1] << 1
        out.append(c ^ 0x11b if c >> 8 else c)
    return out


# RFC 6234 names: big sigma 0/1, small sigma 0/1 (two rotations and a shift)
SIG = [2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10]
OFFS, PI = _rho_pi()
P256 = 2**256 - 2**224 + 2**192 + 2**96 - 1
GX = 0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296
GY = 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5
assert (GY * GY - (GX**3 - 3 * GX + 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B)) % P256 == 0
TABLES = {'SHA-256 round constants': S.K256, 'SHA-256 initial value / BLAKE2s IV': S.H256, 'BLAKE2b IV': S.H512, 'SHA-256 rotation amounts': SIG,
          'AES S-box': S.SBOX, 'AES round constants': _rcon(15), 'Keccak round constants': S.RC, 'Keccak rotation offsets': OFFS, 'Keccak lane permutation': PI,
          'BLAKE2b message schedule': [x for r in (S.SIGMA + S.SIGMA[:2] if len(S.SIGMA) == 10 else S.SIGMA) for x in r]}
for n in (10, 11, 12, 13, 14, 16, 30, 51, 256):
    if n not in (15,):
        TABLES['AES round constants (%d)' % n] = _rcon(n)
for i, r in enumerate(S.SIGMA[:10]):
    TABLES['BLAKE2b message schedule row %d' % i] = list(r)
TABLES['BLAKE2b message schedule (10 rows)'] = [x for r in S.SIGMA[:10] for x in r]
TABLES['AES round constants (from 1)'] = _rcon(11)[1:]
HEX = {'2^255-19': (2**255 - 19, 64), '2^255': (2**255, 64), 'P-256 prime': (P256, 64), 'P-256 base point x': (GX, 64), 'P-256 base point y': (GY, 64),
       'Poly1305 prime': (2**130 - 5, 34), 'X25519 base point (little-endian)': (int.from_bytes((9).to_bytes(32, 'little'), 'big'), 64)}


def flat(I, v, out):
    """scalars of a constant value; None when it has parts that are not integers"""
    if type(v) is Ref:
        if v.rng is not None:
            for x in I.slice_vals(v):
                if not flat(I, x, out):
                    return False
            return True
        return flat(I, I.load(v.key, v.path), out)
    if type(v) is tuple:
        return all(flat(I, x, out) for x in v[1])
    if type(v) is int:
        out.append(v)
        return True
    return v is None


def groups(I, v):
    """integer vectors inside a constant: the whole and each nested array"""
    out = []
    if flat(I, v, out):
        yield tuple(out)
    if type(v) is Ref and v.rng is None:
        yield from groups(I, I.load(v.key, v.path))
    elif type(v) is tuple:
        for x in v[1]:
            if type(x) in (tuple, Ref):
                yield from groups(I, x)


def operands(o, acc):
    """all constant operands below a JSON node"""
    if isinstance(o, list):
        if o and o[0] == 'ca' and len(o) == 3 and type(o[2]) is int:
            acc.append((o[1], o[2]))
            return
        for x in o:
            operands(x, acc)


def collect(prog):
    """{vector: place}, {hex string: place}, number of constants read"""
    I = Interp(prog)
    vec, hexs, n = {}, {}, 0

    def add(v, where):
        for g in groups(I, v):
            if len(g) >= 8:
                vec.setdefault(g, where)
                if len(g) >= 16 and all(48 <= c < 58 or 65 <= c < 71 or 97 <= c < 103 for c in g):
                    hexs.setdefault(bytes(g).decode(), where)
    for s in prog.statics:
        if s.get('crate') == 'hacspec_examples':
            n += 1
            add(I.decode(s['ty'], bytes.fromhex(s['init']['bytes']), 0, dict(s['init']['prov'])), s['name'])
    seen = set()
    for i, f in enumerate(prog.fns):
        if f.get('crate') != 'hacspec_examples' or 'body' not in f:
            continue
        acc = []
        b = f['body']
        operands(b['blocks'], acc)
        for ty, ci in acc:
            if (ty, ci) in seen:
                continue
            seen.add((ty, ci))
            n += 1
            try:
                add(I.const(ty, ci), f['def'])
            except Unsupported:
                pass
        for ss, t in b['blocks']:
            # vectors of literals, nested through locals that are assigned once in the block
            loc = {}
            for s in ss:
                if s[0] != '=':
                    continue
                l, pr = s[1]
                v = rv(I, s[2], loc)
                if not pr:
                    loc.pop(l, None)
                    if v is not None:
                        loc[l] = v
                if v is not None and type(v) is tuple:
                    n += 1
                    add(v, f['def'])
    return vec, hexs, n


def opv(I, o, loc):
    if o[0] == 'ci':
        return o[2]
    if o[0] == 'ca':
        try:
            return I.const(o[1], o[2])
        except Unsupported:
            return None
    if o[0] == 'p' and not o[1][1]:
        return loc.get(o[1][0])
    return None


def rv(I, r, loc):
    if r[0] == 'use':
        return opv(I, r[1], loc)
    if r[0] in ('arr', 'tup', 'adt'):
        vs = [opv(I, x, loc) for x in r[1]]
        return (0, tuple(vs)) if vs and all(x is not None for x in vs) else None
    return None


def t_tables(t):
    vec, hexs, n = collect(t.prog)
    t.count('constants of the specifications read', n)
    t.ok('read', n >= 20, 'only %d constants found' % n)
    found = set()
    for nm, tab in TABLES.items():
        tab = tuple(tab)
        for v, where in sorted(vec.items(), key=lambda x: x[1]):
            if len(v) != len(tab):
                continue
            k = sum(a == b for a, b in zip(v, tab))
            # a resemblance: half of the entries
            if 2 * k >= len(tab) and not alike(v, nm):
                found.add(nm)
                bad = [i for i, (a, b) in enumerate(zip(v, tab)) if a != b]
                t.ok('table/%s/%s' % (nm, where), not bad, 'entry %s is %#x, the standard says %#x' % (bad[0], v[bad[0]], tab[bad[0]]) if bad else '', where)
                t.count('table entries compared', len(tab))
    for nm, (x, n) in HEX.items():
        want = '%0*x' % (n, x)
        for h, where in sorted(hexs.items()):
            g = h.lower()
            if len(g) != n:
                continue
            k = sum(a == b for a, b in zip(g, want))
            if 8 * k >= 7 * n and all(sum(a == b for a, b in zip(g, '%0*x' % (m, y))) < m for y, m in HEX.values() if m == n and y != x):
                t.ok('constant/%s/%s' % (nm, where), g == want, '%s instead of %s' % (g, want), where)
                found.add(nm)
    for nm in TABLES:
        if nm in found:
            t.count('tables found as constants')


def alike(v, nm):
    """v is exactly another table"""
    return any(o != nm and tuple(tab) == v for o, tab in TABLES.items())


def tasks(prog, tier):
    yield 'tables', t_tables, ()
    yield 'sha256', c05.t_sha, (3,)
    yield 'sha256-2', c05.t_sha, (64,)
    for nm, (r, _) in c06.H.items():
        yield nm, c06.t_h, (nm, 1)
        yield nm + '-rate', c06.t_h, (nm, r)
    yield 'shake128', c06.t_x, ('shake128', 3, 169)
    yield 'shake256', c06.t_x, ('shake256', 3, 137)
    yield 'blake2b', c07.t_b, (3,)
    yield 'blake2b-2', c07.t_b, (129,)
    for b in (128, 256):
        yield 'aes%d' % b, c24.t_block, (b,)
    yield 'ghash', c04.t_gmac, (17,)
    yield 'poly1305', c25.t_poly, (17,)
    yield 'chacha20', c23.t_block, ()
    yield 'chacha-init', c23.t_init, ()
    yield 'x25519', c26.t_mult, (32, True)
    for nm, f, a in c27.tasks(prog, 'quick'):
        if nm != 'small':
            yield 'p256-' + nm, f, a
