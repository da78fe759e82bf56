"""Hexadecimal parsing and printing."""
from checks.zint import *
from shapes import lengths
EXPLANATION = BASE_EXPL + (' Roots: from_hex/from_string/hex_string_to_bytes of byte sequences and byte arrays, from_hex of the bounded and modular integer families, to_hex. '
                           'Texts: every character symbolic (a digit of either case, an arbitrary ASCII character, or an arbitrary 2-, 3- or 4-byte character), concrete text length.')
RULE = 'value = the number or bytes denoted by the digits; panics exactly if a character is no digit, the count of digits is unusable, or the number does not fit'
FLOOR = 900
ASSUMPTIONS = ['digit counts up to 16 (sequences), the exact count and its neighbours (arrays)', 'from_hex of arrays with elements wider than a byte is outside the statement']


def digit(name):
    """(4-bit value, character) of an arbitrary hexadecimal digit"""
    d, up = var(name, 4), var(name + 'up', 1)
    return d, ite(ult(4, d, 10), 8, add(8, 48, zext(d, 4, 8)), add(8, zext(d, 4, 8), ite(up, 8, 55, 87)))


def text(k, pre='d'):
    ds = [digit('%s%d' % (pre, i)) for i in range(k)]
    return [d for d, _ in ds], [c for _, c in ds]


def bytes_of(ds):
    return [cat([(ds[i], 0, 4), (ds[i + 1], 0, 4)]) for i in range(0, len(ds), 2)]


def ishex(x):
    rng = lambda lo, hi: band(1, bnot(1, ult(8, x, lo)), bnot(1, ult(8, hi, x)))
    return bor(1, rng(48, 57), bor(1, rng(65, 70), rng(97, 102)))


def utf8(n, pre):
    """an arbitrary character of n bytes"""
    lead = {2: (0b110, 3), 3: (0b1110, 4), 4: (0b11110, 5)}[n]
    out = [cat([(lead[0], 0, lead[1]), (var(pre + '0', 8 - lead[1]), 0, 8 - lead[1])])]
    for i in range(1, n):
        out.append(cat([(2, 0, 2), (var('%s%d' % (pre, i), 6), 0, 6)]))
    return out


def refuse(t, key, root, specs):
    r = t.run(root, specs, key)
    if r is not None:
        t.ok(key, r.ret is None or t.never(key, r), 'accepted', site(t.prog, root))


def texts(kmax, exact=None, full=False):
    """(what, characters, digit values or None, condition) of the texts parsed"""
    ks = range(0, kmax + 1) if exact is None and (full or kmax < 12) else sorted(set(range(6)) | set(range(max(6, kmax - 4), kmax + 1))) if exact is None else sorted({0, 1, 2, exact - 2, exact - 1, exact, exact + 1, exact + 2})
    for k in ks:
        ds, cs = text(k)
        good = (k % 2 == 0) if exact is None else k == exact
        yield 'digits%d' % k, cs, ds if good else None, 1 if good else 0
        if not good or k == 0:
            continue
        ps = range(k) if exact is None and (full or k <= 6) else sorted({0, 1, k // 2, k - 2, k - 1})
        for p in ps:
            x = var('x', 7)
            xb = zext(x, 7, 8)
            ds2 = list(ds)
            # value of the odd character out when it is a digit
            ds2[p] = ite(ult(8, xb, 58), 4, extract(xb, 8, 0, 4), add(4, extract(xb, 8, 0, 4), 9))
            yield 'any%d@%d' % (k, p), cs[:p] + [xb] + cs[p + 1:], ds2, ishex(xb)
        for n in (2, 3, 4):
            for p in ps:
                if p + n <= k:
                    yield 'utf8-%d:%d@%d' % (n, k, p), cs[:p] + utf8(n, 'u') + cs[p + n:], None, 0


def t_bytes(t, root, kmax, exact=None):
    for what, cs, ds, ok in texts(kmax, exact, t.tier != 'quick'):
        zcheck(t, '%s/%s' % (root, what), root, [cs], bytes_of(ds) if ds is not None else [], ok)


def t_long(t, root, k, exact=False):
    """one long text: its value, one arbitrary character near the end, one digit too many or too few"""
    ds, cs = text(k)
    zcheck(t, '%s/digits%d' % (root, k), root, [cs], bytes_of(ds), 1)
    p = k - 3
    x = var('x', 7)
    xb = zext(x, 7, 8)
    ds[p] = ite(ult(8, xb, 58), 4, extract(xb, 8, 0, 4), add(4, extract(xb, 8, 0, 4), 9))
    zcheck(t, '%s/any%d@%d' % (root, k, p), root, [cs[:p] + [xb] + cs[p + 1:]], bytes_of(ds), ishex(xb))
    for j in (k - 1, k - 2) if exact else (k - 1,):
        refuse(t, '%s/digits%d' % (root, j), root, [cs[:j]])


def t_num(t, root, kmax, hi, n, pre=()):
    sign = -1 if pre == ('-',) else 1
    for what, cs, ds, ok in texts(kmax, None, t.tier != 'quick'):
        z = 0
        if ds is not None and ds:
            z = zu(cat([(d, 0, 4) for d in ds]), 4 * len(ds))
        if ds is not None:
            ok = band(1, ok, within(z, 0, hi))
        if n:
            z = zmodf(z, n)
        nd = (hi.bit_length() + 3) // 4
        if ds is not None and len(ds) > nd:
            # nearly every text of this length is out of range: the condition alone, and the values with leading zeros
            key = '%s%s/%s' % (root, '[%s]' % ''.join(pre) if pre or 'signed' in root else '', what)
            r = t.run(root, [[ord(c) for c in p] for p in pre] + [cs], key)
            if r is not None:
                t.returns(key + '/refusal', r, ok)
            if not what.startswith('digits'):
                continue
            k = len(ds)
            d2, c2 = text(nd, 'low')
            what, cs = 'leading-zeros%d' % k, [48] * (k - nd) + c2
            z = zu(cat([(d, 0, 4) for d in d2]), 4 * nd)
            ok = within(z, 0, hi)
            if n:
                z = zmodf(z, n)
        zcheck(t, '%s%s/%s' % (root, '[%s]' % ''.join(pre) if pre or 'signed' in root else '', what), root,
               [[ord(c) for c in p] for p in pre] + [cs], [zneg(z) if sign < 0 else z], ok)


def t_sign(t, root):
    ds, cs = text(4)
    for g in ('x', '+-', ' ', '++', 'plus'):
        zcheck(t, '%s[%s]' % (root, g), root, [[ord(c) for c in g], cs], [0], 0)


def hexchars(x):
    out = []
    for i in (4, 0):
        d = extract(x, 8, i, 4)
        out.append(ite(ult(4, d, 10), 8, cat([(3, 0, 4), (d, 0, 4)]), add(8, zext(d, 4, 8), 87)))
    return out


def t_print(t, root, ks):
    for k in ks:
        x = V('x', k)
        pure_eq(t, '%s/%d' % (root, k), root, [x], [c for b in x for c in hexchars(b)])


def tasks(prog, tier):
    q = tier == 'quick'
    km = 8 if q else 16
    for f in ('from_hex', 'from_string', 'p_from_hex', 'p_from_string', 'hex_string_to_bytes'):
        yield f, t_bytes, ('arr::seqx::' + f, km)
        for k in sorted({32, 64, 130, 260, 514} | {2 * n for n in lengths(prog, 'arr::seqx::' + f, 600) if n > 1} | {n & ~1 for n in lengths(prog, 'arr::seqx::' + f, 1200) if n > 3}):
            yield '%s-%d' % (f, k), t_long, ('arr::seqx::' + f, k)
    for m, n in (('LU8', 130), ('Lu8', 300)):
        yield 'arr-' + m, t_long, ('arr::z_%s::from_hex' % m, 2 * n, True)
    for m, n in (('U8', 16), ('u8', 16), ('B7', 7), ('b7', 7), ('BothPub', 7), ('BothSec', 7)):
        if 'arr::z_%s::from_hex' % m in {r.split('crate::')[-1] for r in prog.roots}:
            yield 'arr-' + m, t_bytes, ('arr::z_%s::from_hex' % m, 0, 2 * n)
    for m, hi in (('up64', ones(64)), ('up12', ones(12)), ('us64', ones(64)), ('us12', ones(12)), ('leg', ones(40))):
        yield m, t_num, ('abs::z::%su::from_hex' % m, 18 if hi == ones(64) else km + 4, hi, 0)
    yield 'nms', t_num, ('abs::z::nms::from_hex', 18, ones(64), 0xffffffffffffffc5)
    yield 'nmp', t_num, ('abs::z::nmp::from_hex', 20, ones(72), 0x01fffffffffffffffb)
    yield 'legm', t_num, ('abs::z::legm::from_hex', 12, ones(40), 0x0fffffffa9)
    for m, w in (('sp64', 64), ('sp12', 12), ('ss64', 64)):
        for g in ('+', '-', ''):
            yield '%s-%s' % (m, g), t_num, ("abs::z::signedhex::" + m, 18 if w == 64 else 6, ones(w), 0, (g,))
        yield m + '-badsign', t_sign, ('abs::z::signedhex::' + m,)
    ks = range(0, 6) if q else range(0, 20)
    for f in ('to_hex', 'p_to_hex'):
        more = {16, 17, 33, 64, 65, 130, 257} | set(lengths(prog, 'arr::seqx::' + f, 600))
        yield f, t_print, ('arr::seqx::' + f, ks)
        for k in sorted(more - set(ks)):
            yield '%s-%d' % (f, k), t_print, ('arr::seqx::' + f, (k,))
    yield 'to_hex_S', t_print, ('arr::hexs::to_hex_S', (16,))
    yield 'to_hex_P', t_print, ('arr::hexs::to_hex_P', (16,))
