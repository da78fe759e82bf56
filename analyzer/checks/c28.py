"""Polynomials over the integers, modulo n, and quotient rings."""
from checks.ints import *
EXPLANATION = BASE_EXPL + (' Roots: the slice functions poly_add/sub/mul/div, leading_coefficient (u128, i128, u32) and the ring type of the poly! macro; symbolic '
                           'coefficients, concrete lengths, moduli and leading coefficients of divisors.')
RULE = 'coefficient i of the result = coefficient i of the mathematical result (mod n, mod the ring polynomial); panics exactly on unusable inputs'
FLOOR = 300
ASSUMPTIONS = ['divisors: leading coefficient and modulus are concrete, lower coefficients symbolic', 'polynomial inversion is not claimed']
TY = {'s_u128': ('U128', 128, 0), 's_i128': ('I128', 128, 1), 's_u32': ('U32', 32, 0)}


def pvars(name, k, w, n, sg, small=0):
    """k coefficients: residues of n, or (n = 0) values of `small` bits"""
    if n:
        b = n.bit_length()
        out = []
        for i in range(k):
            v = var('%s%d' % (name, i), w)
            out.append(urem(w, v, n))
        return out
    return [(sext if sg else zext)(var('%s%d' % (name, i), small), small, w) for i in range(k)]


def Zc(v, w, sg):
    return zs(v, w) if sg else zu(v, w)


def padz(a, k):
    return a + [0] * (k - len(a))


def red(z, n):
    return zmodf(z, n) if n else z


def pol_add(a, b, n, sign=1):
    k = max(len(a), len(b))
    return [red(zadd(x, y if sign > 0 else zneg(y)), n) for x, y in zip(padz(a, k), padz(b, k))]


def pol_mul(a, b, n):
    out = [0] * (len(a) + len(b))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = zadd(out[i + j], zmul(x, y))
    return [red(z, n) for z in out]


def pol_div(x, y, n, yd, c):
    """schoolbook division; y has degree yd and leading coefficient c (concrete).  Returns quotient, remainder, exact"""
    k = max(len(x), len(y))
    rem, y = padz(list(x), k), padz(list(y), k)
    quo = [0] * k
    ok = 1
    ci = pow(c, -1, n) if n else None
    for e in range(k - 1 - yd, -1, -1):
        t = red(zmul(rem[e + yd], ci), n) if n else zdivt(rem[e + yd], c)
        if not n:
            ok = band(1, ok, zeq(zmul(t, c), rem[e + yd]))
        quo[e] = t
        for j in range(yd + 1):
            rem[e + j] = red(zadd(rem[e + j], zneg(zmul(t, y[j]))), n)
    return quo, rem[:yd], ok


def run(t, key, root, specs, want, w, ok=1, rounds=40):
    r = t.run(root, specs, key)
    if r is None:
        return
    where = site(t.prog, root)
    t.returns(key + '/refusal', r, ok)
    if r.ret is None:
        if not (type(ok) is int and not ok):
            t.ok(key, False, 'never returns', where)
        return
    t.equal(key, leaves(r.I, r.ret), [bvz(z, w) for z in want], ok=r.ok, assume=[ok], where=where, rounds=rounds)


SH = [(0, 0), (1, 1), (2, 2), (3, 2), (2, 3), (4, 4), (1, 5), (0, 3), (3, 0)]


def t_addsub(t, m, n):
    T, w, sg = TY[m]
    q = 'pol::%s::' % m
    for la, lb in SH:
        a, b = pvars('a', la, w, n, sg, w - 2), pvars('b', lb, w, n, sg, w - 2)
        A, B = [Zc(v, w, sg) for v in a], [Zc(v, w, sg) for v in b]
        k = '%s/n%d/%dx%d' % (m, n, la, lb)
        run(t, 'add/' + k, q + 'poly_add', [a, b, n], pol_add(A, B, n), w)
        ok = 1
        if not n and not sg:
            for z in pol_add(A, B, 0, -1):
                ok = band(1, ok, bnot(1, zlt(z, 0)))
        run(t, 'sub/' + k, q + 'poly_sub', [a, b, n], pol_add(A, B, n, -1), w, ok)


def t_overflow(t, m):
    """coefficients of the full type: sums that do not fit are refused, never wrapped"""
    T, w, sg = TY[m]
    q = 'pol::%s::' % m
    for la, lb in ((1, 1), (2, 1), (2, 2)):
        a, b = V('a', la, w), V('b', lb, w)
        A, B = [Zc(v, w, sg) for v in a], [Zc(v, w, sg) for v in b]
        for f, s in (('poly_add', 1), ('poly_sub', -1)):
            ok = 1
            want = pol_add(A, B, 0, s)
            for z in want:
                ok = band(1, ok, fits(T, z))
            run(t, 'full/%s/%s/%dx%d' % (f, m, la, lb), q + f, [a, b, 0], want, w, ok)
        want = pol_mul(A, B, 0)
        if la * lb == 1 or not sg:
            ok = 1
            for z in want:
                ok = band(1, ok, fits(T, z))
            run(t, 'full/poly_mul/%s/%dx%d' % (m, la, lb), q + 'poly_mul', [a, b, 0], want, w, ok)


def t_mul(t, m, n):
    T, w, sg = TY[m]
    for la, lb in SH:
        a, b = pvars('a', la, w, n, sg, w // 2 - 4), pvars('b', lb, w, n, sg, w // 2 - 4)
        A, B = [Zc(v, w, sg) for v in a], [Zc(v, w, sg) for v in b]
        run(t, 'mul/%s/n%d/%dx%d' % (m, n, la, lb), 'pol::%s::poly_mul' % m, [a, b, n], pol_mul(A, B, n), w)


def t_lead(t, m):
    T, w, sg = TY[m]
    for k in range(0, 7):
        a = V('a', k, w)
        d, c = 0, 0
        for i, v in enumerate(a):
            z = eq(w, v, 0)
            d = ite(z, 64, d, i)
            c = ite(z, w, c, v)
        key = 'leading/%s/%d' % (m, k)
        r = t.run('pol::%s::leading_coefficient' % m, [a], key)
        if r is not None and r.ret is not None:
            t.returns(key + '/total', r)
            t.equal(key, leaves(r.I, r.ret), [d, c], where=site(t.prog, r.root))


def t_div(t, m, n, la, lb, c):
    T, w, sg = TY[m]
    small = 20 if w > 32 else 8
    x = pvars('a', la, w, n, sg, small)
    y = pvars('b', lb - 1, w, n, sg, 8 if w > 32 else 3) + [c & ones(w)]
    X, Y = [Zc(v, w, sg) for v in x], [Zc(v, w, sg) for v in y[:-1]] + [c]
    qq, rr, ok = pol_div(X, Y, n, lb - 1, c)
    if not n and not sg:
        # over the naturals every intermediate difference must exist
        rem = padz(X, max(la, lb))
        for e in range(max(la, lb) - lb, -1, -1):
            tq = qq[e]
            for j in range(lb):
                rem[e + j] = zadd(rem[e + j], zneg(zmul(tq, Y[j])))
                ok = band(1, ok, bnot(1, zlt(rem[e + j], 0)))
    key = 'div/%s/n%d/%d:%d/lead%d' % (m, n, la, lb, c)
    run(t, key, 'pol::%s::poly_div' % m, [x, y, n], qq + rr, w, ok, rounds=60)


def t_div_trailing(t, m, n, la, lb, c):
    """divisor given with zero coefficients above its degree"""
    T, w, sg = TY[m]
    x = pvars('a', la, w, n, sg, 20)
    y = pvars('b', lb - 1, w, n, sg, 8) + [c, 0, 0]
    X, Y = [Zc(v, w, sg) for v in x], [Zc(v, w, sg) for v in y[:lb - 1]] + [c, 0, 0]
    qq, rr, ok = pol_div(X, Y, n, lb - 1, c)
    run(t, 'div-padded/%s/n%d/%d:%d/lead%d' % (m, n, la, lb, c), 'pol::%s::poly_div' % m, [x, y, n], qq + rr, w, ok)


def t_refuse(t, m, n):
    """leading coefficient without inverse, zero divisor"""
    T, w, sg = TY[m]
    x = pvars('a', 3, w, n, sg, 8)
    for nm, y in (('noninvertible', [1, 2]), ('zero', [0, 0])):
        key = 'div-refused/%s/n%d/%s' % (m, n, nm)
        r = t.run('pol::%s::poly_div' % m, [x, y, n], key)
        if r is None:
            continue
        if nm == 'zero':
            # refused unless the dividend is zero as well
            z = 1
            for v in x:
                z = band(1, z, eq(w, v, 0))
            bad = band(1, r.ok, bnot(1, z)) if r.ret is not None else 0
            t.equal(key, [bad], [0], where=site(t.prog, r.root))
        else:
            t.ok(key, r.ret is None, 'a leading coefficient without inverse is accepted', site(t.prog, r.root))


# the ring of the harness: i128, three coefficients, n = 7, x^3 + 1
RN, IRR = 7, [1, 0, 0, 1]


def t_ring(t):
    w = 128
    a, b = pvars('a', 3, w, RN, 1), pvars('b', 3, w, RN, 1)
    A, B = [zs(v, w) for v in a], [zs(v, w) for v in b]
    q = 'pol::ring::'
    run(t, 'ring/add', q + 'add', [a, b], pol_add(A, B, RN), w)
    run(t, 'ring/sub', q + 'sub', [a, b], pol_add(A, B, RN, -1), w)
    prod = pol_mul(A, B, RN)
    run(t, 'ring/mul', q + 'mul', [a, b], pol_div(prod, IRR, RN, 3, 1)[1], w)
    e = 1
    for x, y in zip(a, b):
        e = band(1, e, eq(w, x, y))
    r = t.run(q + 'eq', [a, b], 'ring/eq')
    if r is not None:
        t.returns('ring/eq/total', r)
        t.equal('ring/eq', leaves(r.I, r.ret), [e], where=site(t.prog, r.root))
    for d, c in ((2, 1), (2, 3), (1, 5), (0, 6)):
        y = b[:d] + [c] + [0] * (2 - d)
        Y = B[:d] + [c] + [0] * (2 - d)
        qq, rr, ok = pol_div(A, Y, RN, d, c)
        run(t, 'ring/div/deg%d/lead%d' % (d, c), q + 'div', [a, y], qq + padz(rr, 3), w, ok)
    for k in range(0, 7):
        v = V('v', k, w)
        ok = 1
        for i in range(3, k):
            ok = band(1, ok, eq(w, v[i], 0))
        run(t, 'ring/from_vec/%d' % k, q + 'from_vec', [v], [zs(x, w) for x in padz(v[:3], 3)], w, ok)
    for ix in ([], [0], [2], [0, 1], [1, 0, 2], [1, 1], [3], [0, 7]):
        cs = V('c', len(ix), w)
        want = [0, 0, 0]
        for i, c in zip(ix, cs):
            if i < 3:
                want[i] = c
        run(t, 'ring/new/%s' % '-'.join(map(str, ix)), q + 'new', [[z for i, c in zip(ix, cs) for z in (i, c)]], [zs(x, w) if type(x) is T_ else x for x in want], w,
            int(all(i < 3 for i in ix)))


T_ = type(var('x', 8))


def tasks(prog, tier):
    q = tier == 'quick'
    for m in TY:
        yield 'lead-' + m, t_lead, (m,)
        yield 'overflow-' + m, t_overflow, (m,)
        for n in (0, 2, 3, 7, 3329) if q else (0, 2, 3, 5, 7, 13, 17, 3329, 4591, 8380417):
            yield 'addsub-%s-%d' % (m, n), t_addsub, (m, n)
            yield 'mul-%s-%d' % (m, n), t_mul, (m, n)
        for n in (2, 3, 7) + ((3329,) if TY[m][1] > 32 else ()):      # products of four residues fit the type
            for la, lb in ((1, 1), (2, 2), (3, 2), (4, 3), (5, 3), (2, 3), (3, 1), (6, 4)):
                for c in sorted({1, n - 1, 2 % n, (n + 1) // 2} - {0}):
                    yield 'div-%s-%d-%d-%d-%d' % (m, n, la, lb, c), t_div, (m, n, la, lb, c)
        for la, lb in ((1, 1), (2, 2), (3, 2), (4, 3), (2, 3)):
            for c in (1, 2, 3) + ((-1, -2) if TY[m][2] else ()):
                yield 'div-%s-Z-%d-%d-%d' % (m, la, lb, c), t_div, (m, 0, la, lb, c)
        for n in (3, 7):
            yield 'divpad-%s-%d' % (m, n), t_div_trailing, (m, n, 5, 3, 2)
        for n in (4, 6):
            yield 'refuse-%s-%d' % (m, n), t_refuse, (m, n)
    yield 'ring', t_ring, ()
