"""Value-number algebra of the abstract interpreter.

Every run-time quantity of the analysed program is denoted by a hash-consed, normalised term over the
function's inputs ("value number").  Two expressions that get the same value number are equal on every
input.  Constants are Python ints in [0, 2**w); everything else is a `T`.  w == 0 marks unbounded
(mathematical) integers, used for num_bigint values.
"""
import itertools
import random


class T:
    __slots__ = ('op', 'a', 'w', 'id', 'hi', 'lo', 'dp', 'itd', 'pv')

    def __repr__(self):
        return show(self, 4)


_tab = {}
_n = [0]


def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.w = w
        _n[0] += 1
        t.id = _n[0]
        t.hi = None
        t.lo = None
        t.dp = None
        t.itd = 0
        t.pv = None
        if op == 'ite':
            x, y = a[1], a[2]
            dx = x.itd if type(x) is T else -1
            dy = y.itd if type(y) is T else -1
            # operations are pushed into selections only while this cannot multiply the term
            t.itd = max(dx, dy, 0) if (dx < 0 or dy < 0) else 1 + max(dx, dy)
        _tab[k] = t
    return t


def show(t, d=6):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) and t > 9 else str(t)
    if t.op == 'var':
        return '%s' % (t.a[0],)
    if d == 0:
        return '#%d' % t.id
    s = lambda x: show(x, d - 1)
    if t.op == 'cat':
        r = []
        for (p, lo, n) in t.a[0]:
            if isinstance(p, int):
                r.append("%d'%x" % (n, p))
            elif p.w == n:
                r.append(s(p))
            else:
                r.append('%s[%d:%d]' % (s(p), lo + n - 1, lo))
        return '{' + ','.join(r) + '}'
    if t.op in ('add', 'zadd'):
        c, l = t.a
        M = 1 << t.w if t.w else 0
        r = []
        for x, k in l:
            if M and k > M // 2:
                k -= M
            r.append((('%d*' % k) if k not in (1, -1) else ('-' if k < 0 else '')) + s(x))
        if c:
            r.append(hex(c))
        return '(' + '+'.join(r) + ')'
    if t.op == 'xor':
        return '(' + '^'.join([s(x) for x in t.a[1]] + ([hex(t.a[0])] if t.a[0] else [])) + ')'
    if t.op in ('and', 'or'):
        return '(' + {'and': '&', 'or': '|'}[t.op].join([s(x) for x in t.a[1]] + ([hex(t.a[0])])) + ')'
    if t.op == 'mul' or t.op == 'zmul':
        return '(' + '*'.join(s(x) for x in t.a[0]) + ')'
    if t.op == 'sel':
        return 'sel[%d](%s)' % (len(t.a[0]), s(t.a[1]))
    return '%s(%s)' % (t.op, ','.join(s(x) if isinstance(x, (T, int)) else str(x)[:60] for x in t.a))


def isT(x):
    return type(x) is T


def memo(f):
    cache = {}

    def g(*a):
        r = cache.get(a)
        if r is None:
            r = f(*a)
            cache[a] = r
        return r
    g.__name__ = f.__name__
    return g


def DI(x):
    return x.op == 'ite' and x.itd <= 3


def var(name, w):
    return mk('var', w, name)


def ones(w):
    return (1 << w) - 1


# ---------------------------------------------------------------- ranges
def umax(x, w=None):
    if type(x) is int:
        return x
    h = x.hi
    if h is not None:
        return h
    if x.w == 0:
        raise ValueError('umax of Z')
    full = (1 << x.w) - 1
    op = x.op
    h = full
    if op == 'cat':
        h = 0
        for (p, lo, n) in x.a[0]:
            if type(p) is int:
                m = p
            elif lo == 0 and n == p.w:
                m = umax(p)
            else:
                m = min((1 << n) - 1, umax(p) >> lo)
            h = (h << n) | m
    elif op == 'ite':
        h = max(umax(x.a[1]), umax(x.a[2]))
    elif op == 'add':
        h = _lin_range(x)[1]
    elif op == 'mul':
        s = 1
        for t in x.a[0]:
            s *= umax(t)
            if s > full:
                s = full
                break
        h = s
    elif op == 'and':
        h = min([x.a[0]] + [umax(t) for t in x.a[1]])
    elif op == 'sel':
        h = max(umax(t) for t in x.a[0])
    elif op == 'urem':
        if type(x.a[1]) is int and x.a[1]:
            h = min(x.a[1] - 1, umax(x.a[0]))
        else:
            h = umax(x.a[0])
    elif op == 'udiv':
        h = umax(x.a[0]) // x.a[1] if type(x.a[1]) is int and x.a[1] else umax(x.a[0])
    elif op == 'bvz':
        b, b0 = zmax(x.a[0]), zmin(x.a[0])
        if b is not None and b <= full and b0 is not None and b0 >= 0:
            h = b
    elif op == 'decl':
        h = umax(x.a[0])
    elif op == 'blen':
        b = zmax(x.a[0])
        if b is not None:
            h = max(1, (b.bit_length() + 7) // 8)
    elif op == 'bounded':
        h = x.a[1]
    x.hi = h
    return h


def _lin_range(x):
    """interval of a linear combination, coefficients and constant read as signed when that avoids wrapping"""
    c, l = x.a
    M = 1 << x.w
    for cc in (c, c - M):
        lo = hi = cc
        for t, k in l:
            if k > M // 2:
                k -= M
            if k >= 0:
                lo += k * umin(t)
                hi += k * umax(t)
            else:
                lo += k * umax(t)
                hi += k * umin(t)
        if lo >= 0 and hi < M:
            return lo, hi
    return 0, M - 1


def umin(x):
    if type(x) is int:
        return x
    l = x.lo
    if l is not None:
        return l
    l = 0
    op = x.op
    if op == 'cat':
        for (p, lo, n) in x.a[0]:
            if type(p) is int:
                m = p
            elif lo == 0 and n == p.w:
                m = umin(p)
            else:
                m = 0
            l = (l << n) | m
    elif op == 'ite':
        l = min(umin(x.a[1]), umin(x.a[2]))
    elif op == 'add':
        l = _lin_range(x)[0]
    elif op == 'sel':
        l = min(umin(t) for t in x.a[0])
    elif op == 'or':
        l = x.a[0]
    elif op == 'decl':
        l = umin(x.a[0])
    elif op == 'blen':
        l = 1
    x.lo = l
    return l


# ---------------------------------------------------------------- pieces
def pieces(x, w):
    if type(x) is int:
        return ((x, 0, w),)
    if x.op == 'cat':
        return x.a[0]
    return ((x, 0, w),)


def cut(ps, lo, n):
    """slice [lo, lo+n) of an MSB-first piece list"""
    out = []
    pos = sum(p[2] for p in ps)
    end = lo + n
    for (p, l, k) in ps:
        pos -= k
        a = max(pos, lo)
        b = min(pos + k, end)
        if a >= b:
            continue
        if type(p) is int:
            out.append(((p >> (a - pos)) & ((1 << (b - a)) - 1), 0, b - a))
        else:
            out.append((p, l + a - pos, b - a))
    return out


def cat(ps):
    out = []
    w = 0
    for (p, lo, n) in ps:
        if n == 0:
            continue
        w += n
        if type(p) is not int and lo == 0 and n == p.w and p.op == 'cat':
            sub = p.a[0]
        elif type(p) is not int and (lo != 0 or n != p.w):
            q = extract(p, p.w, lo, n)
            if type(q) is int:
                sub = ((q, 0, n),)
            elif q.op == 'cat':
                sub = q.a[0]
            else:
                sub = ((q, 0, n),)
        else:
            sub = ((p, lo, n),)
        for (p, lo, n) in sub:
            if out:
                (q, l2, n2) = out[-1]
                if type(q) is int:
                    if type(p) is int:
                        out[-1] = ((q << n) | p, 0, n2 + n)
                        continue
                elif q is p and l2 == lo + n:
                    out[-1] = (q, lo, n2 + n)
                    continue
            out.append((p, lo, n))
    if len(out) == 1:
        (p, lo, n) = out[0]
        if type(p) is int:
            return p
        if lo == 0 and n == p.w:
            return p
    else:
        # lift a common condition
        c = None
        ok = True
        some = False
        for (p, lo, n) in out:
            if type(p) is int:
                continue
            if DI(p) and lo == 0 and n == p.w and (c is None or c is p.a[0]):
                c = p.a[0]
                some = True
            else:
                ok = False
                break
        if ok and some and w > 0:
            A = cat([(p, 0, n) if type(p) is int else (p.a[1], 0, n) for (p, lo, n) in out])
            B = cat([(p, 0, n) if type(p) is int else (p.a[2], 0, n) for (p, lo, n) in out])
            return ite(c, w, A, B)
    return mk('cat', w, tuple(out))


@memo
def extract(x, w, lo, n):
    if type(x) is int:
        return (x >> lo) & ((1 << n) - 1)
    if lo == 0 and n == w:
        return x
    op = x.op
    if op == 'cat':
        return cat(cut(x.a[0], lo, n))
    if DI(x):
        return ite(x.a[0], n, extract(x.a[1], w, lo, n), extract(x.a[2], w, lo, n))
    if op == 'add' and lo == 0:
        c, l = x.a
        return add(n, c & ((1 << n) - 1), *[mulc(n, extract(t, w, 0, n), k & ((1 << n) - 1)) for t, k in l])
    if op == 'mul' and lo == 0:
        r = 1
        for t in x.a[0]:
            r = mul(n, r, extract(t, w, 0, n))
        return r
    if op == 'sext':
        i = x.a[0]
        if lo + n <= i.w:
            return extract(i, i.w, lo, n)
        if lo >= i.w - 1:
            return sext(extract(i, i.w, i.w - 1, 1), 1, n)
        if lo == 0:
            return sext(i, i.w, n)
    if lo >= umax(x).bit_length():
        return 0
    if op == 'add' and n == 1 and lo == w - 1 and len(x.a[1]) == 1 and x.a[0] == 0 and x.a[1][0][1] == ones(w) and umax(x.a[1][0][0]) <= 1 << lo:
        # sign of -t for 0 <= t <= 2^(w-1)
        return bnot(1, eq(w, x.a[1][0][0], 0))
    if n == 1 and op == 'xor' and x.a[0] >> lo & 1:
        return bxor(1, 1, mk('cat', 1, ((bxor(w, x, x.a[0]), lo, 1),)) if len(x.a[1]) > 1 else extract(x.a[1][0], w, lo, 1))
    if n == 1 and op == 'xor' and x.a[0]:
        return extract(bxor(w, x, x.a[0]), w, lo, 1)
    return mk('cat', n, ((x, lo, n),))


@memo
def zext(x, w0, w1):
    if type(x) is int or w0 == w1:
        return x
    if DI(x):
        return ite(x.a[0], w1, zext(x.a[1], w0, w1), zext(x.a[2], w0, w1))
    return cat([(0, 0, w1 - w0), (x, 0, w0)])


@memo
def sext(x, w0, w1):
    if w0 == w1:
        return x
    if type(x) is int:
        if x >> (w0 - 1):
            return x | (((1 << (w1 - w0)) - 1) << w0)
        return x
    if umax(x) < 1 << (w0 - 1):
        return zext(x, w0, w1)
    if DI(x):
        return ite(x.a[0], w1, sext(x.a[1], w0, w1), sext(x.a[2], w0, w1))
    if w0 == 1:
        return ite(x, w1, ones(w1), 0)
    if x.op == 'sext':
        return sext(x.a[0], x.a[0].w, w1)
    return mk('sext', w1, x)


def resize(x, w0, signed, w1):
    if w1 == w0:
        return x
    if w1 < w0:
        return extract(x, w0, 0, w1)
    return sext(x, w0, w1) if signed else zext(x, w0, w1)


@memo
def shl(w, x, n):
    if type(n) is int:
        if n >= w:
            return 0
        if n == 0:
            return x
        if type(x) is int:
            return (x << n) & ones(w)
        if DI(x):
            return ite(x.a[0], w, shl(w, x.a[1], n), shl(w, x.a[2], n))
        return cat(list(cut(pieces(x, w), 0, w - n)) + [(0, 0, n)])
    if x == 0:
        return 0
    return mk('shl', w, x, n)


@memo
def lshr(w, x, n):
    if type(n) is int:
        if n >= w:
            return 0
        if n == 0:
            return x
        if type(x) is int:
            return x >> n
        return zext(extract(x, w, n, w - n), w - n, w)
    if type(x) is int and x == 0:
        return 0
    return mk('lshr', w, x, n)


@memo
def ashr(w, x, n):
    if type(n) is int:
        if n == 0:
            return x
        if n >= w:
            n = w - 1
        return sext(extract(x, w, n, w - n), w - n, w)
    return mk('ashr', w, x, n)


@memo
def rotl(w, x, n):
    if type(n) is int:
        n %= w
        if n == 0:
            return x
        if type(x) is int:
            return ((x << n) | (x >> (w - n))) & ones(w)
        ps = pieces(x, w)
        return cat(cut(ps, 0, w - n) + cut(ps, w - n, n))
    # n symbolic: reduce modulo w (w is a power of two, n is 32 bits wide)
    k = w.bit_length() - 1
    return mk('rotl', w, x, extract(n, n.w, 0, k))


def rotr(w, x, n):
    if type(n) is int:
        return rotl(w, x, (w - n) % w)
    k = w.bit_length() - 1
    return mk('rotl', w, x, neg(k, extract(n, n.w, 0, k)))


# ---------------------------------------------------------------- bitwise
def _runs(c, w):
    r = []
    i = 0
    while i < w:
        b = (c >> i) & 1
        j = i
        while j < w and ((c >> j) & 1) == b:
            j += 1
        r.append((b, i, j - i))
        i = j
    return r


def _has_const(t):
    return t.op == 'cat' and any(type(p[0]) is int for p in t.a[0])


def _bounds(ts, w):
    """segment boundaries induced by constant pieces"""
    b = {0, w}
    for t in ts:
        if type(t) is T and t.op == 'cat':
            pos = w
            for (p, lo, n) in t.a[0]:
                pos -= n
                if type(p) is int:
                    b.add(pos)
                    b.add(pos + n)
    return sorted(b)


def _disjoint(w, ts, c):
    """merge args of or/xor/add whose non-zero bits are disjoint; None when they are not"""
    bs = _bounds(ts, w)
    if len(bs) <= 2:
        return None
    segs = []
    for i in range(len(bs) - 1):
        lo, n = bs[i], bs[i + 1] - bs[i]
        nz = []
        for t in ts:
            for_t = cut(pieces(t, w), lo, n)
            if all(type(p[0]) is int and p[0] == 0 for p in for_t):
                continue
            nz.append(for_t)
        cc = (c >> lo) & ((1 << n) - 1)
        if cc:
            nz.append([(cc, 0, n)])
        if len(nz) > 1:
            return None
        segs.append(nz[0] if nz else [(0, 0, n)])
    ps = []
    for s in reversed(segs):
        ps.extend(s)
    return cat(ps)


@memo
def bxor(w, *xs):
    c = 0
    par = {}
    st = list(xs)
    while st:
        x = st.pop()
        if type(x) is int:
            c ^= x
        elif x.op == 'xor':
            c ^= x.a[0]
            for t in x.a[1]:
                if t in par:
                    del par[t]
                else:
                    par[t] = 1
        elif x in par:
            del par[x]
        else:
            par[x] = 1
    if not par:
        return c
    l = sorted(par, key=lambda t: t.id)
    if len(l) == 1:
        x = l[0]
        if c == 0:
            return x
        if DI(x):
            return ite(x.a[0], w, bxor(w, x.a[1], c), bxor(w, x.a[2], c))
    # selections on the same condition
    its = [t for t in l if t.op == 'ite']
    if len(its) >= 1 and len(l) > 1:
        r = _merge_ites(w, l, c, bxor, its)
        if r is not None:
            return r
    if w > 1:
        d = _disjoint(w, l, c)
        if d is not None:
            return d
    return mk('xor', w, c, tuple(l))


def _merge_ites(w, l, c, f, its):
    g = {}
    for t in its:
        g.setdefault(t.a[0], []).append(t)
    for cnd, ts in g.items():
        if len(ts) > 1:
            rest = [t for t in l if t not in ts]
            m = ite(cnd, w, f(w, *[t.a[1] for t in ts]), f(w, *[t.a[2] for t in ts]))
            return f(w, m, c, *rest)
    # x ^ ite(c, x^y, 0): the masked-swap idiom
    if f is bxor and len(its) == 1:
        t = its[0]
        rest = [x for x in l if x is not t]
        z = bxor(w, c, *rest)
        A, B = t.a[1], t.a[2]
        if B == 0 or A == 0:
            o = A if B == 0 else B
            if isT(o) and o.op == 'xor' and isT(z):
                parts = set(o.a[1])
                zp = set(z.a[1]) if z.op == 'xor' else {z}
                if zp <= parts:
                    return ite(t.a[0], w, bxor(w, A, z), bxor(w, B, z))
    return None


def _zpair(s):
    """literals of a conjunction with sign and zero tests of one integer combined, None if there is nothing to combine"""
    if len(s) < 2 or len(s) > 64:
        return None
    up, lo = {}, {}
    drop = None
    for t in s:
        if type(t) is int:
            return None
        neg = t.op == 'zneg?'
        if not neg and not (t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0].op == 'zneg?'):
            continue
        e = t.a[0] if neg else t.a[1][0].a[0]
        c, l = e.a if e.op == 'zadd' else (0, ((e, 1),))
        b, d = (-c - 1, up) if neg else (-c, lo)
        if l in d:          # two bounds on one side: the tighter one
            o, ot = d[l]
            if (b < o) == neg:
                d[l] = b, t
                drop = ot
            else:
                drop = t
            break
        d[l] = b, t
        if l in up and l in lo and up[l][0] < lo[l][0]:
            return [0]
    if drop is not None:
        return [x for x in s if x is not drop]
    if not up and not lo:
        return None
    for t in s:
        neg = t.op == 'zneg?'
        if not neg and not (t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0].op == 'zneg?'):
            continue
        e = t.a[0] if neg else t.a[1][0].a[0]
        for f in (e, zadd(e, 1)):
            q = zeq(f, 0)
            if type(q) is int:
                continue
            n = bxor(1, q, 1)
            rest = [x for x in s if x is not t and x is not q and x is not n]
            if q in s:
                if f is e:
                    return [0] if neg else rest + [q]
                return rest + [q] if neg else [0]
            if n in s:
                if f is e:
                    return rest + [t] if neg else rest + [bxor(1, zlt(e, 1), 1)]
                return rest + [zlt(f, 0)] if neg else rest + [t]
    return None


@memo
def band(w, *xs):
    c = ones(w)
    s = {}
    st = list(xs)
    while st:
        x = st.pop()
        if type(x) is int:
            c &= x
        elif x.op == 'and':
            c &= x.a[0]
            st.extend(x.a[1])
        else:
            s[x] = 1
    if c == 0 or not s:
        return c
    full = ones(w)
    for t in s:
        if t.op == 'xor' and t.a[0] == full and len(t.a[1]) == 1 and t.a[1][0] in s:
            return 0
    if w == 1:
        r = _zpair(s)
        if r is not None:
            return band(1, *r)
    if len(s) == 1 and c == full:
        return next(iter(s))
    l = sorted(s, key=lambda t: t.id)
    for t in l:
        if DI(t) and w > 1 and (t.a[1] == 0 or t.a[2] == 0):
            rest = [x for x in l if x is not t]
            return ite(t.a[0], w, band(w, t.a[1], c, *rest), band(w, t.a[2], c, *rest))
    if len(l) == 1 and DI(l[0]):
        t = l[0]
        return ite(t.a[0], w, band(w, t.a[1], c), band(w, t.a[2], c))
    if w > 1:
        b = set(_bounds(l, w))
        if c != full:
            rs = _runs(c, w)
            if len(rs) <= 24:
                for (_, i, n) in rs:
                    b.add(i)
        if len(b) > 2:
            b = sorted(b)
            ps = []
            for i in range(len(b) - 2, -1, -1):
                lo, n = b[i], b[i + 1] - b[i]
                cc = (c >> lo) & ones(n)
                if cc == 0:
                    ps.append((0, 0, n))
                    continue
                v = band(n, cc, *[extract(t, w, lo, n) for t in l])
                ps.append((v, 0, n))
            return cat(ps)
    return mk('and', w, c, tuple(l))


@memo
def bor(w, *xs):
    c = 0
    s = {}
    st = list(xs)
    while st:
        x = st.pop()
        if type(x) is int:
            c |= x
        elif x.op == 'or':
            c |= x.a[0]
            st.extend(x.a[1])
        else:
            s[x] = 1
    full = ones(w)
    if c == full or not s:
        return c
    for t in s:
        if t.op == 'xor' and t.a[0] == full and len(t.a[1]) == 1 and t.a[1][0] in s:
            return full
    if w == 1 and any(t.op == 'zneg?' or t.op == 'xor' and len(t.a[1]) == 1 and t.a[1][0].op == 'zneg?' for t in s):
        r = _zpair({bxor(1, t, 1): 1 for t in s})
        if r is not None:
            return bxor(1, band(1, *r), 1)
    if len(s) == 1 and c == 0:
        return next(iter(s))
    l = sorted(s, key=lambda t: t.id)
    its = [t for t in l if DI(t)]
    if w > 1 and len(l) == 1 and its:
        t = l[0]
        return ite(t.a[0], w, bor(w, t.a[1], c), bor(w, t.a[2], c))
    if w > 1 and its:
        r = _merge_ites(w, l, c, bor, its)
        if r is not None:
            return r
    if w > 1:
        d = _disjoint(w, l, c)
        if d is not None:
            return d
        b = set(_bounds(l, w))
        if c:
            rs = _runs(c, w)
            if len(rs) <= 24:
                for (_, i, n) in rs:
                    b.add(i)
        if len(b) > 2:
            b = sorted(b)
            ps = []
            for i in range(len(b) - 2, -1, -1):
                lo, n = b[i], b[i + 1] - b[i]
                v = bor(n, (c >> lo) & ones(n), *[extract(t, w, lo, n) for t in l])
                ps.append((v, 0, n))
            return cat(ps)
        # x | -x has its top bit set exactly when x != 0 (used by the comparison idioms)
    return mk('or', w, c, tuple(l))


def bnot(w, x):
    return bxor(w, x, ones(w))


# ---------------------------------------------------------------- arithmetic mod 2^w
def _lin(w, x, k, acc):
    """acc += k*x; returns the constant part"""
    M = ones(w)
    if type(x) is int:
        return (k * x) & M
    if x.op == 'add':
        c, l = x.a
        for t, kk in l:
            v = (acc.get(t, 0) + k * kk) & M
            if v:
                acc[t] = v
            else:
                acc.pop(t, None)
        return (k * c) & M
    if x.op == 'cat':
        ps = x.a[0]
        if len(ps) == 2 and type(ps[1][0]) is int and ps[1][0] == 0 and type(ps[0][0]) is not int:
            p, lo, n = ps[0]
            if lo == 0 and p.w == w:
                return _lin(w, p, (k << ps[1][2]) & M, acc)
    elif x.op == 'xor' and x.a[0] == M:
        # ~y = -y - 1
        y = bxor(w, *x.a[1])
        c = _lin(w, y, (-k) & M, acc)
        return (c - k) & M
    v = (acc.get(x, 0) + k) & M
    if v:
        acc[x] = v
    else:
        acc.pop(x, None)
    return 0


def _bit01(t, w):
    """the bit b when t is b zero-extended to w"""
    if w > 1 and t.op == 'cat':
        ps = t.a[0]
        if len(ps) == 2 and type(ps[0][0]) is int and ps[0][0] == 0 and ps[1][2] == 1:
            return cat([ps[1]])
    return None


def _mklin(w, c, acc):
    if not acc:
        return c
    if len(acc) == 1:
        (t, k), = acc.items()
        if c == 0:
            if k == 1:
                return t
            if k & (k - 1) == 0:
                return shl(w, t, k.bit_length() - 1)
        elif c == ones(w) and k == c:
            return bxor(w, t, c)
        b = _bit01(t, w)
        if b is not None:
            # -b and b - 1 for a single bit b: masks
            if c == 0 and k == ones(w):
                return sext(b, 1, w)
            if c == ones(w) and k == 1:
                return sext(bnot(1, b), 1, w)
        if DI(t):
            f = lambda v: add(w, c, mulc(w, v, k))
            return ite(t.a[0], w, f(t.a[1]), f(t.a[2]))
    l = tuple(sorted(acc.items(), key=lambda p: p[0].id))
    return mk('add', w, c, l)


@memo
def add(w, *xs):
    ts = [x for x in xs if type(x) is T]
    if len(ts) == len(xs) == 1:
        return xs[0]
    M = ones(w)
    c = 0
    for x in xs:
        if type(x) is int:
            c = (c + x) & M
    if not ts:
        return c
    if len(ts) == 1 and c == 0:
        return ts[0]
    if w > 1 and any(_has_const(t) for t in ts):
        d = _disjoint(w, ts, c) if len(set(ts)) == len(ts) else None
        if d is not None:
            return d
    acc = {}
    for t in ts:
        c = (c + _lin(w, t, 1, acc)) & M
    its = [t for t in acc if t.op == 'ite']
    if its and len(acc) > 1:
        g = {}
        for t in its:
            g.setdefault(t.a[0], []).append(t)
        for cnd, li in g.items():
            if len(li) > 1:
                rest = [mulc(w, t, k) for t, k in acc.items() if t not in li]
                A = add(w, *[mulc(w, t.a[1], acc[t]) for t in li]) if len(li) > 0 else 0
                B = add(w, *[mulc(w, t.a[2], acc[t]) for t in li])
                return add(w, ite(cnd, w, A, B), c, *rest)
        # x + ite(c, y - x, 0)
        if len(its) == 1:
            t = its[0]
            k = acc[t]
            A, B = t.a[1], t.a[2]
            o = A if B == 0 else (B if A == 0 else None)
            if isT(o) and o.op == 'add':
                rest = {u: kk for u, kk in acc.items() if u is not t}
                od = dict(o.a[1])
                if all((od.get(u, 0) * k + kk) & M == 0 for u, kk in rest.items()):
                    z = _mklin(w, c, rest)
                    return ite(t.a[0], w, add(w, z, mulc(w, A, k)), add(w, z, mulc(w, B, k)))
    return _mklin(w, c, acc)


@memo
def mulc(w, x, k):
    k &= ones(w)
    if type(x) is int:
        return (x * k) & ones(w)
    if k == 1:
        return x
    if k == 0:
        return 0
    acc = {}
    c = _lin(w, x, k, acc)
    return _mklin(w, c, acc)


def neg(w, x):
    return mulc(w, x, ones(w))


def sub(w, a, b):
    return add(w, a, neg(w, b))


@memo
def mul(w, a, b):
    if type(a) is int:
        return mulc(w, b, a)
    if type(b) is int:
        return mulc(w, a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (type(x.a[1]) is int or type(x.a[2]) is int):
            return ite(x.a[0], w, mul(w, x.a[1], y), mul(w, x.a[2], y))
        if x.op == 'cat' and umax(x) == 1:
            b1 = extract(x, w, 0, 1)
            return ite(b1, w, y, 0)
    f = []
    k = 1
    for x in (a, b):
        if x.op == 'mul':
            f.extend(x.a[0])
        elif x.op == 'add' and x.a[0] == 0 and len(x.a[1]) == 1:
            t, kk = x.a[1][0]
            k = (k * kk) & ones(w)
            f.extend(t.a[0] if t.op == 'mul' else (t,))
        else:
            f.append(x)
    f.sort(key=lambda t: t.id)
    return mulc(w, mk('mul', w, tuple(f)), k)


def _divsel(op, f, w, a, b):
    return mk(op, w, a, b)


def udiv(w, a, b):
    if type(a) is int and type(b) is int:
        return a // b if b else 0
    if type(b) is int and b and b & (b - 1) == 0:
        return lshr(w, a, b.bit_length() - 1)
    if isT(b) and type(a) is int and a == 0:
        return 0
    return mk('udiv', w, a, b)


def urem(w, a, b):
    if type(a) is int and type(b) is int:
        return a % b if b else 0
    if type(b) is int and b:
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        if umax(a) < b:
            return a
    if a is b:
        return 0
    return mk('urem', w, a, b)


def s_of(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(w, a, b):
    if type(a) is int and type(b) is int:
        x, y = s_of(a, w), s_of(b, w)
        if y == 0:
            return 0
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ones(w)
    if umax(a) < 1 << (w - 1) and umax(b) < 1 << (w - 1):
        return udiv(w, a, b)
    return mk('sdiv', w, a, b)


def srem(w, a, b):
    if type(a) is int and type(b) is int:
        x, y = s_of(a, w), s_of(b, w)
        if y == 0:
            return 0
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ones(w)
    if umax(a) < 1 << (w - 1) and umax(b) < 1 << (w - 1):
        return urem(w, a, b)
    if type(b) is int and 0 < b < 1 << (w - 1):
        return ite(extract(a, w, w - 1, 1), w, neg(w, urem(w, neg(w, a), b)), urem(w, a, b))
    return mk('srem', w, a, b)


# ---------------------------------------------------------------- comparisons and selection
@memo
def eq(w, a, b):
    if a is b:
        return 1
    if type(a) is int and type(b) is int:
        return int(a == b)
    if w == 0:
        return zeq(a, b)
    if w == 1:
        return bxor(1, a, b, 1)
    d = sub(w, a, b)
    if type(d) is int:
        return int(d == 0)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b > umax(a) or b < umin(a):
            return 0
        if DI(a):
            return ite(a.a[0], 1, eq(w, a.a[1], b), eq(w, a.a[2], b))
        if a.op == 'xor':
            b ^= a.a[0]
            a = bxor(w, *a.a[1])
            if a.op == 'xor' and b == 0 and len(a.a[1]) == 2:
                return eq(w, a.a[1][0], a.a[1][1])
        if a.op == 'add':
            c, l = a.a
            b = (b - c) & ones(w)
            if len(l) == 1 and l[0][1] & 1:
                k = pow(l[0][1], -1, 1 << w)
                return eq(w, l[0][0], (b * k) & ones(w))
            if b == 0 and len(l) == 2 and (l[0][1] + l[1][1]) & ones(w) == 0 and 1 in (l[0][1], l[1][1]):
                return eq(w, l[0][0], l[1][0])
            a = _mklin(w, 0, dict(l))
        if isT(a) and a.op == 'cat':
            r = 1
            pos = w
            for (p, lo, n) in a.a[0]:
                pos -= n
                bb = (b >> pos) & ones(n)
                if type(p) is int:
                    if p != bb:
                        return 0
                elif lo == 0 and n == p.w and len(a.a[0]) == 1:
                    r = band(1, r, mk('eq', 1, p, bb))
                elif lo == 0 and n == p.w:
                    r = band(1, r, eq(n, p, bb))
                elif n == 1:
                    r = band(1, r, bxor(1, mk('cat', 1, ((p, lo, 1),)), bb, 1))
                else:
                    r = band(1, r, mk('eq', 1, mk('cat', n, ((p, lo, n),)), bb))
            return r
        if DI(a):
            return ite(a.a[0], 1, eq(w, a.a[1], b), eq(w, a.a[2], b))
        return mk('eq', 1, a, b)
    if umin(a) > umax(b) or umin(b) > umax(a):
        return 0
    if a.op == 'cat' and b.op == 'cat':
        pa, pb = a.a[0], b.a[0]
        if len(pa) == len(pb) > 1 and all(x[2] == y[2] for x, y in zip(pa, pb)):
            r = 1
            for x, y in zip(pa, pb):
                u = cat([x])
                v = cat([y])
                r = band(1, r, eq(x[2], u, v))
            return r
    # zero-extended operands
    m = max(umax(a).bit_length(), umax(b).bit_length())
    if m < w and m > 0:
        return eq(m, extract(a, w, 0, m), extract(b, w, 0, m))
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, a, b)


@memo
def ult(w, a, b):
    if type(a) is int and type(b) is int:
        return int(a < b)
    if a is b:
        return 0
    if umax(a) < umin(b):
        return 1
    if umin(a) >= umax(b):
        return 0
    if type(b) is int:
        if DI(a):
            return ite(a.a[0], 1, ult(w, a.a[1], b), ult(w, a.a[2], b))
        if b == 1:
            return eq(w, a, 0)
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return eq(w - k, extract(a, w, k, w - k), 0)
    if type(a) is int:
        if DI(b):
            return ite(b.a[0], 1, ult(w, a, b.a[1]), ult(w, a, b.a[2]))
        # a < b  <=>  !(b < a+1)
        if a < ones(w):
            return bxor(1, ult(w, b, a + 1), 1)
    m = max(umax(a).bit_length(), umax(b).bit_length())
    if m < w and m > 0:
        return ult(m, extract(a, w, 0, m), extract(b, w, 0, m))
    if w == 1:
        return band(1, b, bxor(1, a, 1))
    return mk('ult', 1, a, b)


@memo
def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return int(s_of(a, w) < s_of(b, w))
    if a is b:
        return 0
    h = 1 << (w - 1)
    if umax(a) < h and umax(b) < h:
        return ult(w, a, b)
    if b == 0:
        return extract(a, w, w - 1, 1)
    if type(a) is int and a == ones(w):
        return bxor(1, extract(b, w, w - 1, 1), 1)
    if isT(a) and a.op == 'sext' and (type(b) is int or b.op == 'sext'):
        iw = a.a[0].w
        if type(b) is int:
            sb = s_of(b, w)
            if sb >= 1 << (iw - 1):
                return 1
            if sb <= -(1 << (iw - 1)):
                return 0
            return slt(iw, a.a[0], b & ones(iw))
        iw = max(iw, b.a[0].w)
        return slt(iw, extract(a, w, 0, iw), extract(b, w, 0, iw))
    if type(b) is int and DI(a):
        return ite(a.a[0], 1, slt(w, a.a[1], b), slt(w, a.a[2], b))
    if type(a) is int and DI(b):
        return ite(b.a[0], 1, slt(w, a, b.a[1]), slt(w, a, b.a[2]))
    if type(a) is int and a != h - 1:
        return bxor(1, slt(w, b, (a + 1) & ones(w)), 1)
    return mk('slt', 1, a, b)


def ite(c, w, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'xor' and c.a[0] == 1:
        return ite(bxor(1, c, 1), w, b, a)
    if type(a) is int and type(b) is T:     # if b == a then a else b
        if w == 0:
            if c.op == 'zzero?' and c is zeq(b, a):
                return b
        elif c.op == 'eq' and c.a[0] is b and c.a[1] == a:
            return b
    if isT(a) and a.op == 'ite' and a.a[0] is c:
        return ite(c, w, a.a[1], b)
    if isT(b) and b.op == 'ite' and b.a[0] is c:
        return ite(c, w, a, b.a[2])
    if w == 1:
        if type(a) is int and type(b) is int:
            return c if a else bxor(1, c, 1)
        if type(a) is int:
            return bor(1, c, b) if a else band(1, bxor(1, c, 1), b)
        if type(b) is int:
            return bor(1, bxor(1, c, 1), a) if b else band(1, c, a)
        if a is c:
            return bor(1, c, b)
        if b is c:
            return band(1, c, a)
    return mk('ite', w, c, a, b)


def sel(items, w, idx, iw):
    """items[idx]; idx < len(items) is a separate obligation"""
    if type(idx) is int:
        return items[idx]
    items = tuple(items)
    f = items[0]
    if all(x is f or (type(x) is int and x == f) for x in items):
        return f
    if len(items) == 2:
        return ite(eq(iw, idx, 1), w, items[1], items[0])
    if DI(idx):
        n = len(items)
        A, B = idx.a[1], idx.a[2]
        if (isT(A) or A < n) and (isT(B) or B < n):
            return ite(idx.a[0], w, sel(items, w, A, iw), sel(items, w, B, iw))
    # canonical index width: strip zero extension
    m = umax(idx).bit_length()
    if m < iw:
        idx = extract(idx, iw, 0, m)
    return mk('sel', w, items, idx)


def uf(name, w, *args):
    return mk('uf', w, name, *args)


def decl(x):
    if type(x) is T:
        return mk('decl', x.w, x)
    return x


# ---------------------------------------------------------------- unbounded integers
@memo
def zu(x, w):
    if type(x) is int:
        return x
    m = umax(x).bit_length()
    if m < w:
        x = extract(x, w, 0, m)
        if type(x) is int:
            return x
        w = m
    if x.op == 'bvz':
        z = x.a[0]
        lo, hi = zmin(z), zmax(z)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << w):
            return z
        return zmodf(z, 1 << w)
    if DI(x):
        return ite(x.a[0], 0, zu(x.a[1], w), zu(x.a[2], w))
    if x.op == 'cat' and type(x.a[0][0][0]) is int:
        c, _, n = x.a[0][0]
        if c:
            k = w - n
            return zadd(c << k, zu(cat(x.a[0][1:]), k))
    if x.op == 'cat' and len(x.a[0]) == 1:
        p, lo, n = x.a[0][0]
        if type(p) is T and p.op == 'bvz' and lo == 0:
            q = bvz(p.a[0], n)
            return zu(q, n) if q is not x else zmodf(p.a[0], 1 << n)
    return mk('zu', 0, x)


@memo
def zs(x, w):
    if type(x) is int:
        return s_of(x, w)
    if umax(x) < 1 << (w - 1):
        return zu(x, w)
    if DI(x):
        return ite(x.a[0], 0, zs(x.a[1], w), zs(x.a[2], w))
    if x.op == 'sext':
        return zs(x.a[0], x.a[0].w)
    if x.op == 'bvz':
        z = x.a[0]
        lo, hi = zmin(z), zmax(z)
        if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
            return z
    return mk('zs', 0, x)


def zmax(z):
    if type(z) is int:
        return z
    if z.hi is not None:
        return z.hi if z.hi != 'x' else None
    op = z.op
    h = None
    if op == 'zu':
        h = umax(z.a[0])
    elif op == 'zs':
        h = (1 << (z.a[0].w - 1)) - 1
    elif op == 'zmodf':
        h = z.a[1] - 1 if type(z.a[1]) is int else None
        m = zmax(z.a[0])
        n = zmin(z.a[0])
        if n is not None and n >= 0 and m is not None and h is not None:
            h = min(h, m)
    elif op == 'zrem':
        if type(z.a[1]) is int:
            h = abs(z.a[1]) - 1
    elif op == 'zmodpow':
        if type(z.a[2]) is int:
            h = z.a[2] - 1
    elif op == 'ite':
        A, B = zmax(z.a[1]), zmax(z.a[2])
        h = None if A is None or B is None else max(A, B)
    elif op == 'zadd':
        c, l = z.a
        h = c
        for t, k in l:
            m = zmax(t) if k > 0 else zmin(t)
            if m is None:
                h = None
                break
            h += k * m
    elif op == 'zmul':
        h = 1
        for t in z.a[0]:
            m, n = zmax(t), zmin(t)
            if m is None or n is None or n < 0:
                h = None
                break
            h *= m
    elif op == 'zdivt':
        m, n = zmax(z.a[0]), zmin(z.a[0])
        if type(z.a[1]) is int and z.a[1] > 0 and n is not None and m is not None and n >= 0:
            h = m // z.a[1]
        elif m is not None and n is not None and n >= 0 and (zmin(z.a[1]) or -1) >= 0:
            h = m
    elif op in ('zband',):
        m, n = zmax(z.a[1]), zmin(z.a[1])
        if n is not None and n >= 0:
            h = m
    elif op == 'bounded':
        h = z.a[2]
    z.hi = 'x' if h is None else h
    return h


def zmin(z):
    if type(z) is int:
        return z
    if z.lo is not None:
        return z.lo if z.lo != 'x' else None
    op = z.op
    h = None
    if op == 'zu':
        h = umin(z.a[0])
    elif op == 'zs':
        h = -(1 << (z.a[0].w - 1))
    elif op in ('zmodf', 'zmodpow', 'zbor'):
        h = 0
    elif op == 'zrem':
        n = zmin(z.a[0])
        if n is not None and n >= 0:
            h = 0
        elif type(z.a[1]) is int:
            h = -(abs(z.a[1]) - 1)
    elif op == 'ite':
        A, B = zmin(z.a[1]), zmin(z.a[2])
        h = None if A is None or B is None else min(A, B)
    elif op == 'zadd':
        c, l = z.a
        h = c
        for t, k in l:
            m = zmin(t) if k > 0 else zmax(t)
            if m is None:
                h = None
                break
            h += k * m
    elif op == 'zmul':
        h = 1
        for t in z.a[0]:
            n = zmin(t)
            if n is None or n < 0:
                h = None
                break
            h *= n
    elif op == 'zdivt':
        n = zmin(z.a[0])
        d = zmin(z.a[1])
        if n is not None and n >= 0 and d is not None and d >= 0:
            h = 0
    elif op == 'zband':
        a, b = zmin(z.a[0]), zmin(z.a[1])
        if (a is not None and a >= 0) or (b is not None and b >= 0):
            h = 0
    elif op == 'bounded':
        h = z.a[1]
    z.lo = 'x' if h is None else h
    return h


@memo
def zadd(*xs):
    c = 0
    acc = {}
    for x in xs:
        if type(x) is int:
            c += x
        elif x.op == 'zadd':
            c += x.a[0]
            for t, k in x.a[1]:
                v = acc.get(t, 0) + k
                if v:
                    acc[t] = v
                else:
                    acc.pop(t, None)
        else:
            v = acc.get(x, 0) + 1
            if v:
                acc[x] = v
            else:
                acc.pop(x, None)
    if not acc:
        return c
    if c == 0 and len(acc) == 1:
        (t, k), = acc.items()
        if k == 1:
            return t
    return mk('zadd', 0, c, tuple(sorted(acc.items(), key=lambda p: p[0].id)))


@memo
def zscale(x, k):
    if type(x) is int:
        return x * k
    if k == 1:
        return x
    if k == 0:
        return 0
    if x.op == 'zadd':
        return mk('zadd', 0, x.a[0] * k, tuple((t, kk * k) for t, kk in x.a[1]))
    return mk('zadd', 0, 0, ((x, k),))


def zneg(x):
    return zscale(x, -1)


def zsub(a, b):
    return zadd(a, zneg(b))


def zmul(a, b):
    if type(a) is int:
        return zscale(b, a)
    if type(b) is int:
        return zscale(a, b)
    f = []
    k = 1
    for x in (a, b):
        if x.op == 'zadd' and x.a[0] == 0 and len(x.a[1]) == 1:
            t, kk = x.a[1][0]
            k *= kk
            x = t
        if x.op == 'zmul':
            f.extend(x.a[0])
        else:
            f.append(x)
    f.sort(key=lambda t: t.id)
    return zscale(mk('zmul', 0, tuple(f)), k)


@memo
def zmodf(a, n):
    """mathematical (non-negative) residue"""
    if type(a) is int and type(n) is int:
        return a % n
    if type(n) is int:
        lo, hi = zmin(a), zmax(a)
        if lo is not None and hi is not None and lo >= 0 and hi < n:
            return a
        if n & (n - 1) == 0 and isT(a):
            k = n.bit_length() - 1
            if a.op == 'zu':
                x = a.a[0]
                return zu(extract(x, x.w, 0, k), k) if k < x.w else a
        if isT(a) and a.op == 'zmodf' and type(a.a[1]) is int and a.a[1] % n == 0:
            return zmodf(a.a[0], n)
        # strip inner residues and reduce coefficients
        if isT(a) and a.op == 'zadd':
            c, l = a.a
            out = [c % n]
            ch = c != c % n
            for t, k in l:
                if t.op == 'zmodf' and t.a[1] == n:
                    out.append(zscale(t.a[0], k))
                    ch = True
                else:
                    if k != k % n:
                        ch = True
                    out.append(zscale(t, k % n))
            if ch:
                return zmodf(zadd(*out), n)
    return mk('zmodf', 0, a, n)


def zrem(a, n):
    """truncated remainder (sign of the dividend)"""
    if type(a) is int and type(n) is int:
        r = abs(a) % abs(n)
        return -r if a < 0 else r
    lo = zmin(a)
    if lo is not None and lo >= 0:
        m = zmin(n)
        if m is not None and m > 0:
            return zmodf(a, n)
    return mk('zrem', 0, a, n)


def zdivt(a, b):
    if type(a) is int and type(b) is int:
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    if type(b) is int and b == 1:
        return a
    if type(b) is int and b > 0 and b & (b - 1) == 0 and isT(a) and a.op == 'zu':
        x = a.a[0]
        k = b.bit_length() - 1
        return zu(extract(x, x.w, k, x.w - k), x.w - k) if k < x.w else 0
    if type(b) is int and b > 0:
        lo, hi = zmin(a), zmax(a)
        if lo is not None and lo >= 0 and hi is not None and hi < b:
            return 0
    return mk('zdivt', 0, a, b)


def zshr(a, n):
    """floor shift"""
    if type(n) is int:
        if type(a) is int:
            return a >> n
        lo = zmin(a)
        if lo is not None and lo >= 0:
            return zdivt(a, 1 << n)
    return mk('zshr', 0, a, n)


def zshl(a, n):
    if type(n) is int:
        return zscale(a, 1 << n) if isT(a) else a << n
    return zmul(a, mk('zpow2', 0, n))


def zband(a, b):
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b >= 0 and isT(a):
        if b == 0:
            return 0
        if b & (b + 1) == 0:
            return zmodf(a, b + 1)
        lo = zmin(a)
        if a.op == 'zu':
            x = a.a[0]
            return zu(band(x.w, x, b & ones(x.w)), x.w)
    if isT(a) and isT(b) and a.op == 'zu' and b.op == 'zu':
        w = max(a.a[0].w, b.a[0].w)
        return zu(band(w, zext(a.a[0], a.a[0].w, w), zext(b.a[0], b.a[0].w, w)), w)
    if isT(b) and isT(a) and a.id > b.id:
        a, b = b, a
    return mk('zband', 0, a, b)


def _zbit2(name, f, g, a, b):
    if type(a) is int and type(b) is int:
        return f(a, b)
    def bv(x):
        if type(x) is int:
            return (x, max(1, x.bit_length())) if x >= 0 else None
        if x.op == 'zu':
            return (x.a[0], x.a[0].w)
        return None
    p, q = bv(a), bv(b)
    if p and q:
        w = max(p[1], q[1])
        return zu(g(w, zext(p[0], p[1], w), zext(q[0], q[1], w)), w)
    if isT(a) and isT(b) and a.id > b.id or type(a) is int:
        a, b = b, a
    return mk(name, 0, a, b)


def zbor(a, b):
    return _zbit2('zbor', lambda x, y: x | y, bor, a, b)


def zbxor(a, b):
    return _zbit2('zbxor', lambda x, y: x ^ y, bxor, a, b)


def zmodpow(b, e, m):
    if type(b) is int and type(e) is int and type(m) is int:
        return pow(b, e, m) if m else 0
    if type(e) is int and type(m) is int:
        if e == 1:
            return zmodf(b, m)
        if e == 0:
            return 1 % m
    return mk('zmodpow', 0, b, e, m)


@memo
def bvz(z, w):
    """z mod 2^w as a bit vector"""
    if type(z) is int:
        return z & ones(w)
    if z.op == 'zu':
        x = z.a[0]
        return extract(x, x.w, 0, w) if w <= x.w else zext(x, x.w, w)
    if z.op == 'zs':
        x = z.a[0]
        return extract(x, x.w, 0, w) if w <= x.w else sext(x, x.w, w)
    if DI(z):
        return ite(z.a[0], w, bvz(z.a[1], w), bvz(z.a[2], w))
    if z.op == 'zmodf' and type(z.a[1]) is int and z.a[1] & (z.a[1] - 1) == 0 and w <= z.a[1].bit_length() - 1:
        return bvz(z.a[0], w)
    hi, lo = zmax(z), zmin(z)
    m = None
    if hi is not None and lo is not None and lo >= 0:
        m = max(1, hi.bit_length())
    if z.op == 'zadd' and (m is None or m <= 128):
        c, l = z.a
        if all(t.op in ('zu', 'zs', 'ite') for t, k in l) and w <= 128:
            return add(w, c & ones(w), *[mulc(w, bvz(t, w), k & ones(w)) for t, k in l])
    if m is not None:
        if m < w:
            return cat([(0, 0, w - m), (bvz(z, m), 0, m)])
        if m > w and m <= 8192:
            return extract(bvz(z, m), m, 0, w)
    return mk('bvz', w, z)


@memo
def zlt(a, b):
    if type(a) is int and type(b) is int:
        return int(a < b)
    d = zsub(a, b)
    if type(d) is int:
        return int(d < 0)
    hi, lo = zmax(d), zmin(d)
    if hi is not None and hi < 0:
        return 1
    if lo is not None and lo >= 0:
        return 0
    # canonical orientation: d < 0 with positive leading coefficient; d<0 <=> not(-d < 1)
    c, l = (d.a if d.op == 'zadd' else (0, ((d, 1),)))
    if l[0][1] < 0:
        e = zadd(zneg(d), -1)       # d < 0  <=> -d-1 >= 0 <=> not (-d-1 < 0)
        return bxor(1, mk('zneg?', 1, e), 1)
    return mk('zneg?', 1, d)


@memo
def zeq(a, b):
    if type(a) is int and type(b) is int:
        return int(a == b)
    d = zsub(a, b)
    if type(d) is int:
        return int(d == 0)
    hi, lo = zmax(d), zmin(d)
    if (hi is not None and hi < 0) or (lo is not None and lo > 0):
        return 0
    c, l = (d.a if d.op == 'zadd' else (0, ((d, 1),)))
    if l[0][1] < 0:
        d = zneg(d)
        c, l = d.a if d.op == 'zadd' else (0, ((d, 1),))
    if len(l) == 1 and l[0][0].op == 'zu' and l[0][1] == 1:
        x = l[0][0].a[0]
        if -c < 0:
            return 0
        return eq(x.w, x, -c) if -c <= ones(x.w) else 0
    if len(l) == 1 and DI(l[0][0]) and l[0][1] == 1:
        t = l[0][0]
        return ite(t.a[0], 1, zeq(t.a[1], -c), zeq(t.a[2], -c))
    return mk('zzero?', 1, d)


def blen(z):
    """number of bytes of the minimal big-endian representation (at least 1)"""
    if type(z) is int:
        return max(1, (abs(z).bit_length() + 7) // 8)
    if DI(z):
        return ite(z.a[0], 64, blen(z.a[1]), blen(z.a[2]))
    hi, lo = zmax(z), zmin(z)
    if hi is not None and hi < 256 and lo is not None and lo >= 0:
        return 1
    if hi is not None and lo is not None and lo > 0 and blen(lo) == blen(hi):
        return blen(lo)
    return mk('blen', 64, z)


# ---------------------------------------------------------------- traversal
def kids(t):
    op = t.op
    if op == 'var':
        return ()
    if op == 'cat':
        return [p[0] for p in t.a[0] if type(p[0]) is T]
    if op in ('add', 'zadd'):
        return [p[0] for p in t.a[1]]
    if op in ('xor', 'and', 'or'):
        return list(t.a[1])
    if op in ('mul', 'zmul'):
        return list(t.a[0])
    if op == 'sel':
        return [x for x in t.a[0] if type(x) is T] + [t.a[1]]
    return [x for x in t.a if type(x) is T]


_E = frozenset()


def deps(x):
    """input variables the value depends on (declassified parts excluded)"""
    if type(x) is not T:
        return _E
    if x.dp is not None:
        return x.dp
    st = [x]
    while st:
        t = st[-1]
        if t.dp is not None:
            st.pop()
            continue
        if t.op == 'var':
            t.dp = frozenset((t.a[0],))
            st.pop()
            continue
        if t.op == 'decl':
            t.dp = _E
            st.pop()
            continue
        ks = kids(t)
        p = [k for k in ks if k.dp is None]
        if p:
            st.extend(p)
            continue
        s = None
        for k in ks:
            if s is None:
                s = k.dp
            elif k.dp is not s and not k.dp <= s:
                s = s | k.dp
        t.dp = s if s is not None else _E
        st.pop()
    return x.dp


def support(xs):
    seen = set()
    st = [x for x in xs if type(x) is T]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        st.extend(k for k in kids(t) if k not in seen)
    return sorted(seen, key=lambda t: t.id)


_fold = {}


def fold(x, w):
    """interval-preserving identity hook"""
    return x


# ---------------------------------------------------------------- evaluation (random interpretation)
def _h(*a):
    r = random.Random(repr(a))
    return r


def evaluate(nodes, env):
    """assign each node of a topologically sorted list its value under env: var-name -> int"""
    val = {}

    def g(x):
        return x if type(x) is int else val[x]

    for t in nodes:
        op = t.op
        w = t.w
        a = t.a
        M = (1 << w) - 1 if w else 0
        if op == 'var':
            v = env(t)
        elif op == 'cat':
            v = 0
            for (p, lo, n) in a[0]:
                if type(p) is not int:
                    p = (val[p] >> lo) & ((1 << n) - 1)
                v = (v << n) | p
        elif op == 'add':
            v = a[0]
            for x, k in a[1]:
                v += k * val[x]
            v &= M
        elif op == 'xor':
            v = a[0]
            for x in a[1]:
                v ^= val[x]
        elif op == 'and':
            v = a[0]
            for x in a[1]:
                v &= val[x]
        elif op == 'or':
            v = a[0]
            for x in a[1]:
                v |= val[x]
        elif op == 'ite':
            v = g(a[1]) if val[a[0]] else g(a[2])
        elif op == 'sel':
            i = val[a[1]]
            v = g(a[0][i]) if i < len(a[0]) else 0
        elif op == 'mul':
            v = 1
            for x in a[0]:
                v = v * val[x] & M
        elif op == 'eq':
            v = int(g(a[0]) == g(a[1]))
        elif op == 'ult':
            v = int(g(a[0]) < g(a[1]))
        elif op == 'slt':
            ww = a[0].w if isT(a[0]) else a[1].w
            v = int(s_of(g(a[0]), ww) < s_of(g(a[1]), ww))
        elif op == 'sext':
            v = sext(val[a[0]], a[0].w, w)
        elif op == 'shl':
            n = g(a[1])
            v = (g(a[0]) << n) & M if n < w else 0
        elif op == 'lshr':
            n = g(a[1])
            v = g(a[0]) >> n if n < w else 0
        elif op == 'ashr':
            v = ashr(w, g(a[0]), g(a[1]))
        elif op == 'rotl':
            v = rotl(w, g(a[0]), g(a[1]))
        elif op == 'udiv':
            v = udiv(w, g(a[0]), g(a[1]))
        elif op == 'urem':
            v = urem(w, g(a[0]), g(a[1]))
        elif op == 'sdiv':
            v = sdiv(w, g(a[0]), g(a[1]))
        elif op == 'srem':
            v = srem(w, g(a[0]), g(a[1]))
        elif op == 'decl':
            v = val[a[0]]
        elif op == 'uf':
            r = random.Random(repr((a[0],) + tuple(g(x) if isinstance(x, (int, T)) else x for x in a[1:])))
            v = r.getrandbits(w) if w else r.getrandbits(64)
        elif op == 'zu':
            v = val[a[0]]
        elif op == 'zs':
            v = s_of(val[a[0]], a[0].w)
        elif op == 'zadd':
            v = a[0]
            for x, k in a[1]:
                v += k * val[x]
        elif op == 'zmul':
            v = 1
            for x in a[0]:
                v *= val[x]
        elif op == 'zmodf':
            n = g(a[1])
            v = g(a[0]) % n if n else 0
        elif op == 'zrem':
            v = zrem(g(a[0]), g(a[1])) if g(a[1]) else 0
        elif op == 'zdivt':
            v = zdivt(g(a[0]), g(a[1])) if g(a[1]) else 0
        elif op == 'zshr':
            v = g(a[0]) >> min(g(a[1]), 1 << 16)
        elif op == 'zpow':
            v = g(a[0]) ** min(g(a[1]), 300)
        elif op == 'zpow2':
            v = 1 << min(g(a[0]), 1 << 12)
        elif op == 'zband':
            v = g(a[0]) & g(a[1])
        elif op == 'zbor':
            v = g(a[0]) | g(a[1])
        elif op == 'zbxor':
            v = g(a[0]) ^ g(a[1])
        elif op == 'zmodpow':
            m = g(a[2])
            v = pow(g(a[0]), g(a[1]), m) if m > 0 and g(a[1]) >= 0 else 0
        elif op == 'bvz':
            v = val[a[0]] & M
        elif op == 'zneg?':
            v = int(val[a[0]] < 0)
        elif op == 'zzero?':
            v = int(val[a[0]] == 0)
        elif op == 'blen':
            v = blen(val[a[0]])
        elif op == 'bounded':
            v = val[a[0]] % (a[2] + 1)
        else:
            raise ValueError('evaluate ' + op)
        val[t] = v
    return val


def constants(nodes, limit=400):
    cs = set()
    for t in nodes:
        if t.op == 'cat':
            for p in t.a[0]:
                if type(p[0]) is int:
                    cs.add(p[0])
        elif t.op in ('add', 'zadd', 'xor', 'and', 'or'):
            cs.add(t.a[0])
        else:
            for x in t.a:
                if type(x) is int:
                    cs.add(x)
        if len(cs) > limit:
            break
    return sorted(cs, key=abs)[:limit]


def make_env(seed, mode, cs):
    """mode 0: uniform; 1: special values; 2: mostly equal values with single-bit differences"""
    rnd = random.Random('%r/%r' % (seed, mode))
    base = rnd.getrandbits(128)
    cache = {}

    def env(t):
        n = t.a[0]
        if n in cache:
            return cache[n]
        w = t.w or 64
        M = (1 << w) - 1
        if mode == 0:
            v = rnd.getrandbits(w)
        elif mode == 1:
            k = rnd.randrange(6)
            if k == 0:
                v = 0
            elif k == 1:
                v = M
            elif k == 2:
                v = (1 << (w - 1))
            elif k == 3 and cs:
                v = (rnd.choice(cs) + rnd.randrange(-1, 2)) & M
            elif k == 4:
                v = 1 << rnd.randrange(w)
            else:
                v = rnd.getrandbits(w)
        elif mode == 2:
            v = base & M
            if rnd.randrange(3) == 0:
                v ^= 1 << rnd.randrange(w)
        elif mode == 3:
            v = rnd.getrandbits(min(w, 3))
        else:
            v = (M - rnd.getrandbits(min(w, 3)))
        cache[n] = v
        return v
    return env


def differ(pairs, rounds=24, seed=1, assume=(), bind=()):
    """random interpretation: an assignment under which some pair differs (and every assumption holds),
    or None when all agree on every round"""
    del WEAK[:]
    flat = [x for p in pairs for x in p] + list(assume)
    nodes = support(flat)
    cs = constants(nodes)
    used = 0
    bnodes = support([b for _, b in bind if isT(b)]) if bind else []
    for r in range(rounds * (3 if assume else 1)):
        env = make_env((seed, r), (0, 1, 2, 3, 4)[r % 5], cs)
        if bind:        # variables fixed to the value of a term, up to a few flipped bits
            bv = evaluate(bnodes, env)
            fixed = {v.a[0]: (b if type(b) is int else bv[b]) for v, b in bind}
            if r % 8:
                v = bind[(r * 7 + r // 8) % len(bind)][0]
                fixed[v.a[0]] ^= 1 << (r // 3 % v.w)
            env0 = env
            env = lambda t: fixed[t.a[0]] if t.a[0] in fixed else env0(t)
        val = evaluate(nodes, env)
        g = lambda x: x if type(x) is int else val[x]
        if any(not g(c) for c in assume):
            continue
        used += 1
        for i, (x, y) in enumerate(pairs):
            if g(x) != g(y):
                ev = {t.a[0]: val[t] for t in nodes if t.op == 'var'}
                return i, g(x), g(y), ev
        if used >= rounds:
            break
    if used < min(12, rounds) and assume and not bind:      # rarely met assumptions: drive the variables towards them
        rnd = random.Random('%r/a' % (seed,))
        for k in range(min(2 * rounds, max(8, 400000 // max(1, len(nodes))))):
            env0 = make_env((seed, 'a', k), (0, 1, 2, 4, 3)[k % 5], cs)
            fixed = {}
            val = meet(nodes, assume, lambda v: fixed[v.a[0]] if v.a[0] in fixed else env0(v), fixed, rnd)
            if val is None:
                continue
            used += 1
            g = lambda x: x if type(x) is int else val[x]
            for i, (x, y) in enumerate(pairs):
                if g(x) != g(y):
                    return i, g(x), g(y), {t.a[0]: val[t] for t in nodes if t.op == 'var'}
    vs = [t for t in nodes if t.op == 'var']
    if used and len(vs) <= 4 and len(nodes) <= 3000 and not bind:      # all corner combinations
        own = sorted(set(constants(support([x for x, _ in pairs]))) ^ set(constants(support([y for _, y in pairs]))), key=abs)[:6]
        for n, pt in enumerate(itertools.product(range(5 + len(own)), repeat=len(vs))):
            if n * len(nodes) > 200000:
                break
            vm = {}
            for v, k in zip(vs, pt):
                w = v.w or 64
                vm[v.a[0]] = (0, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 1)[k] & ((1 << w) - 1) if k < 5 else own[k - 5] & ((1 << w) - 1)
            val = evaluate(nodes, lambda t: vm[t.a[0]])
            g = lambda x: x if type(x) is int else val[x]
            if any(not g(c) for c in assume):
                continue
            for i, (x, y) in enumerate(pairs):
                if g(x) != g(y):
                    return i, g(x), g(y), vm
    if used < min(3, rounds):
        if assume:
            return differ(pairs, rounds, seed, (), bind)    # the assumptions were never met: compare unconditionally
    return directed(pairs, nodes, seed, assume, cs)


def meet(nodes, assume, env, fixed, rnd):
    """values of all nodes under an assignment on which every assumption holds, or None"""
    val = evaluate(nodes, env)
    for _ in range(6):
        un = [c for c in assume if isT(c) and not val[c]]
        if not un:
            return val
        if not invert(rnd.choice(un), 1, val, fixed, rnd, 0):
            return None
        val = evaluate(nodes, env)
    return None if any(isT(c) and not val[c] for c in assume) else val


PREDS = ('eq', 'ult', 'slt', 'zneg?', 'zzero?')
DIRECTED_NODES = 60000
WEAK = []


def directed(pairs, nodes, seed, assume, cs):
    """second stage of random interpretation: every predicate (and table index) that occurs on one side only is
    driven to both outcomes by inverting the operations between it and the variables"""
    del WEAK[:]
    if len(nodes) > DIRECTED_NODES:
        return None
    one = set(support([x for x, _ in pairs])) ^ set(support([y for _, y in pairs]))
    goals = []
    sels = {}
    for t in nodes:
        if t not in one:
            continue
        if t.op in PREDS:
            goals += [(t, 1), (t, 0)]
        elif t.op == 'sel':
            for u in sels.get(t.a[1], ()):
                goals += [(t.a[1], i) for i, (p, q) in enumerate(zip(t.a[0], u.a[0])) if p is not q and p != q][:16]
            sels.setdefault(t.a[1], []).append(t)
    if len(goals) > 600:
        goals = goals[:600]
    budget = max(20, 400000 // max(1, len(nodes)))
    rnd = random.Random('%r/d' % (seed,))
    for n, (t, want) in enumerate(goals):
        hit = 0
        for k in range(8):
            if budget <= 0 or hit >= 4:
                break
            budget -= 1
            env0 = make_env((seed, n, k), (0, 1, 2, 4, 3)[k % 5], cs)
            fixed = {}
            env = lambda v: fixed[v.a[0]] if v.a[0] in fixed else env0(v)
            val = evaluate(nodes, env)
            if val[t] != want:
                done = 0
                for _ in range(3):
                    done = invert(t, want, val, fixed, rnd, 0)
                    if not done:
                        break
                    budget -= 1
                    val = evaluate(nodes, env)
                    if val[t] == want:
                        break
                if val[t] != want:
                    continue
            g = lambda x: x if type(x) is int else val[x]
            if any(not g(c) for c in assume):
                val = meet(nodes, assume, env, fixed, rnd)
                if val is None or val[t] != want:
                    continue
            hit += 1
            for i, (x, y) in enumerate(pairs):
                if g(x) != g(y):
                    return i, g(x), g(y), {v.a[0]: val[v] for v in nodes if v.op == 'var'}
        if not hit and t.op != 'sel':
            WEAK.append((t, want))
    return None


def invert(t, want, val, fixed, rnd, depth):
    """choose values of the variables below t (into fixed) so that t evaluates to want; heuristic, 0 on failure"""
    if type(t) is int:
        return t == want
    if val[t] == want and depth:
        return 1
    if depth > 60:
        return 0
    op, w, a = t.op, t.w, t.a
    M = (1 << w) - 1 if w else 0
    g = lambda x: x if type(x) is int else val[x]
    rec = lambda x, v: invert(x, v, val, fixed, rnd, depth + 1)
    if w and not 0 <= want <= M:
        return 0
    if op == 'var':
        fixed[a[0]] = want
        val[t] = want
        return 1
    if op == 'cat':
        sh = sum(n for _, _, n in a[0])
        new = {}
        for p, lo, n in a[0]:
            sh -= n
            v = want >> sh & ((1 << n) - 1)
            if type(p) is int:
                if p != v:
                    return 0
                continue
            cur = new.get(p, val[p])
            new[p] = cur & ~(((1 << n) - 1) << lo) | v << lo
        return all([rec(p, v) for p, v in new.items()])
    if op in ('add', 'zadd'):
        ch = list(a[1])
        rnd.shuffle(ch)
        for x, k in ch:
            rest = a[0] + sum(val[y] * j for y, j in a[1] if y is not x)
            d = want - rest
            if op == 'add':
                if k & 1 and rec(x, d * pow(k, -1, M + 1) & M):
                    return 1
            elif d % k == 0 and rec(x, d // k):
                return 1
        return 0
    if op == 'xor':
        ch = list(a[1])
        rnd.shuffle(ch)
        for x in ch:
            if rec(x, val[t] ^ val[x] ^ want):
                return 1
        return 0
    if op in ('and', 'or'):
        ch = list(a[1])
        hard = 1 if op == 'and' else 0        # this bit value is needed in every operand
        if w == 1 and want != hard:
            rnd.shuffle(ch)
            return any(rec(x, want) for x in ch)
        c = a[0]
        if op == 'and' and want & ~c or op == 'or' and ~want & c & M:
            return 0
        ok = 1
        for n, x in enumerate(ch):
            cur = val[x]
            if op == 'and':
                v = cur | want
                if n == 0:
                    v = want | (cur & ~c & M)
            else:
                v = cur & want
                if n == 0:
                    v = want & (~c | cur) & M if c else want
            ok &= bool(rec(x, v))
        return ok
    if op == 'ite':
        c = val[a[0]]
        x = a[1] if c else a[2]
        y = a[2] if c else a[1]
        if rnd.randrange(2) and rec(x, want):
            return 1
        if g(y) == want and rec(a[0], 1 - c):
            return 1
        return rec(x, want)
    if op == 'eq':
        x, y = a[0], a[1]
        if rnd.randrange(2):
            x, y = y, x
        if want:
            return rec(x, g(y)) or rec(y, g(x))
        return rec(x, g(y) ^ 1) or rec(y, g(x) ^ 1)
    if op in ('ult', 'slt'):
        x, y = a
        ww = (x if isT(x) else y).w
        N = (1 << ww) - 1
        low, high = (0, N) if op == 'ult' else (1 << (ww - 1), N >> 1)
        if want:
            r = rnd.randrange(3)
            if r == 0 and g(y) != low and rec(x, g(y) - 1 & N):
                return 1
            if r == 1 and g(x) != high and rec(y, g(x) + 1 & N):
                return 1
            return g(y) != low and rec(x, low) or g(x) != high and rec(y, high)
        r = rnd.randrange(4)
        return r == 0 and rec(x, g(y)) or r == 1 and rec(y, g(x)) or r == 2 and rec(x, high) or rec(y, low) or rec(x, high)
    if op in ('zu', 'decl'):
        return want >= 0 and rec(a[0], want)
    if op == 'bounded':
        return 0 <= want <= a[2] and rec(a[0], want)
    if op == 'zs':
        return rec(a[0], want & ((1 << a[0].w) - 1))
    if op == 'sext':
        lo = want & ((1 << a[0].w) - 1)
        return sext(lo, a[0].w, w) == want and rec(a[0], lo)
    if op == 'bvz':
        return rec(a[0], want) or rec(a[0], (val[a[0]] & ~M) | want)
    if op in ('zneg?', 'zzero?'):
        z = val[a[0]]
        if op == 'zzero?':
            return rec(a[0], 0 if want else 1)
        return rec(a[0], rnd.choice([-1, -z - 1, -z]) if want else rnd.choice([0, 1, -z]))
    if op == 'zmodf':
        n = g(a[1])
        return 0 <= want < n and (rec(a[0], val[a[0]] - val[t] + want if isT(a[0]) else want) or rec(a[0], want))
    if op in ('urem', 'zrem'):
        n = g(a[1])
        return 0 <= want < n and rec(a[0], want)
    if op in ('udiv', 'zdivt'):
        return rec(a[0], want * g(a[1]))
    if op in ('rotl',):
        return type(a[1]) is int and rec(a[0], rotr(w, want, a[1])) or isT(a[1]) and rec(a[0], rotr(w, want, val[a[1]]))
    if op in ('shl', 'lshr'):
        n = g(a[1])
        v = want >> n if op == 'shl' else want << n & M
        if n < w and (v << n & M if op == 'shl' else v >> n) == want and rec(a[0], v):
            return 1
        return want == 0 and rec(a[1], w)
    if op == 'zshr':
        return rec(a[0], want << g(a[1]))
    if op == 'sel':
        ix = [i for i, x in enumerate(a[0]) if g(x) == want]
        return bool(ix) and rec(a[1], rnd.choice(ix))
    if op in ('mul', 'zmul'):
        ch = list(a[0])
        if len(set(ch)) == 1 and len(ch) == 2:
            from math import isqrt
            return want >= 0 and isqrt(want) ** 2 == want and rec(ch[0], isqrt(want))
        if want == 0:
            return rec(rnd.choice(ch), 0)
        for x in ch:
            r = 1
            for y in ch:
                if y is not x:
                    r *= val[y]
            if op == 'mul':
                if r & 1 and rec(x, want * pow(r, -1, M + 1) & M):
                    return 1
            elif r and want % r == 0 and rec(x, want // r):
                return 1
        # make one factor 1
        return len(ch) == 2 and rec(ch[0], 1) and rec(ch[1], want)
    return 0


# ---------------------------------------------------------------- substitution
def rebuild1(t, g):
    """node t with its operands mapped by g, through the normalising constructors"""
    op, w, a = t.op, t.w, t.a
    if op == 'cat':
        ps = []
        for (p, lo, n) in a[0]:
            if type(p) is T:
                q = g(p)
                if type(q) is int:
                    ps.append(((q >> lo) & ones(n), 0, n))
                else:
                    ps.append((q, lo, n))
            else:
                ps.append((p, lo, n))
        return cat(ps)
    if op == 'add':
        return add(w, a[0], *[mulc(w, g(x), k) for x, k in a[1]])
    if op in ('xor', 'and', 'or'):
        return {'xor': bxor, 'and': band, 'or': bor}[op](w, a[0], *[g(x) for x in a[1]])
    if op == 'mul':
        r = 1
        for x in a[0]:
            r = mul(w, r, g(x))
        return r
    if op == 'ite':
        return ite(g(a[0]), w, g(a[1]), g(a[2]))
    if op == 'sel':
        return sel([g(x) for x in a[0]], w, g(a[1]), a[1].w)
    if op in ('eq', 'ult', 'slt'):
        ww = a[0].w if type(a[0]) is T else a[1].w
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](ww, g(a[0]), g(a[1]))
    if op == 'sext':
        return sext(g(a[0]), a[0].w, w)
    if op in ('shl', 'lshr', 'ashr'):
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](w, g(a[0]), g(a[1]))
    if op == 'rotl':
        n = g(a[1])
        return rotl(w, g(a[0]), n) if type(n) is int else mk('rotl', w, g(a[0]), n)
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](w, g(a[0]), g(a[1]))
    if op == 'decl':
        return decl(g(a[0]))
    if op == 'uf':
        return mk('uf', w, a[0], *[g(x) for x in a[1:]])
    if op == 'zu':
        return zu(g(a[0]), a[0].w)
    if op == 'zs':
        return zs(g(a[0]), a[0].w)
    if op == 'zadd':
        return zadd(a[0], *[zscale(g(x), k) for x, k in a[1]])
    if op == 'zmul':
        r = 1
        for x in a[0]:
            r = zmul(r, g(x))
        return r
    if op in ('zmodf', 'zrem', 'zdivt'):
        y = g(a[1])
        if type(y) is int and y == 0:
            return mk(op, 0, g(a[0]), 0)
        return {'zmodf': zmodf, 'zrem': zrem, 'zdivt': zdivt}[op](g(a[0]), y)
    if op in ('zshr', 'zband', 'zbor', 'zbxor'):
        return {'zshr': zshr, 'zband': zband, 'zbor': zbor, 'zbxor': zbxor}[op](g(a[0]), g(a[1]))
    if op == 'zpow2':
        n = g(a[0])
        return 1 << n if type(n) is int else mk('zpow2', 0, n)
    if op == 'zmodpow':
        return zmodpow(g(a[0]), g(a[1]), g(a[2]))
    if op == 'bvz':
        return bvz(g(a[0]), w)
    if op == 'zneg?':
        return zlt(g(a[0]), 0)
    if op == 'zzero?':
        return zeq(g(a[0]), 0)
    if op == 'blen':
        return blen(g(a[0]))
    return mk(op, w, *[g(x) if type(x) is T else x for x in a])


def rebuild(x, sub, cache=None):
    """x with the nodes in sub replaced"""
    if type(x) is not T:
        return x
    if cache is None:
        cache = {}
    cache.update(sub)
    g = lambda y: y if type(y) is not T else cache[y]
    st = [x]
    while st:
        t = st[-1]
        if t in cache:
            st.pop()
            continue
        if t.op == 'var':
            cache[t] = t
            st.pop()
            continue
        ks = [k for k in kids(t) if k not in cache]
        if ks:
            st.extend(ks)
            continue
        st.pop()
        if all(cache[k] is k for k in kids(t)):
            cache[t] = t
        else:
            cache[t] = rebuild1(t, g)
    return cache[x]


def pivots(x):
    """nodes of small finite range (representation lengths) x depends on"""
    if type(x) is not T:
        return _E
    if x.pv is not None:
        return x.pv
    st = [x]
    while st:
        t = st[-1]
        if t.pv is not None:
            st.pop()
            continue
        ks = kids(t)
        p = [k for k in ks if k.pv is None]
        if p:
            st.extend(p)
            continue
        s = _E
        for k in ks:
            if k.pv and k.pv is not s:
                s = s | k.pv
        if t.op == 'blen':
            s = s | {t}
        t.pv = s
        st.pop()
    return x.pv


def implied(pc, c):
    """1/0 when the path condition fixes c, by case distinction over representation lengths; else c"""
    ps = pivots(c)
    if not ps or len(ps) > 2:
        return c
    conj = [x for x in (pc.a[1] if pc.op == 'and' else (pc,)) if pivots(x) & ps and pivots(x) <= ps]
    if not conj:
        return c
    rng = []
    for p in ps:
        lo, hi = umin(p), umax(p)
        if hi - lo > 140:
            return c
        rng.append((p, lo, hi))
    if len(rng) == 2 and (rng[0][2] - rng[0][1]) * (rng[1][2] - rng[1][1]) > 400:
        return c
    import itertools
    res = None
    for vs in itertools.product(*[range(lo, hi + 1) for _, lo, hi in rng]):
        sub = {p: v for (p, _, _), v in zip(rng, vs)}
        cache = {}
        dead = False
        for x in conj:
            v = rebuild(x, sub, cache)
            if type(v) is int and v == 0:
                dead = True
                break
        if dead:
            continue
        v = rebuild(c, sub, cache)
        if type(v) is not int or (res is not None and res != v):
            return c
        res = v
    return c if res is None else res


def split_pivots(pairs):
    """case distinction over representation lengths: list of lists of pairs, or None"""
    ps = set()
    for x, y in pairs:
        for t in (x, y):
            if type(t) is T:
                ps |= pivots(t)
    if not ps or len(ps) > 2:
        return None
    ps = sorted(ps, key=lambda t: t.id)
    import itertools
    n = 1
    for p in ps:
        n *= umax(p) - umin(p) + 1
    if n > 600:
        return None
    out = []
    for vs in itertools.product(*[range(umin(p), umax(p) + 1) for p in ps]):
        sub = {}
        for p, v in zip(ps, vs):
            sub[p] = v
            z = p.a[0]
            sub[z] = mk('bounded', 0, z, 0, 256 ** v - 1)
            if z.op == 'zu' and z.a[0].op == 'cat':     # the bytes above the representation are zero
                pos = z.a[0].w
                for (q, lo, n) in z.a[0].a[0]:
                    pos -= n
                    if pos >= 8 * v and type(q) is T and lo == 0 and n == q.w:
                        sub[q] = 0
        cache = {}
        out.append((dict(zip(ps, vs)), [(rebuild(x, sub, cache), rebuild(y, sub, cache)) for x, y in pairs]))
    return out
