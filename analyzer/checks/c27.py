"""P-256 scalar multiplication."""
from checks.common import *
EXPLANATION = BASE_EXPL + (' Two layers. (1) The functions of the module that map Jacobian points to Jacobian points (found by signature) are analysed with symbolic coordinates '
                           'and compared with the affine chord and tangent rules of the curve group, including the point at infinity and opposite points. (2) point_mul is '
                           'analysed for every 256-bit scalar in the homomorphic abstraction that replaces a point by its multiple of the base point (an integer '
                           'modulo the group order), the two operations by their effect on multiples. Where the functions cannot be identified, point_mul is '
                           'analysed with everything expanded for all scalars of few bits.')
RULE = 'double, add = group law in affine coordinates; multiple computed by point_mul(k) = k mod n for every k; no panic'
FLOOR = 4
P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
GX = 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296
GY = 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5
F = S.Field(P)
ASSUMPTIONS = ['the base point has order n and the affine chord and tangent rules are the group law (curve theory)', 'p is prime: z^(p-2) is the inverse of z']


def el(name):
    return zmodf(zu(var(name, 256), 256), P)


def sq(x):
    return F.mul(x, x)


def cube(x):
    return F.mul(x, F.mul(x, x))


def mulc_(k, x):
    return zmodf(zmul(k, x), P)


def affine(x, y, z):
    i = F.inv(z)
    i2 = F.mul(i, i)
    return F.mul(x, i2), F.mul(y, F.mul(i2, i))


def aff_double(x, y):
    l = F.mul(F.sub(mulc_(3, F.mul(x, x)), 3), F.inv(mulc_(2, y)))
    x3 = F.sub(F.sub(F.mul(l, l), x), x)
    return x3, F.sub(F.mul(l, F.sub(x, x3)), y)


def aff_add(x1, y1, x2, y2):
    l = F.mul(F.sub(y2, y1), F.inv(F.sub(x2, x1)))
    x3 = F.sub(F.sub(F.mul(l, l), x1), x2)
    return x3, F.sub(F.mul(l, F.sub(x1, x3)), y1)


# ---------------------------------------------------------------- functions by signature
def kinds(prog):
    """{'double': [inst], 'add': [...], 'affine': [...]} of the module's functions over Jacobian points"""
    fe = prog.body(prog.roots['spec::ecc::p256_fe']).locals[0]

    def shape(ty):
        t = prog.types[ty]
        return len(t['fields']) if t['k'] == 'tuple' and all(f == fe for f in t['fields']) else 0
    out = {'double': [], 'add': [], 'affine': []}
    for i, f in enumerate(prog.fns):
        if f.get('crate') != 'hacspec_examples' or '::p256::' not in f['def'] or 'body' not in f:
            continue
        b = prog.body(i)
        a, r = [shape(x) for x in b.locals[1:1 + b.argc]], shape(b.locals[0])
        for nm, want in (('double', ([3], 3)), ('add', ([3, 3], 3)), ('affine', ([3], 2))):
            if (a, r) == want:
                out[nm].append(i)
    return out


def coords(*zs):
    """a tuple of field elements with the given residues as an argument"""
    def mk_(I, ty):
        inst = I.p.roots['spec::ecc::p256_fe']
        return (0, tuple(I.go(inst, [z]) for z in zs))
    return mk_


def back(I, v):
    inst = I.p.roots['spec::ecc::z']
    return [I.go(inst, [x]) for x in v[1]]


class Mul:
    """run a function over points"""

    def __init__(self, t, inst, key):
        self.t, self.inst, self.key = t, inst, key

    def run(self, specs):
        r = analyse_inst(self.t, self.inst, specs, self.key)
        return r


def analyse_inst(t, inst, specs, key):
    try:
        r = analyse(t.prog, t.prog.fns[inst]['def'], specs, inst=inst)
    except Unsupported as e:
        t.ok(key, False, 'not analysable: %s' % e, t.prog.where(inst))
        return None
    except RecursionError:
        t.ok(key, False, 'not analysable: recursion', t.prog.where(inst))
        return None
    t.note(r)
    return r


def point(t, key, inst, args, want, assume=()):
    """the function maps the points `args` to the affine point `want` ('inf': the point at infinity; triple: these coordinates)"""
    r = analyse_inst(t, inst, [coords(*a) for a in args], key)
    if r is None:
        return
    if r.ret is None:
        return t.ok(key, False, 'never returns', t.prog.where(inst))
    ok = r.ok
    if type(ok) is T:
        d = differ([(ok, 1)], rounds=20, seed=key, assume=[a for a in assume if type(a) is T])
        t.ok(key + '/total', d is None, 'panics: ' + '; '.join(str(e.detail) for e in r.panics[:2]), t.prog.where(inst))
    else:
        t.ok(key + '/total', True)
    x, y, z = back(r.I, r.ret)
    if want == 'inf':
        t.equal(key, [z], [0], ok=ok, assume=assume, where=t.prog.where(inst))
    elif len(want) == 3:
        t.equal(key, [x, y, z], list(want), ok=ok, assume=assume, where=t.prog.where(inst))
    else:
        gx, gy = affine(x, y, z)
        t.equal(key, [gx, gy, zeq(z, 0)], list(want) + [0], ok=ok, assume=assume, where=t.prog.where(inst))


def nz(*zs):
    """the residues are not zero"""
    return [bnot(1, zeq(z, 0)) for z in zs]


def law_double(t, f, nm):
    x, y, z = el('x'), el('y'), el('z')
    point(t, nm + '/generic', f, [(x, y, z)], aff_double(*affine(x, y, z)), nz(y, z))
    point(t, nm + '/z=1', f, [(x, y, 1)], aff_double(x, y), nz(y))
    point(t, nm + '/infinity', f, [(x, y, 0)], 'inf')
    point(t, nm + '/infinity-const', f, [(0, 1, 0)], 'inf')


def law_add(t, f, nm):
    p, q = (el('x'), el('y'), el('z')), (el('u'), el('v'), el('w'))
    l = el('l')
    ap, aq = affine(*p), affine(*q)
    point(t, nm + '/generic', f, [p, q], aff_add(*(ap + aq)), nz(p[2], q[2], F.sub(ap[0], aq[0])))
    point(t, nm + '/z=1', f, [(p[0], p[1], 1), q], aff_add(*((p[0], p[1]) + aq)), nz(q[2], F.sub(p[0], aq[0])))
    point(t, nm + '/same-x', f, [(p[0], p[1], 1), (p[0], F.sub(0, p[1]), 1)], 'inf', nz(p[1]))
    point(t, nm + '/opposite', f, [p, (F.mul(p[0], sq(l)), F.mul(F.sub(0, p[1]), cube(l)), F.mul(p[2], l))], 'inf', nz(p[1], p[2], l))
    for k, a in (('', (el('a'), el('b'), 0)), ('-const', (0, 1, 0))):
        point(t, nm + '/infinity+Q' + k, f, [a, q], aq, nz(q[2]))
        point(t, nm + '/P+infinity' + k, f, [p, a], ap, nz(p[2]))
        point(t, nm + '/infinity+infinity' + k, f, [a, (el('c'), el('d'), 0)], 'inf')
    # equal points: refused or doubled, never another point
    r = analyse_inst(t, f, [coords(p[0], p[1], 1), coords(p[0], p[1], 1)], nm + '/equal')
    if r is not None:
        if r.ret is None:
            t.ok(nm + '/equal', True, 'refused')
        else:
            x, y, z = back(r.I, r.ret)
            t.equal(nm + '/equal', list(affine(x, y, z)), list(aff_double(p[0], p[1])), ok=r.ok, where=t.prog.where(f))


def law_affine(t, f, nm):
    for k, a in (('generic', (el('x'), el('y'), el('z'))), ('z=1', (el('x'), el('y'), 1))):
        r = analyse_inst(t, f, [coords(*a)], nm + '/' + k)
        if r is not None:
            t.returns(nm + '/%s/total' % k, r)
            if r.ret is not None:
                t.equal(nm + '/' + k, back(r.I, r.ret), list(affine(*a)), where=t.prog.where(f))


LAWS = (('double', law_double, 'point_double'), ('add', law_add, 'point_add'), ('affine', law_affine, 'jacobian_to_affine'))


def short(prog, i):
    return prog.fns[i]['def'].split('::')[-1]


def pick(t, keep=None):
    """the functions that satisfy the laws; the obligations of `keep` are recorded in t"""
    ks = kinds(t.prog)
    out = {}
    for nm, law, usual in LAWS:
        cand = sorted(ks[nm], key=lambda i: short(t.prog, i) != usual)
        for i in cand:
            t2 = Task(t.prog, t.tier)
            law(t2, i, nm)
            good = t2.recs and all(x.status != 'violated' for x in t2.recs)
            if good or (short(t.prog, i) == usual or len(cand) == 1):
                if keep == nm:
                    t.recs += t2.recs
                    t.fns |= t2.fns
                    t.steps += t2.steps
                if good:
                    out[nm] = i
                break
    return out


def t_law(t, nm):
    if nm not in pick(t, nm) and not any(x.status == 'violated' for x in t.recs):
        t.count('group operations not identified: ' + nm)


# ---------------------------------------------------------------- the multiple of the base point
class NotAPoint(Exception):
    pass


KNOWN = ({0: 0, GX: 1}, {1: 0, GY: 1}, {0: 0, 1: 1})


def mult(I, v, memo):
    """multiple of the base point that a (joined) Jacobian value stands for"""
    inst = I.p.roots['spec::ecc::z']
    ms = []
    for i, x in enumerate(v[1]):
        def go(v):
            if type(v) is Choice:
                return ite(v.c, 0, go(v.a), go(v.b))
            if type(v) is tuple:
                k = (i, v)
                if k not in memo:
                    st = (I.top, len(I.events))
                    z = I.call(inst, [v])
                    if len(I.events) != st[1] or type(z) is T and any(x.op == 'uf' for x in tm.support([z])):
                        raise NotAPoint('coordinate computed outside the operations')
                    I.top = st[0]
                    if type(z) is int:
                        if z not in KNOWN[i]:
                            raise NotAPoint('unexpected constant %x' % z)
                        memo[k] = KNOWN[i][z]
                    else:       # a choice among the constants
                        cs = list(KNOWN[i].items())
                        any_ = bor(1, *[zeq(z, c) for c, _ in cs])
                        if any_ != 1 and differ([(any_, 1)], rounds=40, seed='known') is not None:
                            raise NotAPoint(show(z, 6))
                        memo[k] = ite(zeq(z, cs[0][0]), 0, cs[0][1], cs[1][1])
                return memo[k]
            if type(v) is T:
                if v in memo:
                    return memo[v]
                if v.op == 'uf' and v.a[0] == 'coord%d' % i:
                    memo[v] = v.a[1]
                elif v.op == 'ite':
                    memo[v] = ite(v.a[0], 0, go(v.a[1]), go(v.a[2]))
                else:
                    raise NotAPoint(show(v, 4))
                return memo[v]
            raise NotAPoint(str(v)[:80])
        ms.append(go(x))
    if not (ms[0] is ms[1] or ms[0] == ms[1]) or not (ms[1] is ms[2] or ms[1] == ms[2]):
        if differ([(ms[0], ms[1]), (ms[0], ms[2])], rounds=20, seed='mult') is not None:
            raise NotAPoint('coordinates of different points')
    return ms[0]


def t_mul(t):
    fs = pick(t)
    if set(fs) != {'double', 'add', 'affine'}:
        t.count('point_mul analysed expanded: group operations not identified')
        return t_small(t, 6)
    memo = {}
    final = []

    def setup(I):
        fe = I.p.roots['spec::ecc::p256_fe']

        def pt(m):
            m = zmodf(m, N)
            if type(m) is int and m in (0, 1):
                return (0, tuple(I.call(fe, [c]) for c in ((0, 1, 0), (GX, GY, 1))[m]))
            return (0, tuple(uf('coord%d' % i, 0, m) for i in range(3)))

        def dbl(I, fn, args, t_):
            return pt(zmul(2, mult(I, args[0], memo)))

        def add_(I, fn, args, t_):
            a, b = mult(I, args[0], memo), mult(I, args[1], memo)
            a, b = zmodf(a, N), zmodf(b, N)
            # equal points other than infinity are not covered by the addition law
            I.require(bnot(1, band(1, zeq(a, b), bnot(1, zeq(a, 0)))), 'addition of equal points')
            return pt(zadd(a, b))

        def aff(I, fn, args, t_):
            m = zmodf(mult(I, args[0], memo), N)
            final.append(m)
            return (0, tuple(I.call(fe, [zmodf(zu(uf('affine%d' % i, 256, m), 256), P)]) for i in range(2)))
        for nm, o in (('double', dbl), ('add', add_), ('affine', aff)):
            I.overrides[t.prog.fns[fs[nm]]['def']] = o
    k = zu(var('k', 256), 256)
    try:
        r = t.run('spec::ecc::p256_z', [k], 'point_mul', setup=setup)
    except (NotAPoint, TypeError, IndexError, AttributeError) as e:
        if os.environ.get('HS_DEBUG'):
            print('outside the abstraction:', e)
        t.count('point_mul analysed expanded: values outside the abstraction')
        return t_small(t, 6)
    if r is None:
        return
    t.returns('point_mul/total', r)
    if r.ret is None:
        return t.ok('point_mul', False, 'never returns', site(t.prog, 'spec::ecc::p256_z'))
    want = zmodf(k, N)
    if len(final) == 1:
        t.equal('point_mul/multiple', [final[0]], [want], ok=r.ok, where=site(t.prog, 'spec::ecc::p256_z'))
        m = final[0]
    else:
        m = want
    t.equal('point_mul', L(r), [zmodf(zu(uf('affine%d' % i, 256, m), 256), P) for i in range(2)], ok=r.ok, where=site(t.prog, 'spec::ecc::p256_z'))


def t_small(t, nb):
    """everything expanded: scalars of nb bits, the multiple selected from the table of small multiples"""
    k = var('k', nb)
    r = t.run('spec::ecc::p256_z', [zu(k, nb)], 'small')
    if r is None:
        return
    t.returns('small/total', r)
    if r.ret is None:
        return t.ok('small', False, 'never returns')
    wx, wy, pt = 0, 0, None
    for m in range(1, 1 << nb):
        pt = (GX, GY) if m == 1 else aff_double(*pt) if m == 2 else aff_add(*(pt + (GX, GY)))
        wx, wy = ite(eq(nb, k, m), 0, pt[0], wx), ite(eq(nb, k, m), 0, pt[1], wy)
    t.equal('small', L(r), [wx, wy], ok=r.ok, where=site(t.prog, 'spec::ecc::p256_z'))


def tasks(prog, tier):
    for nm, _, _ in LAWS:
        yield nm, t_law, (nm,)
    yield 'mul', t_mul, ()
    yield 'small', t_small, (4 if tier == 'quick' else 7,)
