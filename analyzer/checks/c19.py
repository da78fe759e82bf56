"""Comparison masks and constant-time conditional selection."""
from checks.ints import *
EXPLANATION = BASE_EXPL + ' Roots: comp_* of the secret integers, *_bm and bool comparisons of all twenty integer types, cswap/cset/cadd/csub/cmul/ct_div.'
RULE = 'graph(code) = all-ones exactly when the relation holds, zero otherwise; selection returns exactly one of the two candidates'
FLOOR = 2500
LIMIT = 300


def ltm(w, x, y):
    """unsigned x < y as the borrow of x - y (Hacker's Delight 2-13): a form the bit-level normaliser relates to ult"""
    a, b, d = (extract(v, w, w - 1, 1) for v in (x, y, sub(w, x, y)))
    return bor(1, band(1, bnot(1, a), b), band(1, bor(1, bnot(1, a), b), d))


def rel(T, f, x, y):
    w = width(T)
    L_, E = lt_(T, x, y), eq(w, x, y)
    G = lt_(T, y, x)
    return {'eq': E, 'ne': bnot(1, E), 'lt': L_, 'gte': bnot(1, L_), 'gt': G, 'lte': bnot(1, G)}[f]


NAMES = {'equal': 'eq', 'greater_than': 'gt', 'greater_than_or_qual': 'gte', 'less_than': 'lt', 'less_than_or_equal': 'lte'}


def t_comp(t, T):
    w = width(T)
    x, y = xy(w)
    for f in ('eq', 'ne', 'lt', 'gte', 'gt', 'lte'):
        if signed(T):
            masked_or_refused(t, '%s/comp_%s' % (T, f), 'si::%s_::comp_%s' % (T, f), [x, y], [mask(w, rel(T, f, x, y))])
        else:
            prog_fn(t, '%s/comp_%s' % (T, f), 'si::%s_::comp_%s' % (T, f), [x, y], [mask(w, rel(T, f, x, y))])


def masked_or_refused(t, key, root, specs, want):
    r = t.run(root, specs, key)
    if r is None:
        return
    if r.ret is None:
        t.ok(key, True)
        t.count('refused (unimplemented)')
        return
    t.returns(key + '/returns', r)
    t.equal(key, L(r), want, ok=r.ok, where=site(t.prog, root), rounds=60)


def t_bm(t, T):
    w = width(T)
    x, y = xy(w)
    m = 'mi::n_%s::' % T
    for f, g in list(NAMES.items()):
        prog_fn(t, '%s/%s' % (T, f), m + f, [x, y], [rel(T, g, x, y)])
    for f, g in list(NAMES.items()) + [('not_equal', 'ne')]:
        a = ('%s/%s_bm' % (T, f), m + f + '_bm', [x, y], [mask(w, rel(T, g, x, y))])
        if T[0] == 'I':
            masked_or_refused(t, *a)
        else:
            prog_fn(t, *a)


def t_sel(t, T):
    w = width(T)
    x, y = xy(w)
    c, b = var('c', 1), var('b', 1)
    m = 'mi::n_%s::' % T
    cm, cb = sext(c, 1, w), zext(c, 1, w)
    sw = [ite(c, w, y, x), ite(c, w, x, y)]
    prog_fn(t, T + '/cswap', m + 'cswap', [x, y, cm], sw)
    prog_fn(t, T + '/cswap_bit', m + 'cswap_bit', [x, y, cb], sw)
    for f, v in (('cadd', add(w, x, y)), ('csub', sub(w, x, y)), ('cmul', mul(w, x, y))):
        prog_fn(t, '%s/%s' % (T, f), m + f, [x, y, cm], [ite(c, w, v, x)])
    for i in range(w):
        set_ = [(x, i + 1, w - 1 - i), (b, 0, 1), (x, 0, i)]
        set_ = cat([p for p in set_ if p[2] > 0])
        prog_fn(t, '%s/cset_bit[%d]' % (T, i), m + 'cset_bit', [x, zext(b, 1, w), i, cm], [ite(c, w, set_, x)])


def t_div(t, T):
    w = width(T)
    x, y = xy(w)
    r = t.run('mi::n_%s::ct_div' % T, [x, y], T + '/ct_div')
    if r is None:
        return
    t.returns(T + '/ct_div/returns', r)
    nz = bnot(1, eq(w, y, 0))
    t.equal(T + '/ct_div', L(r), [udiv(w, x, y), urem(w, x, y)], ok=r.ok, assume=[nz], where=site(t.prog, 'mi::n_%s::ct_div' % T), rounds=300)


def tasks(prog, tier):
    for T in ALL:
        if T in SECRET:
            yield 'comp-' + T, t_comp, (T,)
        yield 'bm-' + T, t_bm, (T,)
        yield 'sel-' + T, t_sel, (T,)
    for T in ['U8', 'u8', 'U16', 'u16', 'U32', 'u32'] + (['U64', 'u64'] if tier == 'thorough' else []):
        yield 'div-' + T, t_div, (T,)
