"""Random generators: every element is made of draws of its own and takes every value of its type."""
from checks.seqs import *
EXPLANATION = ('Dataflow from the random source: the compiled MIR of every generator is interpreted in the value-numbering domain, each draw of the random source being a fresh '
               'symbol; the provenance of every bit of the result is read off the value graph. Roots: random/get_random_vec of seventeen array types, Seq::random, random ring elements.')
RULE = ('each element is a rearrangement of bits of draws (possibly plus or xor a value independent of them), no bit of a draw occurs twice in the result, the width of the element is '
        'covered; range draws cover exactly 0..n')
FLOOR = 150
ASSUMPTIONS = ['the rand crate delivers independent uniform draws', 'a range draw gen_range(a, b) takes every value of a..b']


def pieces(v, w):
    """[(symbol, low bit, bits)] when v is a concatenation of parts of symbols, else None"""
    if type(v) is not T:
        return None
    if v.op == 'var':
        return [(v, 0, w)]
    if v.op == 'cat':
        out = []
        for p in v.args:
            if type(p) is tuple:
                x, lo, n = p
            else:
                x, lo, n = p, 0, p.w
            if type(x) is not T or x.op != 'var':
                return None
            out.append((x, lo, n))
        return out
    return None


def support(v, seen=None):
    seen = set() if seen is None else seen
    st = [v]
    out = set()
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif type(x) is T and id(x) not in seen:
            seen.add(id(x))
            if x.op == 'var':
                out.add(x)
            else:
                st.extend(x.args)
    return out


def free_part(v, w):
    """symbols from which v gets a uniform value of its width: pieces, or a sum/xor with such a part independent of the rest"""
    p = pieces(v, w)
    if p is not None:
        return p
    if type(v) is T and v.op in ('add', 'xor', 'sum', 'lin'):
        for i, a in enumerate(v.args):
            p = pieces(a, w)
            if p is None:
                continue
            rest = support([b for j, b in enumerate(v.args) if j != i])
            if not rest & {x for x, _, _ in p}:
                return p
    return None


def uniform(t, key, root, specs, n, w):
    r = t.run(root, specs, key)
    if r is None:
        return
    where = site(t.prog, root)
    t.returns(key + '/total', r)
    if r.ret is None:
        return t.ok(key, False, 'never returns', where)
    ls = leaves(r.I, r.ret)
    t.ok(key + '/count', len(ls) == n, '%d elements instead of %d' % (len(ls), n), where)
    drawn = {x for e in r.I.effects if e[0] == 'rng' for x in flat(e[2])}
    used = {}
    for i, v in enumerate(ls):
        k = '%s/element%d' % (key, i)
        p = free_part(v, w)
        if p is None:
            t.ok(k, False, 'the element is not made of draws of the random source: %s' % show(v, 6)[:200], where)
            continue
        bad = ''
        if sum(b for _, _, b in p) != w:
            bad = 'only %d of %d bits are random' % (sum(b for _, _, b in p), w)
        for x, lo, b in p:
            if x not in drawn:
                bad = 'not a draw of the random source: %s' % show(x, 3)
            for q in range(lo, lo + b):
                if (x, q) in used:
                    bad = 'bit %d of a draw is used again (element %d)' % (q, used[x, q])
                used[x, q] = i
        t.ok(k, not bad, bad, where)


def flat(v):
    if type(v) is T:
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from flat(x)


def t_poly(t):
    key, root = 'ring/random', 'pol::ring::random'
    r = t.run(root, [], key)
    if r is None:
        return
    where = site(t.prog, root)
    t.returns(key + '/total', r)
    ls = leaves(r.I, r.ret)
    t.ok(key + '/count', len(ls) == 3, '%d coefficients' % len(ls), where)
    rng = {e[2][0]: e[2][1:] for e in r.I.effects if e[0] == 'rng_range'}
    seen = set()
    for i, v in enumerate(ls):
        b = rng.get(v) if type(v) is T else None
        t.ok('%s/coefficient%d' % (key, i), b is not None and tuple(b) == (0, 7) and v not in seen,
             'the coefficient is not a draw of its own from 0..7: %s' % (show(v, 5) if type(v) is T else v), where)
        seen.add(v)


def tasks(prog, tier):
    for m, w, n in ARR + LARR:
        if 'crate::arr::z_%s::random' % m in prog.roots or 'arr::z_%s::random' % m in prog.roots:
            yield m, uniform, (m + '/random', 'arr::z_%s::random' % m, [], n, w)
            for l in sorted({0, 1, 2, 3, n, n + 3, 33, 65, 130} | set(lengths(prog, 'arr::z_%s::get_random_vec' % m, 4000))):
                yield '%s-%d' % (m, l), uniform, ('%s/get_random_vec[%d]' % (m, l), 'arr::z_%s::get_random_vec' % m, [l], l, w)
    for l in sorted(set(range(9)) | {15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 256, 257, 300} | set(lengths(prog, 'arr::seqx::random', 4000))) if tier == 'quick' else range(0, 600):
        yield 'seq-%d' % l, uniform, ('Seq/random[%d]' % l, 'arr::seqx::random', [l], l, 8)
    yield 'poly', t_poly, ()
