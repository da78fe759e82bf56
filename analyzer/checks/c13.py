"""Element access is bounds checked for every index value; no unchecked access anywhere."""
from checks.seqs import *
EXPLANATION = BASE_EXPL + ' Roots: every Index/IndexMut implementation of seventeen array types and five sequence types with a symbolic index; plus an effect scan of every library function body for raw-pointer dereferences, unchecked access and unsafe calls.'
RULE = 'index returns iff 0 <= i < len, then selects/overwrites exactly element i; no unsafe operation or raw-pointer access in any library function body'
FLOOR = 3000


def t_idx(t, m, w, n):
    xs = V('x', n, w)
    v = var('v', w)
    for ity, iw in (('usize', 64), ('u8', 8), ('u32', 32), ('i32', 32)):
        i = var('i', iw)
        j = sext(i, 32, 64) if ity == 'i32' else zext(i, iw, 64)
        ok = ult(64, j, n)
        r = t.run('%s::index_%s' % (m, ity), [xs, i], '%s/index_%s' % (m, ity))
        if r is not None:
            t.returns('%s/index_%s/returns' % (m, ity), r, ok)
        for c in list(range(n)) + [n, n + 1] if n <= 20 else sample(n):
            if iw == 8 and c > 255:
                continue
            fn_(t, '%s/index_%s[%d]' % (m, ity, c), '%s::index_%s' % (m, ity), [xs, c], [xs[c]] if c < n else None)
            fn_(t, '%s/index_mut_%s[%d]' % (m, ity, c), '%s::index_mut_%s' % (m, ity), [xs, c, v], xs[:c] + [v] + xs[c + 1:] if c < n else None)
        if ity == 'i32':
            for c in (-1, -n, -n - 1, -(1 << 31)):
                panics(t, '%s/index_i32[%d]' % (m, c), '%s::index_i32' % m, [xs, c & ones(32)])
                panics(t, '%s/index_mut_i32[%d]' % (m, c), '%s::index_mut_i32' % m, [xs, c & ones(32), v])


def t_range(t, m, w, n):
    xs = V('x', n, w)
    ps = sample(n)
    for a in ps:
        for b in ps:
            fn_(t, '%s/index_range[%d..%d]' % (m, a, b), m + '::index_range', [xs, a, b], xs[a:b] if a <= b <= n else None)


def t_unsafe(t):
    """no raw memory access in library code"""
    import effects
    bad = {}
    for cr, f, kind, where in effects.memory_sites(t.prog):
        bad.setdefault((f, kind), where)
    n = effects.scanned(t.prog)
    t.ok('unsafe/scanned', n >= 3000, 'only %d library function bodies scanned' % n)
    t.count('library function bodies scanned for unsafe operations', n)
    for (f, kind), where in sorted(bad.items()):
        t.ok('unsafe/%s/%s' % (f, kind), False, 'unchecked memory access or unsafe operation: ' + kind, where)
    t.ok('unsafe/none', not bad)
    # the rule must be able to fire: one obligation per control instance in the harness
    seen = {(f.split('::')[-1], k.split(':')[0].split(' ')[0]) for _, f, k, _ in effects.memory_sites(t.prog, True)}
    for f, k in (('raw_deref', 'raw'), ('unchecked', 'unsafe'), ('transmuted', None), ('global', 'mutable')):
        t.ok('unsafe/control/' + f, any(x == f and (k is None or y == k) for x, y in seen), 'the scan no longer sees the control ' + f)


def tasks(prog, tier):
    for s, w, n in ARR + LARR:
        yield 'arr-' + s, t_idx, ('arr::a_' + s, w, n)
    for s, w in SEQ:
        for n in (0, 1, 4):
            yield 'seq-%s-%d' % (s, n), t_idx, ('arr::e_' + s, w, n)
        for n in sorted({17, 70, 300} | set(lengths(prog, 'arr::e_%s::index_usize' % s, 1200))):
            yield 'seq-%s-%d' % (s, n), t_idx, ('arr::e_' + s, w, n)
        yield 'range-long-' + s, t_range, ('arr::e_' + s, w, 70)
        yield 'range-' + s, t_range, ('arr::e_' + s, w, 4)
    yield 'unsafe', t_unsafe, ()
