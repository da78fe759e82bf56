"""Copy regions: constructors, slices, chunks and updates touch exactly the requested elements."""
from checks.seqs import *
EXPLANATION = BASE_EXPL + ' Roots: constructors, sub/subr/from_sub, num_chunks/get_chunk/set_chunk, update/update_sub/update_start, from_slice/vec/seq of seventeen array and five sequence types; contents symbolic, every start/length combination (in and out of range) up to the shape bound.'
RULE = 'output element = prescribed input element (or default); out-of-range regions are refused'
FLOOR = 30000


def common(t, m, xs, w, n, seq, extra=()):
    """xs: object of length n"""
    k = m + '/'
    g = lambda f: m + '::' + f
    fn_(t, k + 'clone', g('clone'), [xs], xs)
    for f in ('len', 'tlen'):
        fn_(t, k + '%s[%d]' % (f, n), g(f), [xs], [n])
    fn_(t, k + 'iter[%d]' % n, g('iter_collect'), [xs], xs)
    ps = sample(n, extra)
    for a in ps:
        for l in ps:
            fn_(t, k + 'sub[%d:%d,%d]' % (n, a, l), g('sub'), [xs, a, l], xs[a:a + l] if a + l <= n else None)
            fn_(t, k + 'subr[%d:%d..%d]' % (n, a, l), g('subr'), [xs, a, l], xs[a:l] if a <= l <= n else None)
    fn_(t, k + 'num_chunks[%d/0]' % n, g('num_chunks'), [xs, 0], None)
    for c in (range(1, n + 3) if n <= 20 else [c for c in ps if c] + [n + 2]):
        nc = (n + c - 1) // c
        fn_(t, k + 'num_chunks[%d/%d]' % (n, c), g('num_chunks'), [xs, c], [nc])
        for i in (range(nc + 2) if n <= 20 else sorted({0, 1, 2, nc // 2, max(nc - 2, 0), nc - 1, nc, nc + 1})):
            s = c * i
            l = min(c, n - s)
            if not seq and s <= n:
                fn_(t, k + 'get_chunk_len[%d/%d:%d]' % (n, c, i), g('get_chunk_len'), [xs, c, i], [l])
            fn_(t, k + 'get_chunk[%d/%d:%d]' % (n, c, i), g('get_chunk'), [xs, c, i], [l] + xs[s:s + l] if s <= n else None)
            if s <= n:
                v = V('v', l, w)
                fn_(t, k + 'set_chunk[%d/%d:%d]' % (n, c, i), g('set_chunk'), [xs, c, i, v], xs[:s] + v + xs[s + l:])
                fn_(t, k + 'set_chunk[%d/%d:%d,long]' % (n, c, i), g('set_chunk'), [xs, c, i, V('v', l + 1, w)], None)
                if l:
                    fn_(t, k + 'set_chunk[%d/%d:%d,short]' % (n, c, i), g('set_chunk'), [xs, c, i, V('v', l - 1, w)], None)
    for vl in sorted({0, 1, 2, n, n + 1} | ({x for x in ps if x < n} if n > 20 else set())):
        v = V('v', vl, w)
        for so in ps:
            ok = so + vl <= n
            fn_(t, k + 'update[%d:%d<-%d]' % (n, so, vl), g('update'), [xs, so, v], xs[:so] + v + xs[so + vl:] if ok else None)
        fn_(t, k + 'update_start[%d<-%d]' % (n, vl), g('update_start'), [xs, v], v + xs[vl:] if vl <= n else None)
    vl = min(n, 4) + 1
    v = V('v', vl, w)
    for so in range(min(n, 5) + 2):
        for si in range(vl + 2):
            for l in range(min(n, 4) + 3):
                ok = so + l <= n and si + l <= vl
                fn_(t, k + 'update_sub[%d:%d<-%d:%d,%d]' % (n, so, vl, si, l), g('update_sub'), [xs, so, v, si, l],
                    xs[:so] + v[si:si + l] + xs[so + l:] if ok else None)
    if n > 20:
        v = V('v', n, w)
        for so in ps[::2]:
            for si in ps[::3]:
                for l in ps[::2]:
                    ok = so + l <= n and si + l <= n
                    fn_(t, k + 'update_sub[%d:%d<-%d:%d,%d]' % (n, so, n, si, l), g('update_sub'), [xs, so, v, si, l],
                        xs[:so] + v[si:si + l] + xs[so + l:] if ok else None)


def t_arr(t, s, w, n, extra=()):
    m = 'arr::a_' + s
    xs = V('x', n, w)
    k = m + '/'
    g = lambda f: m + '::' + f
    for f in ('new', 'default'):
        fn_(t, k + f, g(f), [], [0] * n)
    fn_(t, k + 'capacity', g('capacity'), [], [n])
    for l in (0, n - 1, n, n + 1):
        fn_(t, k + 'create[%d]' % l, g('create'), [l], [0] * n if l == n else None)
        v = V('v', l, w)
        fn_(t, k + 'from_slice[%d]' % l, g('from_slice'), [v], v + [0] * (n - l) if l <= n else None)
        for f in ('from_vec', 'from_seq'):
            fn_(t, k + '%s[%d]' % (f, l), g(f), [v], v if l == n else None)
    fn_(t, k + 'from_array', g('from_array'), [xs], xs)
    fn_(t, k + 'from_seq_arr', g('from_seq_arr'), [xs], xs)
    v = V('v', n + 3, w)
    for a in range(6):
        for l in (n - 1, n, n + 1):
            ok = l == n and a + n <= n + 3
            fn_(t, k + 'from_sub[%d,%d]' % (a, l), g('from_sub'), [v, a, l], v[a:a + n] if ok else None)
            fn_(t, k + 'from_sub_range[%d..%d]' % (a, a + l), g('from_sub_range'), [v, a, a + l], v[a:a + n] if ok else None)
    fn_(t, k + 'index_full', g('index_full'), [xs], xs)
    for so in (0, 1, n):
        for si in (0, 1, n):
            for l in (0, 1, n - 1, n):
                fn_(t, k + 'update_sub_arr[%d<-%d,%d]' % (so, si, l), g('update_sub_arr'), [xs, so, V('v', n, w), si, l],
                    xs[:so] + V('v', n, w)[si:si + l] + xs[so + l:] if so + l <= n and si + l <= n else None)
    common(t, m, xs, w, n, False, extra)


def t_seq(t, s, w, n, extra=()):
    m = 'arr::e_' + s
    xs = V('x', n, w)
    k = m + '/'
    g = lambda f: m + '::' + f
    if n == 0:
        fn_(t, k + 'default', g('default'), [], [])
    for f in ('new', 'create'):
        fn_(t, k + '%s[%d]' % (f, n), g(f), [n], [0] * n)
    for f in ('from_vec', 'from_slice', 'from_seq'):
        fn_(t, k + '%s[%d]' % (f, n), g(f), [xs], xs)
    for a in sample(n, extra):
        for l in sample(n, extra):
            fn_(t, k + 'from_sub[%d:%d,%d]' % (n, a, l), g('from_sub'), [xs, a, l], xs[a:a + l] if a + l <= n else None)
            fn_(t, k + 'from_sub_range[%d:%d..%d]' % (n, a, l), g('from_sub_range'), [xs, a, l], xs[a:l] if a <= l <= n else None)
    common(t, m, xs, w, n, True, extra)


def t_big(t, s, w, n):
    """whole copies and the two ends of a long sequence"""
    xs, v = V('x', n, w), V('v', n, w)
    m = 'arr::e_' + s
    k, g = m + '/', lambda f: m + '::' + f
    for f in ('from_vec', 'from_slice', 'from_seq', 'clone', 'iter_collect'):
        fn_(t, k + '%s[%d]' % (f, n), g(f), [xs], xs)
    fn_(t, k + 'sub[%d:1,%d]' % (n, n - 1), g('sub'), [xs, 1, n - 1], xs[1:])
    fn_(t, k + 'from_sub[%d:0,%d]' % (n, n), g('from_sub'), [xs, 0, n], xs)
    fn_(t, k + 'get_chunk[%d/%d:0]' % (n, n), g('get_chunk'), [xs, n, 0], [n] + xs)
    fn_(t, k + 'set_chunk[%d/%d:0]' % (n, n), g('set_chunk'), [xs, n, 0, v], v)
    fn_(t, k + 'set_chunk[%d/64:%d]' % (n, n // 64 - 1), g('set_chunk'), [xs, 64, n // 64 - 1, v[:64]], xs[:n // 64 * 64 - 64] + v[:64] + xs[n // 64 * 64:])
    fn_(t, k + 'update_start[%d<-%d]' % (n, n), g('update_start'), [xs, v], v)
    fn_(t, k + 'update_sub[%d:0<-0,%d]' % (n, n), g('update_sub'), [xs, 0, v, 0, n], v)
    fn_(t, k + 'update_sub[%d:1<-2,%d]' % (n, n - 2), g('update_sub'), [xs, 1, v, 2, n - 2], xs[:1] + v[2:] + xs[n - 1:])
    fn_(t, k + 'update[%d:1<-%d]' % (n, n - 1), g('update'), [xs, 1, v[:-1]], xs[:1] + v[:-1])


def tasks(prog, tier):
    fns = ('sub', 'subr', 'num_chunks', 'get_chunk', 'set_chunk', 'update', 'update_start', 'update_sub', 'from_slice', 'from_vec', 'from_seq', 'create')
    near = lambda m, known: sorted({x for f in fns for x in lengths(prog, m + '::' + f, 1200, known)})
    for s, w, n in ARR:
        yield 'arr-' + s, t_arr, (s, w, n)
    for s, w, n in LARR:
        yield 'arr-' + s, t_arr, (s, w, n, near('arr::a_' + s, range(n + 2, 5000))[:20])
    for s, w in SEQ:
        more = near('arr::e_' + s, range(6))
        for n in sorted({40, 130} | set(more[:12])):
            yield 'seq-long-%s-%d' % (s, n), t_seq, (s, w, n, more[:12])
        big = sorted({x for f in fns for x in lengths(prog, 'arr::e_%s::%s' % (s, f), 20000) if x > 200})
        for n in sorted({1030} | set(big[:12])):
            yield 'seq-big-%s-%d' % (s, n), t_big, (s, w, n)
    for s, w in SEQ:
        for n in (0, 1, 2, 5, 8) if tier == 'quick' else range(0, 17):
            yield 'seq-%s-%d' % (s, n), t_seq, (s, w, n)
