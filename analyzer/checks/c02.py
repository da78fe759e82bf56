"""Constant-time cores: branches, memory indices, variable-time operands and panics are independent of secrets."""
from checks.ints import *
import re
EXPLANATION = ('Information-flow analysis by abstract interpretation of the MIR. Every input of the analysed operation is a secret symbolic value unless declared public '
               '(lengths, shift and rotation amounts, bit positions, exponents, block counters). The analysis records the value number of every branch condition, '
               'of every run-time check (overflow, bounds, assertion), of every memory index, division or remainder operand, shift amount, allocation size and of every argument of an '
               'external operation that is not known to be fixed-time. A recorded value that is not a constant and contains a secret variable is a leak.')
RULE = 'no branch, run-time check, index, division operand, shift amount, allocation size or variable-time callee depends on a secret variable'
FLOOR = 1100
ASSUMPTIONS = ['operations of core and alloc outside the list VARTIME of analyzer/natives.py take a time and follow a control flow independent of scalar values',
               'a value that the value-number domain identifies as a constant carries no secret; timing of the emitted machine code is out of scope']
PUBLIC = 'pub'


def secret_vars(x):
    return sorted({v.a[0] for v in support([x]) if v.op == 'var' and not str(v.a[0]).startswith(PUBLIC)})


def ct(t, key, root, specs, setup=None, skip=()):
    r = t.run(root, specs, key, taint=True, setup=setup)
    if r is None:
        return
    n = 0
    for e in r.I.events:
        if e.kind == 'panic' or type(e.guard) is not T or e.kind == 'call' and e.detail in skip:
            continue
        n += 1
        vs = secret_vars(e.guard)
        if vs:
            what = {'branch': 'a branch or run-time check', 'index': 'a memory index', 'div': 'a division operand', 'shift': 'a shift amount', 'alloc': 'an allocation size',
                    'call': 'an argument of ' + str(e.detail), 'modpow': 'a modular exponentiation operand'}.get(e.kind, e.kind)
            t.ok('%s/%s in %s' % (key, e.kind, e.where.split(' (')[0]), False, '%s depends on secret %s' % (what, ', '.join(vs[:4])), e.where)
            return
    t.count('branches, indices and run-time checks seen', len([e for e in r.I.events if e.kind != 'panic']))
    t.ok(key, True)


def t_type(t, T):
    w = width(T)
    x, y = var('x', w), var('y', w)
    m = 'si::%s_::' % T
    for f in ('classify', 'declassify', 'from_repr', 'clone', 'not', 'neg'):
        ct(t, '%s/%s' % (T, f), m + f, [x])
    for f in ('add', 'sub', 'mul', 'bitand', 'bitor', 'bitxor'):
        for g in (f, f + '_assign'):
            ct(t, '%s/%s' % (T, g), m + g, [x, y])
    for f in ('comp_eq', 'comp_ne', 'comp_gt', 'comp_gte', 'comp_lt', 'comp_lte'):
        if m + f in t.prog.roots:
            ct(t, '%s/%s' % (T, f), m + f, [x, y])
    for f in ('shl', 'shl_assign', 'shr', 'shr_assign', 'rotate_left', 'rotate_right'):
        for c in (0, 1, 7, w - 1):
            ct(t, '%s/%s[%d]' % (T, f, c), m + f, [x, c])
    for f in ('to_le_bytes', 'to_be_bytes'):
        if m + f in t.prog.roots:
            ct(t, '%s/%s' % (T, f), m + f, byte_arg(t, m + f, w))
    for f in ('from_le_bytes', 'from_be_bytes'):
        if m + f in t.prog.roots:
            ct(t, '%s/%s' % (T, f), m + f, [V('a', leafs_for(t, m + f))])


def leafs_for(t, root):
    """number of byte leaves of the fixed part of the single argument (slices: two elements' worth)"""
    inst = t.prog.roots[root]
    ty = t.prog.body(inst).locals[1]
    d = t.prog.types[ty]
    if d['k'] == 'ref':
        e = t.prog.types[d['t']]
        if e['k'] == 'slice':
            m = re.search(r'[UI](\d+)_', root)
            return 2 * int(m.group(1)) // 8
        return e.get('size', 1)
    return d.get('size', 1)


def byte_arg(t, root, w):
    inst = t.prog.roots[root]
    ty = t.prog.body(inst).locals[1]
    d = t.prog.types[ty]
    if d['k'] == 'ref' and t.prog.types[d['t']]['k'] == 'slice':
        return [V('a', 3, w)]
    return [var('x', w)]


def t_conv(t):
    for root in sorted(r for r in t.prog.roots if r.startswith('si::conv::')):
        b = t.prog.body(t.prog.roots[root])
        args = [var('x%d' % i, t.prog.types[ty]['size'] * 8 if t.prog.W[ty] is None else t.prog.W[ty]) for i, ty in enumerate(b.locals[1:1 + b.argc])]
        ct(t, root[4:], root, args)


def t_trait(t, T):
    w = width(T)
    x, y, c = var('x', w), var('y', w), var('c', w)
    b = zext(var('b', 1), 1, w)
    m = 'mi::n_%s::' % T
    k = '%s/trait-' % T
    ct(t, k + 'classify', 'mi::s_%s::classify' % T, [x])
    for f in ('wrap_add', 'wrap_sub', 'wrap_mul'):
        ct(t, k + f, m + f, [x, y])
    for e in (0, 1, 2, 5, 13):
        ct(t, k + 'pow[%d]' % e, m + 'pow', [x, e])
    for f in ('equal_bm', 'not_equal_bm', 'greater_than_bm', 'greater_than_or_qual_bm', 'less_than_bm', 'less_than_or_equal_bm'):
        ct(t, k + f, m + f, [x, y])
    for i in (0, 1, w // 2, w - 1):
        ct(t, k + 'get_bit[%d]' % i, m + 'get_bit', [x, i])
        ct(t, k + 'set_bit[%d]' % i, m + 'set_bit', [x, b, i])
        ct(t, k + 'set[%d]' % i, m + 'set', [x, i, y, (i + 3) % w])
        ct(t, k + 'rotate_left[%d]' % i, m + 'rotate_left', [x, i])
        ct(t, k + 'rotate_right[%d]' % i, m + 'rotate_right', [x, i])
        ct(t, k + 'cset_bit[%d]' % i, m + 'cset_bit', [x, b, i, c])
    ct(t, k + 'cswap_bit', m + 'cswap_bit', [x, y, b])
    for f in ('cswap', 'cadd', 'csub', 'cmul'):
        ct(t, k + f, m + f, [x, y, c])
    if not signed(T):
        ct(t, k + 'ct_div', m + 'ct_div', [x, y])
    for mod, fs in (('mi::b_%s::' % T, ('to_le_bytes', 'to_be_bytes')), ('mi::t_%s::' % T, ('to_le', 'to_be'))):
        for f in fs:
            if mod + f in t.prog.roots:
                ct(t, '%s/%s' % (T, f), mod + f, [x])
    for f in ('from_le_bytes', 'from_be_bytes'):
        if 'mi::b_%s::%s' % (T, f) in t.prog.roots:
            ct(t, '%s/trait-%s' % (T, f), 'mi::b_%s::%s' % (T, f), [V('a', w // 8)])
    for f in ('from_le', 'from_be'):
        if 'mi::t_%s::%s' % (T, f) in t.prog.roots:
            ct(t, '%s/trait-%s' % (T, f), 'mi::t_%s::%s' % (T, f), [V('a', w // 8)])


def t_arr(t, T):
    """element-wise operations and byte export of secret arrays"""
    w = width(T)
    m = 'arr::p_%s::' % T
    b = t.prog.body(t.prog.roots[m + 'add'])
    n = t.prog.types[b.locals[1]]['size'] * 8 // w
    for f in ('add', 'sub', 'mul', 'bitxor'):
        ct(t, 'array of %s/%s' % (T, f), m + f, [V('a', n, w), V('b', n, w)])
    for f in ('to_be_bytes', 'to_le_bytes'):
        ct(t, 'array of %s/%s' % (T, f), 'arr::c_%s::%s' % (T, f), [V('a', n, w)])


def t_chacha(t):
    ct(t, 'chacha/quarter_round', 'spec::chacha::quarter_round', [0, 4, 8, 12, V('s', 16, 32)])
    ct(t, 'chacha/block_init', 'spec::chacha::block_init', [V('k', 32), var('pubctr', 32), V('n', 12)])
    ct(t, 'chacha/block_inner', 'spec::chacha::block_inner', [V('k', 32), var('pubctr', 32), V('n', 12)])
    ct(t, 'chacha/block', 'spec::chacha::block', [V('k', 32), var('pubctr', 32), V('n', 12)])
    for n in (0, 1, 63, 64, 65, 130):
        ct(t, 'chacha/%d' % n, 'spec::chacha::chacha', [V('k', 32), V('n', 12), V('m', n)])


def t_sha(t, q):
    for n in ((0, 3, 55, 56, 64, 65, 119, 130) if q else range(0, 200)):
        ct(t, 'sha256/%d' % n, 'spec::hashes::sha256', [V('m', n)])


def t_hmac(t, k, n):
    ct(t, 'hmac/key%d/msg%d' % (k, n), 'spec::hashes::hmac_', [V('k', k), V('m', n)])


def t_extract(t, k, n):
    ct(t, 'hkdf_extract/%d/%d' % (k, n), 'spec::hashes::hkdf_extract', [V('s', k), V('i', n)])


def t_expand(t, n, l):
    ct(t, 'hkdf_expand/%d/%d' % (n, l), 'spec::hashes::hkdf_expand', [V('p', 32), V('i', n), l])


def t_sha3(t, nm):
    for n in (0, 1, 71, 72, 135, 136, 143, 144):
        ct(t, '%s/%d' % (nm, n), 'spec::hashes::' + nm, [V('m', n)])


def t_shake(t, nm):
    for n, l in ((0, 32), (7, 169), (168, 5), (136, 137)):
        ct(t, '%s/%d/%d' % (nm, n, l), 'spec::hashes::' + nm, [V('m', n), l])


def t_blake(t, q):
    for n in ((0, 1, 64, 127, 128, 129, 256) if q else range(0, 260, 3)):
        ct(t, 'blake2b/%d' % n, 'spec::hashes::blake2b', [V('m', n)])


def t_long(t, root, specs, names, inner):
    """long inputs: the compression, permutation or block function (decided expanded, above) is a value of its inputs"""
    from checks.summ import SUMS, value
    fired, skip = set(), set()

    def setup(I):
        for nm in names:
            (mod, last), n, w = SUMS[nm]

            def over(I, fn, args, t_, nm=nm, n=n, w=w):
                fired.add(nm)
                gs = [g for g in (leaves(I, x) for x in args) if g]
                return build(I, fn['body']['locals'][0], iter(value(nm, gs, n, w)))
            for f in t.prog.fns:
                if f.get('crate') == 'hacspec_examples' and mod in f['def'] and f['def'].endswith(last) and 'body' in f:
                    I.overrides[f['def']] = over
                    skip.add(f['def'])
    t2 = type(t)(t.prog, t.tier)
    try:
        ct(t2, '%s%s' % (root.split('::')[-1], [len(x) if isinstance(x, list) else x for x in specs]), root, specs, setup, skip)
    except (Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, StopIteration):
        fired.clear()
    if not fired:
        if inner > 14:
            t.count('long inputs not decided: the inner functions are not the expected ones')
            t.ok('long/%s' % root, True)
            return
        t2 = type(t)(t.prog, t.tier)
        ct(t2, '%s%s' % (root.split('::')[-1], [len(x) if isinstance(x, list) else x for x in specs]), root, specs)
    t.recs += t2.recs
    t.fns |= t2.fns
    t.steps += t2.steps
    t.branches += t2.branches
    for k, v in t2.counts.items():
        t.count(k, v)


def t_control(t):
    """the analysis reports each of the deliberate leaks in harness/src/leak.rs"""
    for f, specs, kinds in (('branch', [var('x', 8)], 'branch'), ('branch_far', [var('x', 32), var('y', 32)], 'branch'), ('index', [var('x', 8)], 'index'),
                            ('div', [var('x', 32), var('y', 32)], 'div'), ('rem', [var('x', 64)], 'div'), ('shift', [var('x', 32)], 'shift'),
                            ('alloc', [var('x', 8)], 'alloc branch index'), ('overflow', [var('x', 8), var('y', 8)], 'branch'), ('matched', [var('x', 8)], 'branch'),
                            ('shortcut', [var('x', 8), var('y', 8)], 'branch'), ('compare', [V('x', 4), V('y', 4)], 'branch')):
        try:
            r = t.run('leak::' + f, specs, 'control/' + f, taint=True)
        except Unsupported:
            r = None
        if r is not None:
            got = {e.kind for e in r.I.events if type(e.guard) is T and secret_vars(e.guard)}
            t.ok('control/' + f, bool(got & set(kinds.split())), 'the analysis no longer sees the leak of leak::%s (%s)' % (f, sorted(got)))


def tasks(prog, tier):
    q = tier == 'quick'
    for T in SECRET:
        yield T, t_type, (T,)
        yield T + '-trait', t_trait, (T,)
    for T in UNS:
        yield T + '-array', t_arr, (T,)
    yield 'conv', t_conv, ()
    yield 'chacha', t_chacha, ()
    yield 'sha256', t_sha, (q,)
    for n, l in ((23, 65), (10, 42), (0, 0)):
        yield 'expand-%d-%d' % (n, l), t_expand, (n, l)
    for k, n in ((131, 54), (65, 64), (64, 5), (20, 8), (0, 0)):
        yield 'hmac-%d-%d' % (k, n), t_hmac, (k, n)
    for k, n in ((80, 80), (13, 22), (0, 22)):
        yield 'extract-%d-%d' % (k, n), t_extract, (k, n)
    for nm in ('sha3224', 'sha3256', 'sha3384', 'sha3512'):
        yield nm, t_sha3, (nm,)
    yield 'shake128', t_shake, ('shake128',)
    yield 'shake256', t_shake, ('shake256',)
    yield 'blake2b', t_blake, (q,)
    yield 'control', t_control, ()
    q = 'spec::hashes::'
    for nm, base in (('sha256', ['sha256_compress']), ('blake2b', ['blake2b_compress']), ('sha3224', ['keccak_f']), ('sha3256', ['keccak_f']), ('sha3384', ['keccak_f']), ('sha3512', ['keccak_f'])):
        for n in sorted({193, 300, 1000, 4100} | set(lengths(prog, q + nm, 20000, range(40)))):
            yield '%s-long-%d' % (nm, n), t_long, (q + nm, [V('m', n)], base, n // 64)
    for nm in ('shake128', 'shake256'):
        for n in sorted({300, 1000} | set(lengths(prog, q + nm, 20000, range(40)))):
            yield '%s-long-%d' % (nm, n), t_long, (q + nm, [V('m', n), 40], ['keccak_f'], n // 136)
            yield '%s-out-%d' % (nm, n), t_long, (q + nm, [V('m', 3), n], ['keccak_f'], n // 136)
    for n in sorted({200, 1000} | set(lengths(prog, q + 'hmac_', 20000, range(40)))):
        for k, m in ((20, n), (n, 20)):
            yield 'hmac-long-%d-%d' % (k, m), t_long, (q + 'hmac_', [V('k', k), V('m', m)], ['sha256_compress'], (k + m) // 64)
            yield 'extract-long-%d-%d' % (k, m), t_long, (q + 'hkdf_extract', [V('k', k), V('m', m)], ['sha256_compress'], (k + m) // 64)
        yield 'expand-long-%d' % n, t_long, (q + 'hkdf_expand', [V('p', 32), V('i', n), 40], ['sha256_compress'], n // 20)
        if n <= 8160:
            yield 'expand-out-%d' % n, t_long, (q + 'hkdf_expand', [V('p', 32), V('i', 3), n], ['sha256_compress'], n // 10)
    for n in sorted({131, 300, 4100} | set(lengths(prog, 'spec::chacha::chacha', 20000, range(40)))):
        yield 'chacha-long-%d' % n, t_long, ('spec::chacha::chacha', [V('k', 32), V('n', 12), V('m', n)], ['chacha_block'], n // 32)
