"""Conversions between secret and public integer types."""
import re
from checks.ints import *
EXPLANATION = BASE_EXPL + ' Roots: every From conversion among secret and public integers, declassify/classify, and the public/secret array conversions.'
RULE = 'graph(code) = truncation, zero extension or sign extension chosen by the two types; every conversion is total'
FLOOR = 300


def wd(T):
    return 64 if T == 'usize' else int(T[1:])


def t_conv(t):
    roots = sorted(r for r in t.prog.roots if r.startswith('si::conv::'))
    t.ok('conversions-listed', len(roots) >= 91, 'only %d conversions analysed' % len(roots))
    for r in roots:
        a, b = r[10:].replace('cl_', '').split('_')
        x = var('x', wd(a))
        prog_fn(t, '%s->%s%s' % (a, b, '/classify' if 'cl_' in r else ''), r, [x], [resize(x, wd(a), a[0] in 'Ii', wd(b))])


def t_arrays(t):
    for c, n, w in (('U8', 16, 8), ('U16', 5, 16), ('U32', 5, 32), ('U64', 5, 64), ('U128', 5, 128), ('BothSec', 7, 8)):
        v = V('v', n, w)
        for f in ('from_public_slice', 'from_public_array'):
            prog_fn(t, '[%s;%d]/%s' % (c, n, f), 'arr::c_%s::%s' % (c, f), [v], v)
    for f, n, w in (('from_public', 7, 8), ('from_secret_declassify', 7, 8), ('from_public32', 5, 32), ('from_secret_declassify32', 5, 32)):
        v = V('v', n, w)
        prog_fn(t, 'both/' + f, 'arr::both::' + f, [v], v)
    for n in (0, 1, 5, 33):
        v = V('v', n, 8)
        prog_fn(t, 'Seq<U8>/from_public_slice[%d]' % n, 'arr::seqx::from_public_slice', [v], v)
    for T in SECRET:
        x = var('x', width(T))
        prog_fn(t, T + '/classify', 'si::%s_::classify' % T, [x], [x])
        prog_fn(t, T + '/declassify', 'si::%s_::declassify' % T, [x], [x])
        prog_fn(t, T + '/from', 'si::%s_::from_repr' % T, [x], [x])
        prog_fn(t, T + '/trait-classify', 'mi::s_%s::classify' % T, [x], [x])
        l = var('l', 128)
        prog_fn(t, T + '/from_literal', 'mi::n_%s::from_literal' % T, [l], [extract(l, 128, 0, width(T))])


def tasks(prog, tier):
    yield 'conv', t_conv, ()
    yield 'arrays', t_arrays, ()
