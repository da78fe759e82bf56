"""Modular inversion of unsigned machine integers."""
from checks.ints import *
import loops
EXPLANATION = ('Dataflow with inductive loop invariants over the MIR (analyzer/loops.py): inv of the ten unsigned machine integer types, all calls inlined, integers as polynomials over operand x, modulus n and '
               'the loop variables. Every loop is cut at its head; the invariants are the largest inductive subset (Houdini) of template relations between its variables: v = / <= / >= its value on entry, '
               '1 <= v, v <= n, v < n, v <= x, v <= u, v < c + n, v = u*x (mod n), v unchanged mod n, gcd(v, u) = gcd(x, n). Inequalities are shown as non-negative combinations of path conditions '
               '(depth at most 5), congruences by polynomial reduction. A wrapping operation counts as exact only where its range is shown.')
RULE = ('on every path that returns: result*x = 1 (mod n) and 0 <= result < n; on every path that refuses: gcd(x, n) >= 2; every loop has a decreasing non-negative measure; a subtraction never overflows; '
        'when n*n fits the type and x < n nothing overflows')
FLOOR = 100
ASSUMPTIONS = ['x >= 1 and n >= 2; inv of zero (zero, by the code) is outside the statement',
               'when n*n does not fit the type, an overflow panic of a product or sum is permitted']


def t_inv(t, T, mode):
    root = 'mi::n_%s::inv' % T
    key = '%s/%s' % (T, mode)
    try:
        w, rounds = loops.invert(t.prog, root, mode)
    except KeyError:
        t.ok(key, False, 'public item no longer available to the analysis: %s' % root)
        return
    except loops.Unsupported as e:
        t.ok(key, False, 'not analysable: %s' % e, site(t.prog, root))
        return
    t.fns |= {t.prog.fns[f]['def'] for f in w.used}
    bad = {}
    for what, where in w.problems:
        bad.setdefault(what.split(':')[0], (what, where))
    for what in ('result times operand is not shown congruent to 1 modulo n', 'result is not shown to be reduced', 'may refuse an invertible operand',
                 'no variable or difference shown to decrease', 'can fail'):
        if what not in bad:
            t.ok('%s/%s' % (key, {'r': 'inverse', 'm': 'refusal', 'n': 'termination', 'c': 'overflow'}[what[0]] if 'reduced' not in what else key + '/reduced'), True)
    for what, (full, where) in bad.items():
        t.ok('%s/%s' % (key, what), False, '%s: %s at %s' % (root, full, where), where)
    t.ok(key + '/exercised', w.returns > 0 and w.refusals > 0 and w.loops, '%d returning and %d refusing paths through %d loops' % (w.returns, w.refusals, len(w.loops)), site(t.prog, root))
    t.count('paths', w.paths)
    t.count('loops', len(w.loops))
    t.count('invariants kept', sum(map(len, w.loops.values())))
    t.count('Houdini rounds', rounds)
    t.count('operations that may overflow for large moduli', len(w.overflows))


def tasks(prog, tier):
    for T in UNS + PUB_U:
        for mode in ('any', 'small'):
            yield 'inv-%s-%s' % (T, mode), t_inv, (T, mode)
