"""Modular analysis: inner functions summarised as uninterpreted functions of their inputs, so that the surrounding mode of
operation can be decided at lengths that would be costly with the inner function expanded.  The inner functions themselves are
decided by obligations of their own (expanded, at the shorter lengths).  The summary is only a short cut: when there is no such
function in the tree, or the graphs differ, the obligation is decided with everything expanded."""
from checks.common import *

# name of the specification function -> (path of the summarised function: crate prefix and last segment, outputs, width)
SUMS = {
    'chacha_block': (('chacha20::', '::block'), 64, 8),
    'aes_block': (('aes_gcm::aes::', '::aes_encrypt_block'), 16, 8),
    'ghash': (('gf128::', '::gmac'), 16, 8),
    'poly1305': (('poly1305::', '::poly'), 16, 8),
    'sha256_compress': (('sha2::', '::compress'), 8, 32),
    'sha256': (('sha2::', '::hash'), 32, 8),
    'hmac': (('hmac::', '::hmac'), 32, 8),
    'keccak_f': (('fips202::', '::keccakf1600'), 25, 64),
    'blake2b_compress': (('blake2b::', '::compress'), 8, 64),
}


def value(nm, groups, n, w):
    """one uninterpreted value per (function, argument groups ordered by size)"""
    args = [x for g in sorted(groups, key=len) for x in list(g) + ['|']]
    f = uf(nm, n * w, *args)
    return [extract(f, n * w, w * i, w) for i in range(n)]


def spec_groups(nm, a):
    if nm == 'aes_block':
        nk = len(a[0]) // 4
        return [a[0], a[1], [nk], [nk + 6]]
    return [list(x) if isinstance(x, (list, tuple)) else [x] for x in a]


MAXCOST = 14


def with_summaries(t, names, body, cost=0, cal=None):
    """body(task, setup) states the obligations.  First with the functions of `names` summarised on both sides; unless that
    discharges everything, with everything expanded when that is affordable (cost: inner calls).  Where it is not, the modular
    discrepancy counts if the same statement is discharged modularly at a small size (cal: function and arguments): then the
    summaries fit this tree, and the large size is what differs.  If they do not fit, the size is counted as not decided."""
    fired = set()

    def setup(I):
        for nm in names:
            (mod, last), n, w = SUMS[nm]

            def over(I, fn, args, t_, nm=nm, n=n, w=w):
                fired.add(nm)
                gs = [g for g in (leaves(I, x) for x in args) if g]
                return build(I, fn['body']['locals'][0], iter(value(nm, gs, n, w)))
            for f in t.prog.fns:
                if f.get('crate') == 'hacspec_examples' and mod in f['def'] and f['def'].endswith(last) and 'body' in f:
                    I.overrides[f['def']] = over
    t2 = Task(t.prog, t.tier)
    saved = {nm: getattr(S, nm) for nm in names}
    try:
        for nm in names:
            _, n, w = SUMS[nm]
            setattr(S, nm, lambda *a, nm=nm, n=n, w=w: value(nm, spec_groups(nm, a), n, w))
        body(t2, setup)
    except (Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError, StopIteration):
        fired.clear()
    finally:
        for nm, f in saved.items():
            setattr(S, nm, f)
    good = fired == set(names) and all(x.status != 'violated' for x in t2.recs)
    only = getattr(t, 'modular_only', False)
    if not good and not only:
        if cost <= MAXCOST:
            t.count('tasks whose summaries did not apply: expanded')
            return body(t, None)
        t3 = Task(t.prog, t.tier)
        t3.modular_only = True
        cal[0](t3, *cal[1])
        if not t3.recs or any(x.status == 'violated' for x in t3.recs) or not fired:
            t.count('large sizes not decided: the inner functions are not the expected ones')
            return
    elif not good:
        t.ok('modular', False)
        return
    t.recs += t2.recs
    t.fns |= t2.fns
    t.steps += t2.steps
    t.branches += t2.branches
    t.panic_obl += t2.panic_obl
    for k, v in t2.counts.items():
        t.count(k, v)
    t.count('tasks decided with inner functions summarised')


def summarised(t, key, root, specs, spec, names, cost=0, cal=None):
    with_summaries(t, names, lambda t, setup: pure_eq(t, key, root, specs, spec(), setup=setup), cost, cal)
