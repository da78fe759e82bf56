"""Purity: no hidden state, no output, no nondeterminism outside the random generators."""
from checks.common import *
import effects
import re
EXPLANATION = ('Effect analysis: the MIR of every function of the five library crates (generic bodies included, whether called or not) and of every function the '
               'type-generating macros expand to is scanned; each callee outside the workspace is classified (pure value computation, panic, output, '
               'randomness, clock, environment, files, interior mutability, raw memory), each static is checked for mutability, and randomness is '
               'propagated over the call graph. Output sites are admissible only where abstract interpretation shows them unreachable.')
RULE = 'only functions named as random generators may reach the random source; no reachable output; no mutable static, clock, environment, file, hasher, cell, lock or atomic'
FLOOR = 8000
ASSUMPTIONS = ['core, alloc and num-bigint operations not listed as impure are functions of their arguments',
               'the JSON test-vector loader (a macro of hacspec-dev instantiated by tests only) reads files by design and is outside the rule']


def is_random(path):
    return any(s.split('<')[0].find('random') >= 0 for s in path.split('::') if not s.startswith('{'))


def outer(path):
    return re.sub(r'(::\{closure#\d+\})+$', '', path)


def t_scan(t):
    prog = t.prog
    bad = {}
    prints = []
    sites_by = {}
    for cr, f, kind, where in effects.sites(prog):
        sites_by.setdefault(f, []).append((cr, kind, where))
    n = 0
    callers = {}
    pub = {}
    for c in prog.survey:
        for f in c['fns']:
            pub[f['path']] = f['pub'] or f.get('of_trait') or 'in_trait' in f
    for cr, b in effects.bodies(prog):
        n += 1
        me = b['path']
        for path, uns, loc, isf, c in b['calls']:
            callers.setdefault(path, set()).add(outer(me))
            # randomness: by the random source itself or through a generator
            rng = effects.classify(path, uns, c, isf) == 'rng' or (c in effects.LIBS or c == 'hsharness') and is_random(path)
            if rng and not is_random(me) and cr != 'hsharness':
                bad[(me, 'randomness')] = ('calls %s' % path, loc)
        for cr2, kind, where in sites_by.get(me, ()):
            if kind == 'rng' or kind.startswith('static ') or kind.startswith('unsafe:') or kind == 'raw dereference' or kind.startswith('cast:'):
                continue        # rng: above; immutable statics are constants; raw memory: C13
            if kind == 'print':
                prints.append((me, where))
                continue
            bad[(me, kind)] = ('effect: ' + kind, where)
        if not any(k[0] == me for k in bad):
            t.ok('pure/' + me, True)
    for (f, kind), (what, where) in sorted(bad.items()):
        t.ok('effect/%s/%s' % (f, kind.split(':')[0]), False, what, where)
    t.count('library and macro-generated functions scanned', n)
    t.count('functions with an output site', len({outer(f) for f, _ in prints}))
    # output sites must be unreachable
    if prints:
        # the only documented output: the two error reports of the ChaCha20-Poly1305 entry points
        for f, where in sorted(set(prints)):
            if not f.startswith('hacspec_examples::chacha20_poly1305::'):
                t.ok('print/' + outer(f), False, 'prints to standard output or error', where)
        prints = [x for x in prints if x[0].startswith('hacspec_examples::chacha20_poly1305::')]
        t.ok('print/documented', len(prints) <= 2, '%d output sites in the ChaCha20-Poly1305 module, 2 are documented error reports' % len(prints), prints[-1][1] if prints else '')
        visited, printed = reach(t)
        for f, where in sorted(set(prints)):
            f = outer(f)
            if f in printed:
                t.ok('print/' + f, False, 'output reachable: ' + printed[f], where)
                continue
            ok, seen, work = True, set(), [f]
            while work and ok:
                g = work.pop()
                if g in seen or g in visited:
                    continue
                seen.add(g)
                if pub.get(g, True):
                    ok = False
                work += list(callers.get(g, ()))
            t.ok('print/' + f, ok, 'prints to standard output or error', where)


def reach(t):
    """functions entered, and functions that reach an output operation, when the example specifications are analysed"""
    visited, printed = set(), {}
    runs = [('spec::chacha::encrypt', [32, 12, 5, 70]), ('spec::chacha::decrypt', [32, 12, 5, 70, 16]), ('spec::chacha::chacha', [32, 12, 70]),
            ('spec::chacha::encrypt', [32, 12, 0, 0]), ('spec::chacha::decrypt', [32, 12, 0, 0, 16]),
            ('spec::aes::gcm128_encrypt', [16, 12, 5, 20]), ('spec::aes::gcm128_decrypt', [16, 12, 5, 20, 16]),
            ('spec::aes::gcm256_encrypt', [32, 12, 5, 20]), ('spec::aes::gcm256_decrypt', [32, 12, 5, 20, 16]),
            ('spec::hashes::sha256', [70]), ('spec::hashes::hmac_', [70, 5]), ('spec::hashes::sha3256', [140]), ('spec::hashes::shake128', [5, None]),
            ('spec::hashes::blake2b', [130])]
    for root, sh in runs:
        r = t.run(root, [V('a%d_' % i, n) if n is not None else 33 for i, n in enumerate(sh)], 'reach/' + root)
        if r is None:
            continue
        for f in r.I.visited:
            visited.add(t.prog.fns[f]['def'])
        for kind, detail, parts, where, pc in r.I.effects:
            if kind in ('print', 'system'):
                g = t.prog.fns[r.I.stack[-1]]['def'] if r.I.stack else where
                printed[outer(where.split(' (')[0])] = '%s from %s' % (detail, root)
    return visited, printed


def t_control(t):
    seen = {}
    for cr, f, kind, where in effects.sites(t.prog, True):
        seen.setdefault(f.split('::')[2], []).append(kind)
    for f, k in (('prints', 'print'), ('eprints', 'print'), ('global', 'mutable static'), ('thread_local', 'std:'), ('clock', 'std:'), ('environment', 'std:'),
                 ('hashed', 'std:'), ('locked', 'std:'), ('atomic', 'state:'), ('pointer_text', 'state:'), ('drawn', 'rng')):
        t.ok('control/' + f, any(x.startswith(k) for x in seen.get(f, ())), 'the scan no longer sees the control ' + f)
    rnd = sum(1 for s in effects.sites(t.prog) if s[2] == 'rng')
    t.ok('control/rng', rnd >= 1, 'only %d uses of the random source seen' % rnd)


def tasks(prog, tier):
    yield 'scan', t_scan, ()
    yield 'control', t_control, ()
