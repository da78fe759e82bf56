"""Shared machinery of the checks: building abstract arguments, analysing a root, comparing value graphs,
recording obligations, writing evidence."""
import json
import os
import sys
import time
import traceback
from interp import *
import terms as tm

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


# ---------------------------------------------------------------- arguments
def build(I, ty, src, name=''):
    """abstract value of type ty whose scalar leaves are taken from the iterator src (None: fresh variables)"""
    p = I.p
    t = p.types[ty]
    k = t['k']
    if p.W[ty] is not None:
        if src is None:
            I.fresh_n = getattr(I, 'fresh_n', 0) + 1
            return var('%s.%d' % (name, I.fresh_n), p.W[ty])
        return next(src)
    if k == 'array':
        return (0, tuple(build(I, t['e'], src, name) for _ in range(t['len'])))
    if k == 'tuple':
        return (0, tuple(build(I, f, src, name) for f in t['fields']))
    if k in ('ref', 'ptr'):
        it = p.types[t['t']]
        if it['k'] in ('slice', 'str'):
            e = it['e'] if it['k'] == 'slice' else p.u8
            v = build_all(I, e, src, name)
            return Ref(I.alloc_cell((0, v)), (), (0, len(v)))
        return Ref(I.alloc_cell(build(I, t['t'], src, name)))
    if k == 'adt':
        d = t['def']
        if d == 'alloc::vec::Vec':
            return (0, build_all(I, t['args'][0], src, name))
        if d == 'alloc::string::String':
            return (0, build_all(I, p.u8, src, name))
        if d == 'core::marker::PhantomData':
            return UNIT
        if d.endswith('bigint::Sign'):
            return (2, ())
        if t['adt'] == 'struct':
            return (0, tuple(build(I, f[1], src, name) for f in t['variants'][0][1]))
        if t['adt'] == 'enum' and all(not v[1] for v in t['variants']):
            return (next(src), ())
    if k == 'closure' or k == 'fndef':
        return UNIT
    raise Unsupported('argument of type ' + str(t.get('str')))


def build_all(I, e, src, name):
    if src is None:
        raise Unsupported('vector without explicit length')
    out = []
    while True:
        try:
            first = next(src)
        except StopIteration:
            return tuple(out)
        out.append(build(I, e, chain_first(first, src), name))


def chain_first(x, it):
    yield x
    yield from it


class Leafs:
    def __init__(self, x):
        self.x = x


def arg(I, ty, spec):
    """spec: scalar, list of scalar leaves, or Raw value"""
    if isinstance(spec, Raw):
        return spec.v
    if type(spec) in (int, T):
        spec = [spec]
    it = iter(spec)
    v = build(I, ty, it)
    for _ in it:
        raise Unsupported('argument shape: too many leaves for ' + str(I.p.types[ty].get('str')))
    return v


class Raw:
    def __init__(self, v):
        self.v = v


def leaves(I, v, out=None):
    """scalar leaves of an abstract value, in order (references followed, zero-sized parts dropped)"""
    if out is None:
        out = []
    if type(v) is Ref:
        if v.rng is not None:
            for x in I.slice_vals(v):
                leaves(I, x, out)
            return out
        v = I.load(v.key, v.path)
        return leaves(I, v, out)
    if type(v) is tuple:
        for x in v[1]:
            leaves(I, x, out)
        return out
    if type(v) in (int, T):
        out.append(v)
        return out
    if v is None:
        return out
    if type(v) is Choice:
        raise Unsupported('result whose shape depends on the input')
    if type(v) is SymV:
        out.append(v.z)
        return out
    if type(v) is Opaque:
        return out
    raise Unsupported('leaves of %r' % (v,))


class Res:
    pass


def analyse(prog, root, specs, taint=False, budget=200_000_000, setup=None, inst=None):
    I = Interp(prog, taint=taint, budget=budget)
    if setup:
        setup(I)
    inst = prog.roots[root] if inst is None else inst
    b = prog.body(inst)
    I.top = 64
    args = [arg(I, ty, s) if not callable(s) else s(I, ty) for ty, s in zip(b.locals[1:1 + b.argc], specs)]
    if len(specs) != b.argc:
        raise Unsupported('signature of %s changed' % root)
    r = Res()
    r.I = I
    analyse.last = I
    r.args = args
    r.ret = I.go(inst, args)
    r.rty = b.locals[0]
    r.ok = I.pc if r.ret is not None else 0
    r.panics = [e for e in I.events if e.kind == 'panic']
    r.root = root
    return r


def vars_(name, n, w=8):
    return [var('%s%d' % (name, i), w) for i in range(n)]


# ---------------------------------------------------------------- obligations
class Rec:
    """outcome of one obligation"""
    __slots__ = ('key', 'status', 'detail', 'where')

    def __init__(self, key, status, detail='', where=''):
        self.key = key
        self.status = status
        self.detail = detail
        self.where = where


class Task:
    """collects obligations; used inside worker processes"""

    def __init__(self, prog, tier):
        self.prog = prog
        self.tier = tier
        self.recs = []
        self.fns = set()
        self.steps = 0
        self.branches = 0
        self.panic_obl = 0
        self.counts = {}

    def note(self, r):
        I = r.I
        self.steps += I.steps
        self.branches += I.branches
        self.panic_obl += I.obl
        for f in I.visited:
            if self.prog.in_ws(f):
                self.fns.add(self.prog.fns[f]['name'])

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, key, cond, detail='', where=''):
        self.recs.append(Rec(key, 'canonical' if cond else 'violated', detail if not cond else '', where))
        return cond

    def run(self, root, specs, key=None, **kw):
        """analyse a root; an analysis failure is an undischarged obligation"""
        key = key or root
        try:
            r = analyse(self.prog, root, specs, **kw)
        except KeyError as e:
            self.recs.append(Rec(key, 'violated', 'public item no longer available to the analysis: %s' % root))
            return None
        except Unsupported as e:
            I = getattr(analyse, 'last', None)
            at = ' < '.join(self.prog.fns[f]['name'] for f in reversed(I.stack[-6:])) if I is not None and I.stack else ''
            self.recs.append(Rec(key, 'violated', 'not analysable: %s [%s]' % (e, at), I.here() if I is not None and I.stack else ''))
            self.tb = at
            return None
        except RecursionError:
            self.recs.append(Rec(key, 'violated', 'not analysable: recursion'))
            return None
        self.note(r)
        return r

    def where(self, r):
        inst = self.prog.roots.get(r.root)
        return r.root

    def equal(self, key, got, want, ok=1, assume=(), where='', rounds=30, bind=()):
        """got/want: lists of value numbers; equality must hold for every input satisfying ok and assume"""
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.recs.append(Rec(key, 'violated', 'shape: %d components, expected %d' % (len(got), len(want)), where))
            return False
        bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g is not w and not (type(g) is int and type(w) is int and g == w)]
        if not bad:
            self.recs.append(Rec(key, 'canonical'))
            return True
        ass = [a for a in list(assume) + [ok] if type(a) is not int]
        if any(type(a) is int and not a for a in list(assume) + [ok]):
            self.recs.append(Rec(key, 'canonical'))
            return True
        sp = split_pivots([(g, w) for _, g, w in bad])
        if sp is not None:
            rest = set()
            for vs, prs in sp:
                for n, (g, w) in enumerate(prs):
                    if not (g is w or (type(g) is int and type(w) is int and g == w)):
                        rest.add(n)
            if not rest:
                self.recs.append(Rec(key, 'canonical', 'by cases on the representation length'))
                return True
            bad = [x for n, x in enumerate(bad) if n in rest]
        d = differ([(g, w) for _, g, w in bad], rounds=rounds, seed=key, assume=ass, bind=bind)
        if d is None:
            self.recs.append(Rec(key, 'interpreted', '%d of %d components by random interpretation' % (len(bad), len(got))))
            if tm.WEAK:
                self.count('predicate outcomes not reached by random interpretation', len(tm.WEAK))
                if os.environ.get('HS_WEAK'):
                    print('WEAK', key, [(tm.show(t, 4)[:200], w) for t, w in tm.WEAK[:4]], flush=True)
            return True
        i, a, b, env = d
        n, g, w = bad[i]
        envs = ', '.join('%s=%#x' % (k, v) if v >= 0 else '%s=%d' % (k, v) for k, v in sorted(env.items())[:12])
        self.recs.append(Rec(key, 'violated', 'component %d: code computes %s, specification %s (e.g. %#x vs %#x at %s)' % (
            n, tm.show(g, 3)[:160], tm.show(w, 3)[:160], a, b, envs), where))
        return False

    def returns(self, key, r, want_ok=1):
        """the analysed function returns exactly on want_ok (1: on every input)"""
        ok = r.ok
        if ok is want_ok or (type(ok) is int and ok == want_ok):
            self.recs.append(Rec(key, 'canonical'))
            return True
        d = differ([(ok, want_ok)], rounds=40, seed=key)
        if d is None and type(ok) is T and type(want_ok) is int:
            # never observed to fail but not provably so: keep the strongest statement the domain supports
            self.recs.append(Rec(key, 'interpreted', 'panic condition by random interpretation'))
            return True
        if d is None:
            self.recs.append(Rec(key, 'interpreted'))
            return True
        i, a, b, env = d
        ev = [e for e in r.panics]
        w = '; '.join('%s at %s' % ('/'.join(str(x) for x in e.detail if x), e.where) for e in ev[:3])
        self.recs.append(Rec(key, 'violated', ('panics although it must return: ' if b else 'returns although it must panic; checks present: ') + w + ' e.g. %s' % (
            ', '.join('%s=%#x' % kv for kv in sorted(env.items())[:8])), ev[0].where if ev else ''))
        return False


def value_ok(r):
    return r is not None and r.ret is not None
