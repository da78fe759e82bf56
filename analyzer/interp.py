"""Abstract interpreter: evaluates MIR bodies over the value-number domain of terms.py.

Control flow whose condition is a constant under the analysed shape (lengths, literal trip counts) is
followed; at any other branch both successors are analysed up to the immediate post-dominator and the two
abstract states are joined value by value.  No path is enumerated, no input is chosen, nothing is run.
"""
import sys
from terms import *
import terms as tm
from mir import *

sys.setrecursionlimit(1000000)


class Fork:
    """result of a native that yields `v` under condition `c` and must be called again otherwise"""

    def __init__(self, c, v):
        self.c, self.v = c, v


class Div(Exception):
    """the analysed code cannot continue (panic on every continuation)"""


def const_args(args):
    for a in args:
        if type(a) is not int and not (type(a) is tuple and const_val(a)):
            return False
    return True


def const_val(v):
    if type(v) is int:
        return True
    if type(v) is tuple:
        for x in v[1]:
            if not const_val(x):
                return False
        return True
    return False


NONE = (0, ())
UNIT = (0, ())


def some(x):
    return (1, (x,))


class Event:
    __slots__ = ('kind', 'guard', 'where', 'detail', 'chain')

    def __init__(self, kind, guard, where, detail=None, chain=()):
        self.kind = kind
        self.guard = guard
        self.where = where
        self.detail = detail
        self.chain = chain

    def __repr__(self):
        return 'Event(%s,%r,%s,%r)' % (self.kind, self.guard, self.where, self.detail)


class Interp:
    def __init__(self, prog, taint=False, budget=40_000_000):
        self.p = prog
        self.S = []
        self.TY = []
        self.top = 0
        self.H = {}
        self.hn = 0
        self.j = None
        self.pc = 1
        self.events = []
        self.effects = []
        self.taint = taint
        self.stack = []
        self.spans = []
        self.nat = {}
        self.steps = 0
        self.budget = budget
        self.visited = {}
        self.branches = 0
        self.obl = 0
        self.overrides = {}
        self.hooks_on_call = {}
        self.ccache = {}
        self.acache = {}
        self.fresh = 0
        self.nest = 0
        self.inv = {}
        self.memo = {}
        self.split_len = None      # case analysis on the byte length of big integers
        self.split_seen = 0
        self.vt = {}

    # ------------------------------------------------------------ store
    def alloc_cell(self, v, ty=None):
        self.hn -= 1
        self.H[self.hn] = v
        return self.hn

    def temp(self, v, ty=None):
        """a fresh cell on the abstract stack; release by resetting self.top"""
        k = self.top
        self.top += 1
        if k >= len(self.S):
            self.S.extend([None] * 256)
            self.TY.extend([None] * 256)
        self.S[k] = v
        self.TY[k] = ty
        return k

    def getk(self, key):
        return self.S[key] if key >= 0 else self.H[key]

    def load(self, key, path, ty=None):
        v = self.S[key] if key >= 0 else self.H[key]
        for p in path:
            if type(p) is int:
                if type(v) is tuple:
                    v = v[1][p]
                elif type(v) is Choice:
                    v = self.proj_choice(v, p)
                else:
                    raise Unsupported('project %r of %r' % (p, type(v)))
            elif type(p) is T:
                v = self.select(v, p, ty)
            elif type(p) is tuple and p[0] == 'dc':
                if type(v) is Choice:
                    v = self.pick_variant(v, p[1])
            else:
                raise Unsupported('path elem %r' % (p,))
        return v

    def proj_choice(self, v, p):
        if type(v) is Choice:
            a = self.proj_choice(v.a, p)
            b = self.proj_choice(v.b, p)
            if a is None:
                return b
            if b is None:
                return a
            return self.merge(v.c, a, b, None)
        if type(v) is tuple:
            return v[1][p] if p < len(v[1]) else None
        raise Unsupported('project choice')

    def pick_variant(self, v, var):
        if type(v) is Choice:
            a = self.pick_variant(v.a, var)
            b = self.pick_variant(v.b, var)
            if a is None:
                return b
            if b is None:
                return a
            return self.merge(v.c, a, b, None)
        if type(v) is tuple:
            return v if v[0] == var else None
        raise Unsupported('downcast of %r' % (v,))

    def select(self, v, idx, ety):
        """element of an array value at a symbolic index"""
        if type(v) is Choice:
            return self.merge(v.c, self.select(v.a, idx, ety), self.select(v.b, idx, ety), ety)
        if type(v) is not tuple:
            raise Unsupported('symbolic index into %r' % (v,))
        if self.taint:
            self.event('index', idx)
        items = v[1]
        return self.sel_items(items, idx, ety)

    def sel_items(self, items, idx, ety):
        f = items[0] if items else None
        if f is None:
            raise Div()
        if all(x is f for x in items):
            return f
        if all(type(x) in (int, T) for x in items):
            w = None
            if ety is not None:
                w = self.p.W[ety]
            if w is None:
                for x in items:
                    if type(x) is T:
                        w = x.w
            if w is None:
                raise Unsupported('width of symbolic selection')
            return sel(items, w, idx, idx.w)
        if all(type(x) is tuple and x[0] == f[0] and len(x[1]) == len(f[1]) for x in items):
            n = len(f[1])
            return (f[0], tuple(self.sel_items([x[1][i] for x in items], idx,
                                               self.p.fty(ety, f[0], i) if ety is not None else None) for i in range(n)))
        if all(x == f for x in items):
            return f
        raise Unsupported('symbolic selection of aggregates')

    def put(self, key, path, val, ty=None):
        """ty: type of the stored value (needed for symbolic indices)"""
        if key < 0:
            j = self.j
            if j is not None and key not in j:
                j[key] = self.H[key]
            self.H[key] = val if not path else self.setp(self.H[key], path, 0, val, ty)
            return
        S = self.S
        j = self.j
        if j is not None and key not in j:
            j[key] = S[key]
        S[key] = val if not path else self.setp(S[key], path, 0, val, ty)

    def setp(self, v, path, i, val, ty):
        if i == len(path):
            return val
        p = path[i]
        if type(p) is int:
            if type(v) is tuple:
                f = v[1]
                if p >= len(f):
                    if len(f) == 0 or True:
                        f = f + (None,) * (p + 1 - len(f))
                if i + 1 == len(path):
                    n = val
                else:
                    n = self.setp(f[p], path, i + 1, val, ty)
                return (v[0], f[:p] + (n,) + f[p + 1:])
            if type(v) is Choice:
                return Choice(v.c, self.setp(v.a, path, i, val, ty), self.setp(v.b, path, i, val, ty))
            if v is None:
                return (0, (None,) * p + (self.setp(None, path, i + 1, val, ty),))
            raise Unsupported('write into %r' % (v,))
        if type(p) is T:
            if self.taint:
                self.event('index', p)
            items = v[1]
            out = []
            for n, old in enumerate(items):
                c = eq(p.w, p, n)
                if type(c) is int:
                    out.append(self.setp(old, path, i + 1, val, ty) if c else old)
                else:
                    out.append(self.merge(c, self.setp(old, path, i + 1, val, ty), old, ty if i + 1 == len(path) else None))
            return (v[0], tuple(out))
        if type(p) is tuple and p[0] == 'dc':
            if type(v) is Choice:
                raise Unsupported('write into joined variant')
            return self.setp(v, path, i + 1, val, ty)
        raise Unsupported('write path %r' % (p,))

    def deref(self, v):
        while type(v) is Ref:
            if v.rng is not None:
                return self.slice_vals_tuple(v)
            v = self.load(v.key, v.path)
        return v

    # ------------------------------------------------------------ joins
    def merge(self, c, a, b, ty):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        ta, tb = type(a), type(b)
        if (ta is int or ta is T) and (tb is int or tb is T):
            if ta is int and tb is int and a == b:
                return a
            w = self.p.W[ty] if ty is not None else None
            if w is None:
                w = a.w if ta is T else (b.w if tb is T else None)
            if w is None:
                return Choice(c, a, b)
            return ite(c, w, a, b)
        if ta is tuple and tb is tuple:
            if a[0] == b[0] and len(a[1]) == len(b[1]):
                fa, fb = a[1], b[1]
                if ty is not None:
                    k, x = self.p.fields(ty, a[0])
                    if k == 'e':
                        r = tuple([p if p is q else self.merge(c, p, q, x) for p, q in zip(fa, fb)])
                    else:
                        r = tuple([self.merge(c, p, q, x[i] if i < len(x) else None)
                                   for i, (p, q) in enumerate(zip(fa, fb))])
                else:
                    r = tuple([p if p is q else self.merge(c, p, q, None) for p, q in zip(fa, fb)])
                return (a[0], r)
            if a == b:
                return a
            return Choice(c, a, b)
        try:
            if a == b:
                return a
        except Exception:
            pass
        return Choice(c, a, b)

    def decide(self, c):
        """truth of a condition under the current path condition, where syntactically evident"""
        if type(c) is int:
            return c
        pc = self.pc
        if type(pc) is int:
            return c
        if pc is c:
            return 1
        n = bxor(1, c, 1)
        if pc is n:
            return 0
        if pc.op == 'and':
            if c in pc.a[1]:
                return 1
            if n in pc.a[1]:
                return 0
            if type(n) is T and n.op == 'and' and all(x in pc.a[1] for x in n.a[1]):
                return 0
            if c.op == 'and' and all(x in pc.a[1] for x in c.a[1]):
                return 1
        return implied(pc, c)

    def branch(self, c, fa, fb):
        """analyse both arms and join; raises Div when neither can continue"""
        self.branches += 1
        if self.taint:
            self.event('branch', c)
        S, H = self.S, self.H
        pc0, jo, top = self.pc, self.j, self.top
        self.nest += 1
        if self.nest > 700:
            raise Unsupported('join depth')
        res = []
        for cond, f in ((c, fa), (bxor(1, c, 1), fb)):
            self.j = {}
            self.pc = band(1, pc0, cond)
            ok = True
            ns, nsp = len(self.stack), len(self.spans)
            rv = None
            if self.pc == 0 and type(self.pc) is int:
                ok = False
            else:
                try:
                    rv = f()
                except Div:
                    ok = False
                    del self.stack[ns:]
                    del self.spans[nsp:]
            j = self.j
            new = {k: (S[k] if k >= 0 else H[k]) for k in j if k < top} if ok else None
            for k, o in j.items():
                if k >= 0:
                    S[k] = o
                else:
                    H[k] = o
            res.append((ok, new, j, self.pc, rv))
            self.top = top
            if jo is not None:
                for k, o in j.items():
                    if k < top and k not in jo:
                        jo[k] = o
        self.j = None
        self.nest -= 1
        (oa, na, ja, pa, ra), (ob, nb, jb, pb, rb) = res
        if not oa and not ob:
            self.j = jo
            self.pc = 0
            raise Div()
        if oa and ob:
            for k in set(na) | set(nb):
                old = S[k] if k >= 0 else H[k]
                v = self.merge(c, na.get(k, old), nb.get(k, old), self.TY[k] if k >= 0 else None)
                if k >= 0:
                    S[k] = v
                else:
                    H[k] = v
            n = bxor(1, c, 1)
            if pa is band(1, pc0, c) and pb is band(1, pc0, n):
                self.pc = pc0
            else:
                self.pc = bor(1, pa, pb)
        else:
            for k, v in (na if oa else nb).items():
                if k >= 0:
                    S[k] = v
                else:
                    H[k] = v
            self.pc = pa if oa else pb
        self.j = jo
        return ('both' if oa and ob else ('a' if oa else 'b')), ra, rb

    # ------------------------------------------------------------ events
    def chain(self):
        return tuple(self.p.fns[f]['def'] for f in self.stack)

    def here(self, span=None):
        for i in range(len(self.stack) - 1, -1, -1):
            if self.p.in_ws(self.stack[i]):
                f = self.stack[i]
                sp = self.spans[i] if i < len(self.spans) and self.spans[i] else None
                return self.p.where(f, sp)
        return self.p.where(self.stack[-1]) if self.stack else '?'

    def here_fn(self):
        for i in range(len(self.stack) - 1, -1, -1):
            if self.p.in_ws(self.stack[i]):
                return self.p.fns[self.stack[i]]['def']
        return '?'

    def event(self, kind, c, detail=None):
        self.events.append(Event(kind, c, self.here(), detail, self.chain() if self.taint else ()))

    def panic(self, kind, detail=None):
        self.events.append(Event('panic', self.pc, self.here(), (kind, detail)))
        raise Div()

    def require(self, c, kind, detail=None):
        """continue only when c holds; otherwise the program panics"""
        self.obl += 1
        c = self.decide(c)
        if type(c) is int:
            if not c:
                self.panic(kind, detail)
            return
        self.events.append(Event('panic', band(1, self.pc, bxor(1, c, 1)), self.here(), (kind, detail)))
        if self.taint:
            self.event('branch', c)
        self.pc = band(1, self.pc, c)
        if type(self.pc) is int and self.pc == 0:
            raise Div()

    def effect(self, kind, detail, parts=()):
        self.effects.append((kind, detail, parts, self.here_fn(), self.pc))

    # ------------------------------------------------------------ places
    def resolve(self, base, place):
        l, pr = place
        key = base + l
        path = ()
        rng = None
        for k, x in pr:
            if k == 'f':
                path += (x,)
            elif k == 'd':
                v = self.load(key, path)
                if type(v) is Choice:
                    v = self.join_refs(v)
                if type(v) is Ref:
                    key, path, rng = v.key, v.path, v.rng
                elif type(v) is tuple:
                    path += (0,)       # box
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif k == 'i':
                i = self.S[base + x]
                path, rng = self.index(path, rng, i), None
            elif k == 'dc':
                v = self.load(key, path)
                if type(v) is Choice:
                    path += (('dc', x),)
            elif k == 'ci':
                off, fe = x
                n = rng[1] if rng is not None else len(self.load(key, path)[1])
                if type(n) is not int:
                    raise Unsupported('pattern on symbolic length')
                i = n - off if fe else off
                path, rng = self.index(path, rng, i), None
            elif k == 'ss':
                fr, to, fe = x
                lo, n = rng if rng is not None else (0, len(self.load(key, path)[1]))
                rng = (lo + fr, (n - to - fr) if fe else to - fr)
        return key, path, rng

    def join_refs(self, v):
        """a joined reference can be read when both targets agree; otherwise materialise the joined value"""
        def ld(x):
            if type(x) is Choice:
                return self.merge(x.c, ld(x.a), ld(x.b), None)
            if type(x) is Ref:
                if x.rng is not None:
                    return (0, tuple(self.slice_vals(x)))
                return self.load(x.key, x.path)
            raise Unsupported('deref of %r' % (x,))

        def kinds(x):
            return kinds(x.a) | kinds(x.b) if type(x) is Choice else {x.rng is not None}
        ks = kinds(v)
        val = ld(v)
        k = self.alloc_cell(val)
        if ks == {True}:
            return Ref(k, (), (0, len(val[1])))
        return Ref(k)

    def index(self, path, rng, i):
        if rng is not None:
            lo = rng[0]
            if type(i) is int and type(lo) is int:
                i += lo
            elif lo != 0 or type(lo) is T:
                i = add(64, i, lo)
        return path + (i,)

    def read(self, body, base, place):
        l, pr = place
        key, path, rng = self.resolve(base, place)
        if rng is not None:
            raise Unsupported('read of unsized place')
        ty = None
        for p in path:
            if type(p) is T:
                ty = body.place_ty(place)
                break
        v = self.load(key, path, ty)
        if v is None and pr:
            # fields of a box's pointer type: the box itself stands for the pointer
            v2 = self.box_ptr(body, base, place)
            if v2 is not None:
                return v2
        return v

    def box_ptr(self, body, base, place):
        l, pr = place
        ty = body.locals[l]
        for n, (k, x) in enumerate(pr):
            t = self.p.types[ty]
            if t['k'] == 'box' and all(e[0] == 'f' and e[1] == 0 for e in pr[n:]):
                key, path, _ = self.resolve(base, (l, pr[:n]))
                return Ref(key, path + (0,))
            ty = body.place_ty((l, pr[:n + 1]))
            if ty is None:
                return None
        return None

    def write(self, body, base, place, v):
        l, pr = place
        if not pr:
            key = base + l
            j = self.j
            if j is not None and key not in j:
                j[key] = self.S[key]
            self.S[key] = v
            return
        key, path, rng = self.resolve(base, place)
        ty = None
        for p in path:
            if type(p) is T:
                ty = body.place_ty(place)
                break
        self.put(key, path, v, ty)

    def operand(self, body, base, o):
        k = o[0]
        if k == 'l':
            return self.S[base + o[1]]
        if k == 'k':
            return o[1]
        if k == 'p':
            pl = o[1]
            ty = body.locals[pl[0]]
            if self.p.types[ty]['k'] == 'box' and pl[1] and pl[1][0][0] == 'f':
                r = self.box_ptr(body, base, pl)
                if r is not None:
                    return r
            return self.read(body, base, pl)
        if k == 'cz':
            return self.zst(o[1])
        if k == 'ca':
            return self.const(o[1], o[2])
        if k == 'rc':
            return 1 if 'Overflow' in o[1] else 0
        raise Unsupported('constant %s' % (o,))

    def zst(self, ty):
        t = self.p.types[ty]
        k = t['k']
        if k == 'adt' and t['variants']:
            v = t.get('single', 0) or 0
            return (v, tuple(self.zst(f[1]) for f in t['variants'][v][1]))
        if k == 'tuple' or k == 'closure':
            return (0, tuple(self.zst(f) for f in t['fields']))
        if k == 'array':
            return (0, tuple(self.zst(t['e']) for _ in range(t['len'])))
        return UNIT

    # ------------------------------------------------------------ constants
    def const(self, ty, ci):
        k = (ty, ci)
        v = self.ccache.get(k)
        if v is None:
            c = self.p.consts[ci]
            v = self.decode(ty, bytes.fromhex(c['bytes']), 0, dict(c['prov']))
            self.ccache[k] = v
        return v

    def decode(self, ty, b, off, prov):
        t = self.p.types[ty]
        k = t['k']
        w = self.p.W[ty]
        if k in SCAL:
            n = max(1, w // 8)
            return int.from_bytes(b[off:off + n], 'little') & ones(w)
        if k == 'float':
            import struct
            return struct.unpack('<d', b[off:off + 8])[0] if t['size'] == 8 else struct.unpack('<f', b[off:off + 4])[0]
        if k in ('ref', 'ptr'):
            if off not in prov:
                pt = self.p.types[t['t']]
                if pt['k'] in ('slice', 'str'):
                    n = int.from_bytes(b[off + 8:off + 16], 'little')
                    return Ref(self.alloc_cell((0, ())), (), (0, n))
                return Opaque('ptr', (int.from_bytes(b[off:off + 8], 'little'),))
            a = prov[off]
            o2 = int.from_bytes(b[off:off + 8], 'little')
            pt = self.p.types[t['t']]
            if pt['k'] in ('slice', 'str'):
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                key = self.alloc_val(a, o2, t['t'], n)
                return Ref(key, (), (0, n))
            if pt['k'] == 'dyn':
                return Opaque('dyn')
            return Ref(self.alloc_val(a, o2, t['t'], None))
        if k == 'array':
            e = t['e']
            sz = self.p.types[e].get('size', 0)
            return (0, tuple(self.decode(e, b, off + i * sz, prov) for i in range(t['len'])))
        if k == 'tuple' or k == 'closure':
            return (0, tuple(self.decode(f, b, off + t['off'][i], prov) for i, f in enumerate(t['fields'])))
        if k == 'fnptr':
            if off in prov and 'fn' in self.p.allocs[prov[off]]:
                return FnV(self.p.allocs[prov[off]]['fn'])
            return Opaque('fnptr')
        if k == 'fndef':
            return UNIT
        if k in ('adt', 'box'):
            if t['def'] == 'alloc::vec::Vec' or t['def'] == 'alloc::string::String':
                return (0, ())
            if t['def'].startswith(('core::fmt', 'std::', 'alloc::', 'core::panic')):
                if t['def'] not in ('core::option::Option',):
                    return Opaque(t['def'])
            if 'tag' in t:
                tg = t['tag']
                fo = t['off'][tg[0]] if tg[0] < len(t.get('off', [])) else 0
                raw = int.from_bytes(b[off + fo:off + fo + tg[1]], 'little')
                if tg[2] == 'direct':
                    v = None
                    for i, x in enumerate(t['variants']):
                        if x[2] & ones(8 * tg[1]) == raw:
                            v = i
                else:
                    v = tg[3]
                    hasp = any(off + fo <= q < off + fo + tg[1] for q in prov)
                    if not hasp:
                        d = (raw - tg[6]) & ones(8 * tg[1])
                        if d <= tg[5] - tg[4]:
                            v = tg[4] + d
                if v is None:
                    raise Unsupported('decode enum')
                offs = t['voff'][v]
            else:
                v = t.get('single', 0) or 0
                offs = t.get('off', [])
            fs = t['variants'][v][1] if t['variants'] else []
            return (v, tuple(self.decode(f[1], b, off + offs[i], prov) for i, f in enumerate(fs)))
        if k in ('never',):
            return UNIT
        return Opaque('const ' + k)

    def alloc_val(self, a, off, ty, n):
        k = (a, off, ty, n)
        c = self.acache.get(k)
        if c is not None:
            return c
        al = self.p.allocs[a]
        if 'static' in al:
            st = self.p.statics[al['static']]
            if st['init'] is None:
                raise Unsupported('static without initialiser')
            if 'lazy' in st['name'] or st['init'] is None:
                raise Unsupported('lazy static')
            c = self.alloc_cell(self.decode(st['ty'], bytes.fromhex(st['init']['bytes']), 0, dict(st['init']['prov'])))
        elif 'bytes' in al:
            b = bytes.fromhex(al['bytes'])
            prov = dict(al['prov'])
            t = self.p.types[ty]
            if n is not None:
                if t['k'] == 'str':
                    v = (0, tuple(b[off:off + n]))
                else:
                    e = t['e']
                    sz = self.p.types[e].get('size', 0)
                    v = (0, tuple(self.decode(e, b, off + i * sz, prov) for i in range(n)))
            else:
                v = self.decode(ty, b, off, prov)
            c = self.alloc_cell(v)
        else:
            c = self.alloc_cell(Opaque('alloc'))
        self.acache[k] = c
        return c

    # ------------------------------------------------------------ slices
    def slice_vals(self, r):
        """elements of a slice/array/vec reference"""
        if type(r) is Choice:
            r = self.join_refs(r)
        v = self.load(r.key, r.path)
        if type(v) is Ref:
            return self.slice_vals(v)
        if type(v) is SymV:
            raise Unsupported('elements of a vector of unknown length')
        if type(v) is Choice:
            raise Unsupported('elements of joined vectors')
        if r.rng is None:
            return v[1]
        lo, n = r.rng
        if type(lo) is T or type(n) is T:
            raise Unsupported('slice with symbolic bounds')
        if lo == 0 and n == len(v[1]):
            return v[1]
        return v[1][lo:lo + n]

    def slice_vals_tuple(self, r):
        return (0, tuple(self.slice_vals(r)))

    def slice_len(self, r):
        if type(r) is Choice:
            return self.merge(r.c, self.slice_len(r.a), self.slice_len(r.b), self.p.usize)
        if r.rng is not None:
            return r.rng[1]
        v = self.load(r.key, r.path)
        return self.vlen(v)

    def vlen(self, v):
        if type(v) is Ref:
            return self.slice_len(v)
        if type(v) is SymV:
            return blen(v.z)
        if type(v) is Choice:
            return self.merge(v.c, self.vlen(v.a), self.vlen(v.b), self.p.usize)
        return len(v[1])

    def slice_set(self, r, vals):
        """overwrite the elements a slice reference denotes"""
        vals = tuple(vals)
        v = self.load(r.key, r.path)
        if type(v) is Ref:
            return self.slice_set(v, vals)
        lo, n = r.rng if r.rng is not None else (0, len(v[1]))
        assert len(vals) == n
        self.put(r.key, r.path, (v[0], v[1][:lo] + vals + v[1][lo + n:]))

    def as_slice(self, r):
        """normalise a reference to vec/array/slice to a slice reference with bounds"""
        if type(r) is Choice:
            r = self.join_refs(r)
        while r.rng is None:
            v = self.load(r.key, r.path)
            if type(v) is Ref:
                r = v
                continue
            return Ref(r.key, r.path, (0, self.vlen(v)))
        return r

    # ------------------------------------------------------------ expressions
    def rvalue(self, body, base, rv, dplace):
        k = rv[0]
        if k == 'use':
            return self.operand(body, base, rv[1])
        if k == 'ref':
            pl = rv[1]
            if len(pl[1]) == 1 and pl[1][0][0] == 'd':
                v = self.S[base + pl[0]]
                if type(v) in (Ref, Opaque, Choice, FnV):
                    return v
            if pl[1] and pl[1][-1][0] == 'd':
                v = self.load(*self.resolve(base, (pl[0], pl[1][:-1]))[:2])
                if type(v) in (Ref, Opaque, Choice, FnV):
                    return v
            key, path, rng = self.resolve(base, pl)
            return Ref(key, path, rng)
        if k == 'bin':
            x = self.operand(body, base, rv[2])
            y = self.operand(body, base, rv[3])
            return self.binop(rv[1], x, y, rv[4], rv[5])
        if k == 'chk':
            x = self.operand(body, base, rv[2])
            y = self.operand(body, base, rv[3])
            return self.chkop(rv[1], x, y, rv[4])
        if k == 'tup':
            return (0, tuple([self.operand(body, base, o) for o in rv[1]]))
        if k == 'adt':
            ops = tuple([self.operand(body, base, o) for o in rv[1]])
            if rv[4] is not None:
                return (0, (None,) * rv[4] + ops)
            if self.inv:
                t = self.p.types[rv[2]]
                f = self.inv.get(t['def'])
                if f:
                    f(self, rv[2], ops)
            return (rv[3], ops)
        if k == 'arr' or k == 'clo':
            return (0, tuple([self.operand(body, base, o) for o in rv[1]]))
        if k == 'cast':
            return self.cast(rv[1], self.operand(body, base, rv[2]), rv[3], rv[4])
        if k == 'un':
            x = self.operand(body, base, rv[2])
            return self.unop(rv[1], x, rv[3])
        if k == 'disc':
            return self.disc(self.read(body, base, rv[1]), rv[2], rv[3])
        if k == 'len':
            key, path, rng = self.resolve(base, rv[1])
            return rng[1] if rng is not None else self.vlen(self.load(key, path))
        if k == 'rep':
            return (0, (self.operand(body, base, rv[1]),) * rv[2])
        if k == 'rawptr':
            p = self.operand(body, base, rv[1][0])
            m = self.operand(body, base, rv[1][1])
            if type(p) is Ref and type(m) in (int, T):
                return self.raw_slice(p, m)
            return p
        raise Unsupported('rvalue ' + k)

    def raw_slice(self, p, n):
        """slice reference made of a pointer to its first element and a length"""
        if p.rng is not None:
            return Ref(p.key, p.path, (p.rng[0], n))
        if p.path and type(p.path[-1]) is int:
            par = self.load(p.key, p.path[:-1])
            if type(par) is tuple:
                return Ref(p.key, p.path[:-1], (p.path[-1], n))
        v = self.load(p.key, p.path)
        if type(v) is tuple:
            return Ref(p.key, p.path, (0, n))
        raise Unsupported('raw slice')

    def disc(self, v, ty, dty):
        if type(v) is Choice:
            return self.merge(v.c, self.disc(v.a, ty, dty), self.disc(v.b, ty, dty), dty)
        if type(v) is tuple:
            t = self.p.types[ty]
            w = self.p.W[dty] or 64
            if t['k'] == 'adt' and t['adt'] == 'enum':
                return t['variants'][v[0]][2] & ones(w)
            return v[0]
        if v is None:
            t = self.p.types[ty]
            sg = t.get('single')
            if sg is None and t.get('size') == 0:
                sg = 0
            if sg is not None:      # never written: a zero-sized value of the only inhabited variant
                return t['variants'][sg][2] & ones(self.p.W[dty] or 64)
        raise Unsupported('discriminant of %r' % (v,))

    def unop(self, op, x, ty):
        if op == 'PtrMetadata':
            if type(x) is Ref:
                return x.rng[1] if x.rng is not None else UNIT
            if type(x) is Choice:
                return self.slice_len(x)
            raise Unsupported('metadata')
        w = self.p.W[ty]
        if op == 'Not':
            return bxor(w, x, ones(w))
        if op == 'Neg':
            if type(x) is float:
                return -x
            return neg(w, x)
        raise Unsupported('unop ' + op)

    def binop(self, op, x, y, ty, ty2):
        w = self.p.W[ty]
        tx = type(x)
        if tx is float or type(y) is float:
            return self.fbin(op, x, y)
        if w is None:
            return self.ptrop(op, x, y, ty)
        ty_ = type(y)
        if tx is Choice or ty_ is Choice:
            x = self.scalarize(x, w)
            y = self.scalarize(y, self.p.W[ty2])
        if op == 'Add' or op == 'AddUnchecked':
            return (x + y) & ((1 << w) - 1) if type(x) is int and type(y) is int else add(w, x, y)
        if op == 'BitXor':
            return x ^ y if type(x) is int and type(y) is int else bxor(w, x, y)
        if op == 'Sub' or op == 'SubUnchecked':
            return (x - y) & ((1 << w) - 1) if type(x) is int and type(y) is int else sub(w, x, y)
        s = self.p.S[ty]
        if op == 'Lt':
            return slt(w, x, y) if s else ult(w, x, y)
        if op == 'Eq':
            return eq(w, x, y)
        if op == 'Ne':
            return bxor(1, eq(w, x, y), 1)
        if op == 'Ge':
            return bxor(1, slt(w, x, y) if s else ult(w, x, y), 1)
        if op == 'Gt':
            return slt(w, y, x) if s else ult(w, y, x)
        if op == 'Le':
            return bxor(1, slt(w, y, x) if s else ult(w, y, x), 1)
        if op == 'BitAnd':
            return band(w, x, y)
        if op == 'BitOr':
            return bor(w, x, y)
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            w2 = self.p.W[ty2]
            k = w.bit_length() - 1
            if type(y) is int:
                n = y & (w - 1)
            else:
                n = band(w2, y, w - 1)
                if type(n) is T and self.taint:
                    self.event('shift', n)
            if op[2] == 'l':
                return shl(w, x, n)
            return ashr(w, x, n) if s else lshr(w, x, n)
        if op == 'Mul' or op == 'MulUnchecked':
            return mul(w, x, y)
        if op == 'Div' or op == 'Rem':
            if self.taint and (type(x) is T or type(y) is T):
                self.event('div', x)
                self.event('div', y)
            if op == 'Div':
                return sdiv(w, x, y) if s else udiv(w, x, y)
            return srem(w, x, y) if s else urem(w, x, y)
        if op == 'Cmp':
            lt = slt(w, x, y) if s else ult(w, x, y)
            e = eq(w, x, y)
            return self.ordering(lt, e)
        raise Unsupported('binop ' + op)

    def ordering(self, lt, e):
        def sw(c, a, b):
            if type(c) is int:
                return a if c else b
            return Choice(c, a, b)
        return sw(lt, (0, ()), sw(e, (1, ()), (2, ())))

    def scalarize(self, v, w):
        if type(v) is Choice:
            return ite(v.c, w, self.scalarize(v.a, w), self.scalarize(v.b, w))
        return v

    def fbin(self, op, x, y):
        import operator as o
        f = {'Add': o.add, 'Sub': o.sub, 'Mul': o.mul, 'Div': o.truediv, 'Lt': o.lt, 'Le': o.le, 'Gt': o.gt, 'Ge': o.ge,
             'Eq': o.eq, 'Ne': o.ne}.get(op)
        if f is None or type(x) is not float or type(y) is not float:
            raise Unsupported('float op')
        r = f(x, y)
        return int(r) if isinstance(r, bool) else r

    def ptrop(self, op, x, y, ty):
        if op == 'Eq' or op == 'Ne':
            if type(x) is Ref and type(y) is Ref:
                e = int(x.key == y.key and x.path == y.path)
                return e if op == 'Eq' else 1 - e
            if type(x) is tuple and type(y) is tuple and not x[1] and not y[1]:
                return int((x == y) == (op == 'Eq'))
        if op == 'Offset' and type(x) is Ref:
            if x.path and type(x.path[-1]) is int and type(y) is int:
                return Ref(x.key, x.path[:-1] + (x.path[-1] + s_of(y, 64),), None)
        raise Unsupported('pointer op %s' % op)

    def zval(self, x, ty):
        w = self.p.W[ty]
        if w == 0:
            return x
        return zs(x, w) if self.p.S[ty] else zu(x, w)

    def chkop(self, op, x, y, ty):
        w = self.p.W[ty]
        s = self.p.S[ty]
        if type(x) is int and type(y) is int:
            a, b = (s_of(x, w), s_of(y, w)) if s else (x, y)
            r = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            return (0, (r & ones(w), 0 if lo <= r <= hi else 1))
        a, b = self.zval(x, ty), self.zval(y, ty)
        if op == 'Add':
            r, z = add(w, x, y), zadd(a, b)
        elif op == 'Sub':
            r, z = sub(w, x, y), zsub(a, b)
        else:
            r, z = mul(w, x, y), zmul(a, b)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        ov = bor(1, zlt(z, lo), zlt(hi, z))
        return (0, (r, ov))

    def cast(self, kind, x, to, fr):
        p = self.p
        if kind == 'IntToInt':
            w0, w1 = p.W[fr], p.W[to]
            if w0 is None:      # fieldless enum
                x = self.disc(x, fr, to)
                return x
            if type(x) is Choice:
                x = self.scalarize(x, w0)
            if type(x) is int:
                if p.S[fr]:
                    x = s_of(x, w0)
                return x & ones(w1)
            return resize(x, w0, p.S[fr], w1)
        if kind == 'Unsize':
            if type(x) is Ref:
                src = p.types[p.types[fr].get('t', 0)] if p.types[fr]['k'] in ('ref', 'ptr') else None
                if src is not None and src['k'] == 'array':
                    return Ref(x.key, x.path, (0, src['len']))
            return x
        if kind in ('PtrToPtr', 'MutToConstPointer', 'FnPtrToPtr', 'ArrayToPointer'):
            return x
        if kind == 'ReifyFnPointer':
            return FnV(p.types[fr].get('inst'))
        if kind == 'ClosureFnPointer':
            return FnV(p.types[fr].get('inst'))
        if kind == 'UnsafeFnPointer':
            return x
        if kind == 'Transmute':
            return self.transmute(x, fr, to)
        if kind == 'IntToFloat':
            if type(x) is int:
                return float(s_of(x, p.W[fr]) if p.S[fr] else x)
            raise Unsupported('float of symbolic')
        if kind == 'FloatToInt':
            if type(x) is float:
                w = p.W[to]
                v = int(x)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if p.S[to] else (0, ones(w))
                return max(lo, min(hi, v)) & ones(w)
        if kind == 'FloatToFloat':
            return x
        raise Unsupported('cast ' + kind)

    def transmute(self, x, fr, to):
        p = self.p
        if fr == to or type(x) in (Ref, Opaque, FnV):
            return x
        tf, tt = p.types[fr], p.types[to]
        if p.W[fr] and p.W[to] and p.W[fr] == p.W[to]:
            return x
        if p.W[fr] and tt.get('def') == 'core::option::Option' and type(x) is int:
            if x == 0:
                return NONE
            return some(self.transmute(x, fr, tt['args'][0]))
        if type(x) in (int, T) and (tt.get('str', '').startswith('pattern_type') or tf.get('str', '').startswith('pattern_type')):
            return x
        # unwrap single-field structs
        def leaf(ty):
            t = p.types[ty]
            if t['k'] == 'adt' and t['adt'] == 'struct' and len(t['variants'][0][1]) == 1:
                return t['variants'][0][1][0][1]
            return None
        if tf['k'] == 'array' and p.W[tf['e']] == 8 and p.W[to]:
            return cat([(b, 0, 8) for b in reversed(x[1])])
        if p.W[fr] and tt['k'] == 'array' and p.W[tt['e']] == 8:
            w = p.W[fr]
            return (0, tuple(extract(x, w, 8 * i, 8) for i in range(w // 8)))
        if tf['k'] == 'array' and tt['k'] == 'array' and tf['len'] == tt['len']:
            return (0, tuple(self.transmute(v, tf['e'], tt['e']) for v in x[1]))
        if tf['k'] == 'array' and tt['k'] == 'array' and p.W[tf['e']] and p.W[tt['e']]:
            wf, wt = p.W[tf['e']], p.W[tt['e']]
            allb = cat([(b, 0, wf) for b in reversed(x[1])])
            tot = wf * tf['len']
            return (0, tuple(extract(allb, tot, i * wt, wt) for i in range(tt['len'])))
        l = leaf(fr)
        if l is not None and type(x) is tuple and len(x[1]) == 1:
            return self.transmute(x[1][0], l, to)
        l = leaf(to)
        if l is not None:
            return (0, (self.transmute(x, fr, l),))
        if tf['k'] == 'adt' and tt['k'] == 'adt' and tf['adt'] == tt['adt'] == 'struct' and type(x) is tuple:
            return x
        raise Unsupported('transmute %s -> %s' % (tf.get('str'), tt.get('str')))

    # ------------------------------------------------------------ execution
    def exec(self, body, base, bb, stop):
        S = self.S
        blocks = body.blocks
        spi = len(self.stack) - 1
        while True:
            if bb == stop:
                return 'stop'
            stmts, t = blocks[bb]
            self.steps += len(stmts) + 1
            if self.steps > self.budget:
                raise Unsupported('step budget')
            for st in stmts:
                if st[0] == '=':
                    pl = st[1]
                    v = self.rvalue(body, base, st[2], pl)
                    if not pl[1]:
                        key = base + pl[0]
                        j = self.j
                        if j is not None and key not in j:
                            j[key] = S[key]
                        S[key] = v
                    else:
                        self.write(body, base, pl, v)
                elif st[0] == 'sd':
                    key, path, _ = self.resolve(base, st[1])
                    v = self.load(key, path)
                    self.put(key, path, (st[2], v[1] if type(v) is tuple else ()))
                else:
                    self.copy_nonoverlapping(*[self.operand(body, base, o) for o in st[1:]])
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'sw':
                c = self.operand(body, base, t[1])
                if type(c) is Choice:
                    c = self.scalarize(c, self.p.W[t[2]])
                if type(c) is T:
                    w = self.p.W[t[2]]
                    tg = []
                    for v, b2 in t[3]:
                        cc = self.decide(eq(w, c, v & ones(w)))
                        if type(cc) is int:
                            if cc:
                                tg.append((1, b2))
                                break
                            continue
                        tg.append((cc, b2))
                    else:
                        cover = len(t[3]) >= (1 << w) if w < 20 else False
                        if cover and tg:
                            tg[-1] = (1, tg[-1][1])
                        else:
                            tg.append((1, t[4]))
                    # drop unreachable default
                    if len(tg) > 1 and blocks[tg[-1][1]][1][0] == 'unreach':
                        tg.pop()
                        tg[-1] = (1, tg[-1][1])
                    if len(tg) == 1:
                        bb = tg[0][1]
                        continue
                    self.spans[spi] = t[5]
                    stop2 = body.ipdom().get(bb, -2)
                    st2 = -1 if stop2 < 0 else stop2

                    def go(i, tg=tg, st2=st2):
                        cnd, b2 = tg[i]
                        if type(cnd) is int or i == len(tg) - 1:
                            return self.exec(body, base, b2, st2)
                        self.branch(cnd, lambda: self.exec(body, base, b2, st2), lambda: go(i + 1))
                    go(0)
                    if st2 == -1:
                        return 'ret'
                    bb = st2
                else:
                    for v, b2 in t[3]:
                        if v == c:
                            bb = b2
                            break
                    else:
                        bb = t[4]
            elif k == 'call':
                self.spans[spi] = t[5]
                args = [self.operand(body, base, o) for o in t[2]]
                f = t[1]
                if type(f) is dict:
                    inst = f.get('inst')
                    if f.get('rc'):
                        a = args[-1]
                        args = args[:-1] + list(a[1] if type(a) is tuple else ())
                    if inst is None:
                        raise Unsupported('unresolved call ' + f['def'])
                    v = self.call(inst, args, t)
                else:
                    fv = self.operand(body, base, f)
                    if type(fv) is not FnV:
                        raise Unsupported('call through %r' % (fv,))
                    v = self.call(fv.inst, args, t)
                if t[4] is None:
                    self.panic('diverge', 'call')
                pl = t[3]
                if type(v) is Fork:
                    # under v.c the call yields v.v; otherwise it is entered again (its receiver has moved on)
                    if any(st[0] != '=' or st[2][0] != 'ref' for st in stmts):
                        raise Unsupported('fork after effects')
                    self.spans[spi] = t[5]

                    def taken(v=v, pl=pl, bb=bb, nxt=t[4]):
                        self.write(body, base, pl, v.v)
                        if self.exec(body, base, nxt, bb) != 'stop':
                            raise Unsupported('loop over a filtered sequence is left early')
                    self.branch(v.c, taken, lambda: None)
                    continue
                if not pl[1]:
                    key = base + pl[0]
                    j = self.j
                    if j is not None and key not in j:
                        j[key] = S[key]
                    S[key] = v
                else:
                    self.write(body, base, pl, v)
                bb = t[4]
            elif k == 'assert':
                c = self.operand(body, base, t[1])
                if type(c) is not int or c != int(t[2]):
                    self.spans[spi] = t[5]
                    if not t[2]:
                        c = bxor(1, c, 1)
                    self.require(c, t[3])
                bb = t[4]
            elif k == 'ret':
                return 'ret'
            elif k == 'unreach':
                raise Div()
            else:
                raise Unsupported('terminator ' + k)

    def copy_nonoverlapping(self, src, dst, n):
        if type(n) is not int:
            raise Unsupported('copy of symbolic length')
        for i in range(n):
            a = src if i == 0 else self.ptrop('Offset', src, i, None)
            b = dst if i == 0 else self.ptrop('Offset', dst, i, None)
            self.put(b.key, b.path, self.load(a.key, a.path))

    def call(self, inst, args, t=None):
        nat = self.nat.get(inst, 0)
        if nat == 0:
            import natives
            nat = natives.find(self, inst)
            self.nat[inst] = nat
        if self.hooks_on_call:
            h = self.hooks_on_call.get(inst)
            if h is not None:
                r = h(self, inst, args)
                if r is not None:
                    return r
        if nat is not None:
            self.steps += 1
            if self.taint:
                import natives
                natives.timing(self, self.p.fns[inst], args)
            return nat(self, self.p.fns[inst], args, t)
        body = self.p.body(inst)
        if body is None:
            raise Unsupported('no body: %s (%s)' % (self.p.fns[inst]['name'], self.p.fns[inst]['kind']))
        ca = self.const_key(body, args) if self.p.in_ws(inst) else None
        if ca is not None:
            # a function of constants that neither panics, draws randomness nor has effects has one value
            key = (inst, ca)
            m = self.memo.get(key)
            if m is not None:
                return m[0]
            st = (len(self.events), len(self.effects), self.fresh, self.pc, self.obl)
            r = self.run(inst, body, args)
            if st[:4] == (len(self.events), len(self.effects), self.fresh, self.pc) and const_val(r):
                self.memo[key] = (r,)
            return r
        return self.run(inst, body, args)

    def const_key(self, body, args):
        """hashable key of constant arguments (string slices by content), None if some argument is not constant"""
        if const_args(args):
            return tuple(args)
        if len(args) > 3:
            return None
        out = []
        for a, ty in zip(args, body.locals[1:]):
            if const_args((a,)):
                out.append(a)
                continue
            t = self.p.types[ty]
            if type(a) is not Ref or t['k'] != 'ref' or self.p.types[t['t']]['k'] != 'str':
                return None
            try:
                v = tuple(self.slice_vals(a))
            except Unsupported:
                return None
            if not all(type(x) is int for x in v):
                return None
            out.append(('str', v))
        return tuple(out)

    def run(self, inst, body, args):
        if body.spread is not None:
            n = body.argc - 1
            args = list(args[:n]) + [(0, tuple(args[n:]))]
        if len(args) != body.argc:
            raise Unsupported('arity %s: %d/%d' % (self.p.fns[inst]['name'], len(args), body.argc))
        base = self.top
        nl = body.nl
        top = base + nl
        S = self.S
        if top + 512 > len(S):
            S.extend([None] * (top + 1024 - len(S)))
            self.TY.extend([None] * (top + 1024 - len(self.TY)))
        S[base:top] = [None] * nl
        self.TY[base:top] = body.locals
        S[base + 1:base + 1 + len(args)] = args
        self.top = top
        self.stack.append(inst)
        self.spans.append(None)
        self.visited[inst] = self.visited.get(inst, 0) + 1
        if len(self.stack) > 900:
            raise Unsupported('call depth')
        self.exec(body, base, 0, -1)
        r = S[base]
        self.stack.pop()
        self.spans.pop()
        self.top = base
        if r is None:
            r = UNIT
        return r

    def callv(self, f, fty, args):
        """call a closure / fn item / fn pointer value"""
        t = self.p.types[fty]
        k = t['k']
        if k == 'fndef':
            return self.call(t['inst'], args)
        if k == 'closure':
            if t['ckind'] == 'FnOnce':
                return self.call(t['inst'], [f] + args)
            top = self.top
            c = self.temp(f, fty)
            r = self.call(t['inst'], [Ref(c)] + args)
            self.top = top
            return r
        if k == 'ref':
            it = self.p.types[t['t']]
            if it['k'] == 'closure':
                return self.call(it['inst'], [f] + args)
            return self.callv(self.load(f.key, f.path), t['t'], args)
        if k == 'fnptr':
            return self.call(f.inst, args)
        raise Unsupported('call of ' + k)

    # ------------------------------------------------------------ entry
    def root(self, name, args):
        inst = self.p.roots.get(name)
        if inst is None:
            raise KeyError(name)
        return self.go(inst, args)

    def go(self, inst, args):
        self.top = 64
        if len(self.S) < 4096:
            self.S = [None] * 4096
            self.TY = [None] * 4096
        self.stack = []
        self.spans = []
        try:
            v = self.call(inst, list(args))
            return v
        except Div:
            self.pc = 0
            return None
