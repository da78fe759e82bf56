"""Program model: types, instances and MIR bodies of the dump, decoded for the abstract interpreter."""
import json
import os
from terms import T


class Ref:
    __slots__ = ('key', 'path', 'rng')

    def __init__(self, key, path=(), rng=None):
        self.key = key
        self.path = path
        self.rng = rng

    def __eq__(self, o):
        return type(o) is Ref and self.key == o.key and self.path == o.path and self.rng == o.rng

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.key, self.path, self.rng))

    def __repr__(self):
        return 'Ref(%s,%s,%s)' % (self.key, self.path, self.rng)


class Choice:
    """value selected by a condition, when the two sides have no common shape"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Choice(%r,%r,%r)' % (self.c, self.a, self.b)


class It:
    """leaf iterator state (immutable)"""
    __slots__ = ('k', 'a', 'i', 'j', 'x')

    def __init__(self, k, a, i, j, x=None):
        self.k = k
        self.a = a
        self.i = i
        self.j = j
        self.x = x

    def __eq__(self, o):
        return type(o) is It and self.k == o.k and self.i == o.i and self.j == o.j and self.x == o.x and (
            self.a is o.a or self.a == o.a)

    def __hash__(self):
        return hash((self.k, self.i, self.j))

    def __repr__(self):
        return 'It(%s,%s..%s)' % (self.k, self.i, self.j)


class SymV:
    """byte vector holding the minimal representation of a non-negative integer"""
    __slots__ = ('z', 'be')

    def __init__(self, z, be):
        self.z = z
        self.be = be

    def __eq__(self, o):
        return type(o) is SymV and self.z is o.z and self.be == o.be

    def __hash__(self):
        return hash((self.be,))

    def __repr__(self):
        return 'SymV(%r)' % (self.z,)


class FnV:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst

    def __eq__(self, o):
        return type(o) is FnV and self.inst == o.inst

    def __hash__(self):
        return hash(self.inst)


class Opaque:
    """value whose content is irrelevant to every checked property (formatting machinery, errors)"""
    __slots__ = ('what', 'parts', 'fmt')

    def __init__(self, what, parts=(), fmt=None):
        self.what = what
        self.parts = parts
        self.fmt = fmt

    def __repr__(self):
        return 'Opaque(%s)' % self.what


ROOT = os.environ.get('HS_REPO', '/repo') + '/'


class Unsupported(Exception):
    pass


BIG = ('num_bigint::bigint::BigInt', 'num_bigint::biguint::BigUint')
SCAL = ('int', 'bool', 'char')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.allocs = d['allocs']
        self.consts = d['consts']
        self.statics = d['statics']
        self.files = d['files']
        self.survey = d['survey']
        self.roots = {n.replace('crate::', '', 1): i for n, i in d['roots']}
        n = len(self.types)
        self.W = [None] * n       # scalar width (0: unbounded integer), None: not a scalar
        self.S = [False] * n
        for i, t in enumerate(self.types):
            k = t['k']
            if k == 'array' and t.get('stride'):    # length constants may be unevaluated in declared types
                t['len'] = t['size'] // t['stride']
            if k == 'int':
                self.W[i] = t['bits']
                self.S[i] = t['signed']
            elif k == 'bool':
                self.W[i] = 1
            elif k == 'char':
                self.W[i] = 32
            elif k == 'adt' and t['def'] in BIG:
                self.W[i] = 0
        self.bodies = {}
        self.byname = {}
        for i, f in enumerate(self.fns):
            self.byname.setdefault(f['def'], []).append(i)
        self.usize = next(i for i, t in enumerate(self.types) if t.get('str') == 'usize')
        self.u8 = next(i for i, t in enumerate(self.types) if t.get('str') == 'u8')

    # ---- types
    def fields(self, ty, v=0):
        """component types of a tuple-represented value of type ty (arrays/vectors: element type)"""
        t = self.types[ty]
        k = t['k']
        if k == 'array' or k == 'slice':
            return ('e', t['e'])
        if k == 'tuple' or k == 'closure':
            return ('f', t['fields'])
        if k == 'box':
            return ('e', t['args'][0])
        if k == 'str':
            return ('e', self.u8)
        if k == 'adt':
            d = t['def']
            if d == 'alloc::vec::Vec':
                return ('e', t['args'][0])
            if d == 'alloc::string::String':
                return ('e', self.u8)
            vs = t['variants']
            if v < len(vs):
                return ('f', [f[1] for f in vs[v][1]])
        return ('f', [])

    def fty(self, ty, v, i):
        k, x = self.fields(ty, v)
        if k == 'e':
            return x
        return x[i] if type(i) is int and i < len(x) else None

    def where(self, fn, span=None):
        f = self.fns[fn]
        sp = span or f.get('span')
        if not sp:
            return f['def']
        return '%s (%s:%d)' % (f['def'], self.files[sp[0]], sp[1])

    def in_repo(self, fn):
        f = self.fns[fn]
        return 'span' in f and (self.files[f['span'][0]].startswith(ROOT))

    def in_ws(self, fn):
        f = self.fns[fn]
        return 'span' in f and (self.files[f['span'][0]].startswith(ROOT) or not self.files[f['span'][0]].startswith('/'))

    # ---- bodies
    def body(self, fn):
        b = self.bodies.get(fn)
        if b is None:
            f = self.fns[fn]
            if 'body' not in f:
                return None
            b = Body(self, fn, f['body'])
            self.bodies[fn] = b
        return b


def cplace(p):
    l, pr = p
    if not pr:
        return (l, ())
    out = []
    for e in pr:
        if e == 'd':
            out.append(('d', 0))
        elif e[0] == 'ci':
            out.append(('ci', (e[1], e[3])))
        elif e[0] == 'ss':
            out.append(('ss', (e[1], e[2], e[3])))
        else:
            out.append((e[0], e[1]))
    return (l, tuple(out))


class Body:
    __slots__ = ('fn', 'argc', 'nl', 'locals', 'spread', 'blocks', 'ipd', 'prog', 'canret')

    def __init__(self, prog, fn, b):
        self.prog = prog
        self.fn = fn
        self.argc = b['argc']
        self.locals = b['locals']
        self.nl = len(self.locals)
        self.spread = b['spread']
        self.ipd = None
        self.blocks = []
        for ss, t in b['blocks']:
            st = []
            for s in ss:
                if s[0] == '=':
                    st.append(('=', cplace(s[1]), self.crv(s[2])))
                elif s[0] == 'sd':
                    st.append(('sd', cplace(s[1]), s[2]))
                elif s[0] == 'cno':
                    st.append(('cno', self.cop(s[1]), self.cop(s[2]), self.cop(s[3])))
            k = t[0]
            if k == 'sw':
                t = ('sw', self.cop(t[1]), t[2], tuple((v, b2) for v, b2 in t[3]), t[4], t[5])
            elif k == 'call':
                f = t[1]
                if isinstance(f, list):
                    f = self.cop(f)
                t = ('call', f, tuple(self.cop(x) for x in t[2]), cplace(t[3]), t[4], t[5], t[6], t[7])
            elif k == 'assert':
                t = ('assert', self.cop(t[1]), t[2], t[3], t[4], t[5])
            else:
                t = tuple(t)
            self.blocks.append((st, t))

    def cop(self, o):
        """operand: ('p', place) | ('k', value, ty) constants with known scalar value | other"""
        if o[0] == 'p':
            l, pr = cplace(o[1])
            if not pr:
                return ('l', l)
            return ('p', (l, pr))
        if o[0] == 'ci':
            return ('k', o[2], o[1])
        return tuple(o)

    def crv(self, r):
        k = r[0]
        if k == 'use':
            return ('use', self.cop(r[1]))
        if k == 'ref' or k == 'len':
            return (k, cplace(r[1]))
        if k in ('arr', 'clo', 'rawptr'):
            return (k, tuple(self.cop(x) for x in r[1]), r[2])
        if k == 'tup':
            return ('tup', tuple(self.cop(x) for x in r[1]))
        if k == 'adt':
            return ('adt', tuple(self.cop(x) for x in r[1]), r[2], r[3], r[4])
        if k in ('bin', 'chk'):
            return (k, r[1], self.cop(r[2]), self.cop(r[3]), r[4], r[5])
        if k == 'un':
            return (k, r[1], self.cop(r[2]), r[3])
        if k == 'cast':
            return (k, r[1], self.cop(r[2]), r[3], r[4])
        if k == 'disc':
            return (k, cplace(r[1]), r[2], r[3])
        if k == 'rep':
            return (k, self.cop(r[1]), r[2])
        return ('unsupported',)

    def succ(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'sw':
            return [x for _, x in t[3]] + [t[4]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def ipdom(self):
        """immediate post-dominators over the paths that return (-1: function exit)"""
        if self.ipd is not None:
            return self.ipd
        n = len(self.blocks)
        succ = [self.succ(b) for b in range(n)]
        preds = [[] for _ in range(n + 1)]
        EX = n
        for b in range(n):
            for s in succ[b]:
                preds[s].append(b)
            if self.blocks[b][1][0] == 'ret':
                preds[EX].append(b)
        # blocks that can return, in reverse-graph post order from EX
        order = []
        seen = {EX}
        st = [(EX, iter(preds[EX]))]
        while st:
            v, it = st[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    st.append((p, iter(preds[p])))
                    break
            else:
                order.append(v)
                st.pop()
        num = {v: i for i, v in enumerate(order)}
        idom = {EX: EX}
        ch = True
        rsucc = {}
        for b in range(n):
            if b in seen:
                l = [s for s in succ[b] if s in seen]
                if self.blocks[b][1][0] == 'ret':
                    l.append(EX)
                rsucc[b] = l
        while ch:
            ch = False
            for v in reversed(order):
                if v == EX:
                    continue
                new = None
                for s in rsucc[v]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] < num[b]:
                                    a = idom[a]
                                while num[b] < num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(v) != new:
                    idom[v] = new
                    ch = True
        self.canret = seen
        self.ipd = {v: (-1 if d == EX else d) for v, d in idom.items() if v != EX}
        return self.ipd

    def place_ty(self, place):
        prog = self.prog
        l, pr = place
        ty = self.locals[l]
        v = 0
        for k, x in pr:
            if ty is None:
                return None
            t = prog.types[ty]
            if k == 'd':
                ty = t['args'][0] if t['k'] == 'box' else t.get('t')
            elif k == 'f':
                ty2 = None
                if t['k'] == 'adt' or t['k'] == 'box':
                    fs = t['variants'][v][1] if v < len(t['variants']) else []
                    ty2 = fs[x][1] if x < len(fs) else None
                elif t['k'] in ('tuple', 'closure'):
                    ty2 = t['fields'][x]
                ty = ty2
                v = 0
            elif k in ('i', 'ci'):
                ty = t.get('e')
                if t['k'] == 'str':
                    ty = prog.u8
            elif k == 'dc':
                v = x
        return ty
