"""Inductive invariants of value-dependent loops.

Path-by-path dataflow over the MIR with integers as polynomials over the unknowns.  All calls are inlined; every loop is cut
at its head: the variables it assigns are forgotten and a conjunction of candidate relations (templates over the loop's variables) is assumed, and
candidates that are not established on entry or not preserved by some path through the body are removed until a fixpoint (Houdini).
Inequalities are proved as non-negative combinations of known inequalities, congruences by polynomial reduction."""
from fractions import Fraction
from mir import Unsupported
from interp import Interp


# ---- polynomials: {sorted tuple of symbols: coefficient}
def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + a * b
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def C(k):
    return {(): k} if k else {}


def S(s):
    return {(s,): 1}


def freeze(p):
    return tuple(sorted(p.items()))


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0)


def quotient(m, k):
    """monomial m / k, or None"""
    m = list(m)
    for s in k:
        if s not in m:
            return None
        m.remove(s)
    return tuple(m)


def submonomials(m):
    out = {()}
    for s in m:
        out |= {x + (s,) for x in out}
    return sorted(out, key=lambda x: (-len(x), x))


def subst(p, s, q):
    r = {}
    for m, c in p.items():
        t = {(): c}
        for x in m:
            t = pmul(t, q if x == s else S(x))
        r = padd(r, t)
    return r


class Poly(dict):
    __slots__ = ()


UNINIT = ('uninit',)


class State:
    __slots__ = ('stack', 'mem', 'facts', 'mod', 'gcd', 'seen', 'heads', 'div')

    def copy(self):
        s = State()
        s.stack = [list(f) for f in self.stack]
        s.mem = dict(self.mem)
        s.facts = list(self.facts)
        s.mod = {k: list(v) for k, v in self.mod.items()}
        s.gcd = list(self.gcd)
        s.seen = dict(self.seen)
        s.heads = dict(self.heads)
        s.div = dict(self.div)
        return s


class Walker:
    def __init__(self, prog, root, dead, mode):
        self.p = prog
        self.root = root
        self.dead = dead          # removed candidates
        self.mode = mode
        self.failed = set()
        self.problems = []
        self.nsym = 0
        self.used = set()         # functions
        self.loops = {}           # loop -> candidates
        self.measures = {}
        self.paths = 0
        self.returns = 0
        self.refusals = 0
        self.overflows = set()
        self.I = Interp(prog)
        self.lheads = {}
        self.steps = 0

    # ---- symbols and facts
    def fresh(self, st, name, ty):
        self.nsym += 1
        s = '%s#%d' % (name, self.nsym)
        w = self.p.W[ty]
        if self.p.S[ty]:
            st.facts.append(padd(C(2 ** w - 1), S(s), -1))
            return padd(S(s), C(2 ** (w - 1)), -1)
        st.facts.append(padd(C(2 ** w - 1), S(s), -1))
        return S(s)

    def range(self, ty):
        w = self.p.W[ty]
        return (-2 ** (w - 1), 2 ** (w - 1) - 1) if self.p.S[ty] else (0, 2 ** w - 1)

    def prove(self, st, p, depth=5, fuel=60):
        """p >= 0 as a non-negative combination of facts and monomials"""
        if not any(c < 0 for c in p.values()):
            return True
        idx = {}
        for f in st.facts:
            for n, c in f.items():
                if c < 0:
                    idx.setdefault(n, {})[freeze(f)] = (f, c)
        for d in range(1, depth + 1):
            self.fuel = fuel
            if self._prove(idx, p, d, {}):
                return True
        return False

    def _prove(self, idx, p, depth, seen):
        neg = [m for m, c in p.items() if c < 0]
        if not neg:
            return True
        if depth == 0 or self.fuel <= 0 or len(p) > 40:
            return False
        k = freeze(p)
        if seen.get(k, 0) >= depth:
            return False
        seen[k] = depth
        self.fuel -= 1
        m = max(neg, key=lambda m: (any(x not in 'nx' for x in m), len(m), m))
        for n in submonomials(m):
            q = quotient(m, n)
            for f, c in idx.get(n, {}).values():
                t = Fraction(p[m], c)
                if t.denominator == 1:
                    t = int(t)
                big = f.get((), 0)
                if big >= 128 and p.get(q, 0) < t * big:      # the range of a type: useful only against an equally large constant
                    continue
                if self._prove(idx, padd(p, pmul(f, {q: 1}), -t), depth - 1, seen):
                    return True
        return False

    def congruent0(self, st, p):
        """p = 0 modulo n"""
        n = 'n'

        def red(p, seen, fuel):
            p = {m: c for m, c in p.items() if n not in m}
            if not p:
                return True
            k = freeze(p)
            if k in seen or fuel == 0:
                return False
            seen.add(k)
            for s in sorted({x for m in p for x in m}):
                for q in st.mod.get(s, ()):
                    if red(subst(p, s, q), seen, fuel - 1):
                        return True
            return False
        if red(p, set(), 8):
            return True
        for s, qs in st.mod.items():        # symbols pinned to 0 or 1 by the path
            for c in (0, 1):
                if self.prove(st, padd(S(s), C(c), -1), 3) and self.prove(st, padd(C(c), S(s), -1), 3):
                    for q in qs:
                        g = padd(q, C(c), -1)
                        for k in (1, -1):
                            if red(padd(p, g, k), set(), 6):
                                return True
                    if red(subst(p, s, C(c)), set(), 6):
                        return True
        return False

    def gcd_is_g(self, st, u, v):
        def divides(b, p):
            if not p:
                return True
            if len(b) == 1:
                (m, c), = b.items()
                return abs(c) == 1 and all(quotient(x, m) is not None for x in p)
            for k in (1, -1):
                if padd(p, b, k) == {}:
                    return True
            return False
        for a, b in st.gcd:
            for a, b in ((a, b), (b, a)):
                for U, V in ((u, v), (v, u)):
                    if padd(U, b, -1) == {} and (divides(b, padd(V, a, -1)) or divides(b, padd(V, a))):
                        return True
        return False

    # ---- conditions: ('c', bool) | ('cmp', op, p, q) | ('ovf', p, lo, hi) | ('not', b) | ('sym', poly)
    def cond(self, v):
        if type(v) is dict:
            if is_const(v):
                return ('c', cval(v) != 0)
            return ('cmp', 'Ne', v, {})
        return v

    def assume(self, st, b, truth, fuel=60):
        """alternative lists of facts under which condition b has the given truth value; infeasible ones are dropped"""
        k = b[0]
        if k == 'c':
            return [[]] if b[1] == truth else []
        if k == 'not':
            return self.assume(st, b[1], not truth, fuel)
        if k == 'and' or k == 'or':
            if (k == 'and') == truth:
                return [x + y for x in self.assume(st, b[1], truth, fuel) for y in self.assume(st, b[2], truth, fuel)]
            return self.assume(st, b[1], truth, fuel) + self.assume(st, b[2], truth, fuel)
        if k == 'ovf':
            p, lo, hi = b[1:]
            if not truth:
                alts = [[padd(p, C(lo), -1), padd(C(hi), p, -1)]]
            else:
                alts = [[padd(C(lo - 1), p, -1)], [padd(p, C(hi + 1), -1)]]
        else:
            op, p, q = b[1:]
            if not truth:
                op = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}[op]
            d = padd(p, q, -1)
            m = {a: -c for a, c in d.items()}
            one = C(1)
            alts = {'Lt': [[padd(m, one, -1)]], 'Le': [[m]], 'Gt': [[padd(d, one, -1)]], 'Ge': [[d]], 'Eq': [[d, m]],
                    'Ne': [[padd(d, one, -1)], [padd(m, one, -1)]]}[op]
        out = []
        for fs in alts:
            if not any(self.prove(st, padd({a: -c for a, c in f.items()}, C(1), -1), 5, fuel) for f in fs):
                out.append(fs)
        return out

    # ---- memory
    def frame(self, st):
        return st.stack[-1]

    def resolve(self, st, place):
        l, pr = place
        key, path = (self.frame(st)[2], l), ()
        for e in pr:
            if e[0] == 'd':
                v = self.get(st, key, path)
                if not (type(v) is tuple and v[0] == 'ref'):
                    raise Unsupported('dereference of %s' % (v,))
                key, path = v[1], v[2]
            elif e[0] == 'f':
                path = path + (e[1],)
            elif e[0] == 'v':
                pass
            else:
                raise Unsupported('projection %s' % (e,))
        return key, path

    def get(self, st, key, path):
        v = st.mem.get(key, UNINIT)
        for i in path:
            if type(v) is dict or v == UNINIT or v[0] != 'agg':
                raise Unsupported('field of %s' % (v,))
            v = v[2][i]
        return v

    def put(self, st, key, path, x):
        def up(v, path):
            if not path:
                return x
            i = path[0]
            fs = list(v[2]) if type(v) is tuple and v[0] == 'agg' else []
            while len(fs) <= i:
                fs.append(UNINIT)
            fs[i] = up(fs[i], path[1:])
            return ('agg', v[1] if type(v) is tuple and v[0] == 'agg' else 0, tuple(fs))
        st.mem[key] = up(st.mem.get(key, UNINIT), path)

    def decoded(self, v):
        if type(v) is int:
            return C(v)
        if type(v) is tuple:
            return ('agg', v[0], tuple(self.decoded(x) for x in v[1]))
        return ('opaque',)

    def op(self, st, o):
        k = o[0]
        if k == 'l':
            return self.get(st, (self.frame(st)[2], o[1]), ())
        if k == 'p':
            return self.get(st, *self.resolve(st, o[1]))
        if k == 'k':
            v = o[1]
            if type(v) is int:
                w = self.p.W[o[2]]
                if self.p.S[o[2]] and v >= 2 ** (w - 1):
                    v -= 2 ** w
                return C(v)
            return ('opaque',)
        if k == 'ca':
            try:
                return self.decoded(self.I.const(o[1], o[2]))
            except Unsupported:
                return ('opaque',)
        if k == 'cz':
            return self.decoded(self.I.zst(o[1]))
        if k == 'rc':
            return C(1 if 'Overflow' in o[1] else 0)
        return ('opaque',)

    # ---- arithmetic
    def exact(self, st, op, a, b):
        return padd(a, b) if op.startswith('Add') else padd(a, b, -1) if op.startswith('Sub') else pmul(a, b)

    def binop(self, st, op, a, b, ty, rty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if type(a) is tuple and a[0] in ('cmp', 'c', 'not', 'ovf', 'and', 'or') or type(b) is tuple:
                raise Unsupported('comparison of conditions')
            if is_const(a) and is_const(b):
                x, y = cval(a), cval(b)
                return ('c', {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
            return ('cmp', op, a, b)
        if op in ('BitAnd', 'BitOr') and self.p.types[ty]['k'] == 'bool':
            return ('and' if op == 'BitAnd' else 'or', self.cond(a), self.cond(b))
        if type(a) is not dict or type(b) is not dict:
            raise Unsupported('%s on %s' % (op, (a, b)))
        lo, hi = self.range(ty)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            e = self.exact(st, op, a, b)
            if is_const(e):
                v = cval(e) % 2 ** self.p.W[ty]
                return C(v - 2 ** self.p.W[ty] if v > hi else v)
            if self.prove(st, padd(e, C(lo), -1)) and self.prove(st, padd(C(hi), e, -1)):
                return e
            return self.fresh(st, 'wrapped', ty)
        if op in ('Div', 'Rem'):
            if not (self.prove(st, a) and self.prove(st, padd(b, C(1), -1))):
                return self.fresh(st, op.lower(), ty)
            k = (freeze(a), freeze(b))
            if k not in st.div:
                self.nsym += 1
                s = 'q#%d' % self.nsym
                r = padd(a, pmul(S(s), b), -1)
                st.facts += [r, padd(padd(b, C(1), -1), r, -1), padd(a, S(s), -1), padd(C(hi), S(s), -1)]
                st.div[k] = S(s)
            q = st.div[k]
            return q if op == 'Div' else padd(a, pmul(q, b), -1)
        return self.fresh(st, op.lower(), ty)

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.op(st, r[1])
        if k == 'ref':
            return ('ref',) + self.resolve(st, r[1])
        if k == 'tup':
            return ('agg', 0, tuple(self.op(st, x) for x in r[1]))
        if k == 'adt':
            return ('agg', r[3], tuple(self.op(st, x) for x in r[1]))
        if k == 'bin':
            return self.binop(st, r[1], self.op(st, r[2]), self.op(st, r[3]), r[4], r[5])
        if k == 'chk':
            a, b = self.op(st, r[2]), self.op(st, r[3])
            if type(a) is not dict or type(b) is not dict:
                raise Unsupported('arithmetic on %s' % (a,))
            e = self.exact(st, r[1], a, b)
            lo, hi = self.range(r[4])
            return ('agg', 0, (e, ('c', not lo <= cval(e) <= hi) if is_const(e) else ('ovf', e, lo, hi)))
        if k == 'un':
            a = self.op(st, r[2])
            if r[1] == 'Not' and self.p.types[r[3]]['k'] == 'bool':
                return ('not', self.cond(a))
            return self.fresh(st, 'un', r[3])
        if k == 'cast':
            a = self.op(st, r[2])
            if type(a) is dict and self.p.W[r[4]]:
                lo, hi = self.range(r[4])
                if self.prove(st, padd(a, C(lo), -1)) and self.prove(st, padd(C(hi), a, -1)):
                    return a
                return self.fresh(st, 'cast', r[4])
            return ('opaque',)
        if k == 'disc':
            v = self.get(st, *self.resolve(st, r[1]))
            if type(v) is tuple and v[0] == 'agg':
                return C(v[1])
        return ('opaque',)

    # ---- loops
    def heads(self, fn):
        r = self.lheads.get(fn)
        if r is None:
            b = self.p.body(fn)
            r, col = {}, {}
            st = [(0, iter(b.succ(0)))]
            col[0] = 1
            back = []
            while st:
                v, it = st[-1]
                for w in it:
                    if w not in col:
                        col[w] = 1
                        st.append((w, iter(b.succ(w))))
                        break
                    if col[w] == 1:
                        back.append((v, w))
                else:
                    col[v] = 2
                    st.pop()
            preds = {}
            for v in col:
                for w in b.succ(v):
                    preds.setdefault(w, []).append(v)
            for v, h in back:
                body = r.setdefault(h, {h})
                todo = [v]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += preds.get(x, [])
            self.lheads[fn] = r
        return r

    def assigned(self, st, fn, blocks):
        b = self.p.body(fn)
        m = set()
        for k in blocks:
            ss, t = b.blocks[k]
            for s in ss:
                if s[0] == '=':
                    m |= self.target(st, s[1])
                    if s[2][0] in ('ref', 'rawptr') and s[2][0] == 'ref':
                        if not any(e[0] == 'd' for e in s[2][1][1]):
                            m.add(s[2][1][0])
                elif s[0] == 'sd':
                    m |= self.target(st, s[1])
            if t[0] == 'call':
                m |= self.target(st, t[3])
                for a in t[2]:      # references held by locals may be written through
                    if a[0] == 'l':
                        v = st.mem.get((self.frame(st)[2], a[1]))
                        if type(v) is tuple and v[0] == 'ref' and a[1] not in m and self.mut(fn, a[1]):
                            raise Unsupported('loop passes on a mutable reference')
        return m

    def mut(self, fn, l):
        return 'mut' in self.p.types[self.p.body(fn).locals[l]].get('str', 'mut')

    def target(self, st, place):
        if any(e[0] == 'd' for e in place[1]):
            v = st.mem.get((self.frame(st)[2], place[0]))
            if type(v) is tuple and v[0] == 'ref' and v[1][0] == self.frame(st)[2]:
                return {v[1][1]}
            if v is None or v == UNINIT:
                return set()        # a reference made inside the loop: its referent is recorded there
            raise Unsupported('loop writes through a reference')
        return {place[0]}

    def leaves(self, v, ty, path=()):
        """integer leaves of an initialised value"""
        if type(v) is dict:
            if self.p.W[ty]:
                yield path, v, ty
        elif type(v) is tuple and v and v[0] == 'agg':
            k, x = self.p.fields(ty, v[1])
            if k == 'f':
                for i, y in enumerate(v[2]):
                    if i < len(x):
                        yield from self.leaves(y, x[i], path + (i,))

    def templates(self, M, consts):
        """candidate relations between the loop's variables, named by their leaf"""
        n = len(M)
        for i in range(n):
            for k in consts:
                yield ('<c+n', i, k)
            for t in ('=e', '>=e', '<=e', '>=1', '<=n', '<n', '<=x', '~e'):
                yield (t, i)
            for j in range(n):
                if i != j:
                    yield ('~x', i, j)
                    yield ('<=', i, j)
                    if i < j:
                        yield ('gcd', i, j)

    def holds(self, st, c, vals, entry):
        t = c[0]
        v = vals[c[1]]
        if t == '=e':
            return padd(v, entry[c[1]], -1) == {}
        if t == '>=e':
            return self.prove(st, padd(v, entry[c[1]], -1))
        if t == '<=e':
            return self.prove(st, padd(entry[c[1]], v, -1))
        if t == '>=1':
            return self.prove(st, padd(v, C(1), -1))
        if t == '<=n':
            return self.prove(st, padd(S('n'), v, -1))
        if t == '<n':
            return self.prove(st, padd(padd(S('n'), v, -1), C(1), -1))
        if t == '<=x':
            return self.prove(st, padd(S('x'), v, -1))
        if t == '<c+n':
            return self.prove(st, padd(padd(padd(S('n'), self.cval[c[2]]), v, -1), C(1), -1))
        if t == '~e':
            return self.congruent0(st, padd(v, entry[c[1]], -1))
        if t == '~x':
            return self.congruent0(st, padd(v, pmul(vals[c[2]], S('x')), -1))
        if t == '<=':
            return self.prove(st, padd(vals[c[2]], v, -1))
        if t == 'gcd':
            return self.gcd_is_g(st, v, vals[c[2]])

    def learn(self, st, c, vals, entry):
        t = c[0]
        v = vals[c[1]]
        f = {'>=e': lambda: padd(v, entry[c[1]], -1), '<=e': lambda: padd(entry[c[1]], v, -1), '>=1': lambda: padd(v, C(1), -1),
             '<=n': lambda: padd(S('n'), v, -1), '<n': lambda: padd(padd(S('n'), v, -1), C(1), -1), '<=x': lambda: padd(S('x'), v, -1),
             '<=': lambda: padd(vals[c[2]], v, -1), '<c+n': lambda: padd(padd(padd(S('n'), self.cval[c[2]]), v, -1), C(1), -1)}.get(t)
        if f:
            st.facts.append(f())
            return
        if t == 'gcd':
            st.gcd.append((v, vals[c[2]]))
            return
        (m, k), = v.items()
        s = m[0]
        if t == '~e':
            st.mod.setdefault(s, []).append(entry[c[1]])
        elif t == '~x':
            st.mod.setdefault(s, []).append(pmul(vals[c[2]], S('x')))

    def head(self, st, fn, bb):
        """at a loop head: True to go on into the body, False when the path ends here"""
        key = tuple(f[3] for f in st.stack[1:]) + (fn, bb)
        fid = self.frame(st)[2]
        if key in st.seen:
            names, hv, entry = st.seen[key]
            vals = []
            for l, path, ty in names:
                v = self.get(st, (fid, l), path)
                vals.append(v if type(v) is dict else None)
            if any(v is None for v in vals):
                raise Unsupported('loop variable of changing shape')
            for c in self.cands(key, names, st):
                if not self.holds(st, c, vals, entry):
                    self.failed.add((key, c))
            ms = set()
            for i, (h, v) in enumerate(zip(hv, vals)):
                if self.prove(st, padd(padd(h, v, -1), C(1), -1)):
                    ms.add((i,))
                others = [(('v', j), hv[j], vals[j]) for j in range(len(hv)) if j != i] + [(('c', k), p, p) for k, p in self.consts(st, fid, names)]
                for nm, h2, v2 in others:
                    dh, dv = padd(h2, h, -1), padd(v2, v, -1)
                    if self.prove(st, dh, 3) and self.prove(st, padd(padd(dh, dv, -1), C(1), -1), 4):
                        ms.add((nm, i))
            self.measures[key] = self.measures[key] & ms if key in self.measures else ms
            return False
        names = []
        b = self.p.body(fn)
        M = sorted(self.assigned(st, fn, self.heads(fn)[bb]))
        entry = []
        for l in M:
            v = st.mem.get((fid, l), UNINIT)
            for path, x, ty in self.leaves(v, b.locals[l]):
                names.append((l, path, ty))
                entry.append(x)
        self.loops.setdefault(key, set())
        cs = self.cands(key, names, st)
        for c in cs:
            if not self.holds(st, c, entry, entry):
                self.failed.add((key, c))
        new = []
        keep = {c[1] for c in cs if c[0] == '=e' and (key, c) not in self.failed}
        for l in M:
            if not any(n[0] == l for n in names):
                st.mem[(fid, l)] = UNINIT
        for i, (l, path, ty) in enumerate(names):
            if i in keep:
                new.append(entry[i])
                continue
            x = self.fresh(st, '_%d%s' % (l, ''.join('.%d' % k for k in path)), ty)
            new.append(x)
            self.put(st, (fid, l), path, x)
        strict = {c[1] for c in cs if c[0] == '<n' and (key, c) not in self.failed}
        for c in cs:
            if c[0] in ('<=n', '<c+n') and c[1] in strict:      # implied
                continue
            if c[0] != '=e' and (key, c) not in self.failed and c[1] not in keep:
                v = new[c[1]]
                if c[0] in ('~e', '~x') and not (len(v) == 1 and len(list(v)[0]) == 1):
                    continue
                self.learn(st, c, new, entry)
            elif c[0] in ('gcd', '<=') and (key, c) not in self.failed:
                self.learn(st, c, new, entry)
        st.seen[key] = (names, new, entry)
        self.loops[key] = {c for c in cs if (key, c) not in self.failed}
        return True

    def consts(self, st, fid, names):
        b = self.p.body(self.frame(st)[0])
        ns = {n[0] for n in names}
        for (f, l), v in list(st.mem.items()):
            if f == fid and l not in ns and l < b.nl:
                for path, x, ty in self.leaves(v, b.locals[l]):
                    yield (l, path), x

    def cands(self, key, names, st):
        self.cval, had = {}, set()
        for k, v in self.consts(st, self.frame(st)[2], names):
            if freeze(v) not in had:
                had.add(freeze(v))
                self.cval[k] = v
        return [c for c in self.templates(names, list(self.cval)) if (key, c) not in self.dead]

    # ---- execution
    def run(self, arg_syms, facts, gcd):
        fn = self.p.roots[self.root]
        b = self.p.body(fn)
        st = State()
        st.mem, st.facts, st.mod, st.gcd, st.seen, st.heads, st.div = {}, list(facts), {}, list(gcd), {}, {}, {}
        st.stack = [[fn, 0, 0, None, None, None]]
        self.nfid = 0
        for i, s in enumerate(arg_syms):
            ty = b.locals[i + 1]
            hi = self.range(self.intty(ty))[1]
            st.facts.append(padd(C(hi), S(s), -1))
            st.mem[(0, i + 1)] = self.wrap(ty, S(s))
        self.used.add(fn)
        todo = [st]
        while todo:
            st = todo.pop()
            todo += self.path(st)
            self.paths += 1
            if self.paths > 2000 or self.steps > 400000:
                raise Unsupported('too many paths')

    def intty(self, ty):
        while not self.p.W[ty]:
            k, x = self.p.fields(ty)
            if k != 'f' or len(x) != 1:
                raise Unsupported('argument type')
            ty = x[0]
        return ty

    def wrap(self, ty, v):
        if self.p.W[ty]:
            return v
        return ('agg', 0, (self.wrap(self.p.fields(ty)[1][0], v),))

    def unwrap(self, v):
        while type(v) is tuple and v[0] == 'agg' and len(v[2]) == 1:
            v = v[2][0]
        return v

    def problem(self, st, what, span=None):
        self.problems.append((what, self.p.where(self.frame(st)[0], span)))

    def goto(self, st, bb):
        self.frame(st)[1] = bb
        fn = self.frame(st)[0]
        if bb in self.heads(fn):
            return self.head(st, fn, bb)
        return True

    def path(self, st):
        """follow one path until it ends or splits; returns the successors"""
        while True:
            fr = self.frame(st)
            fn, bb, fid = fr[0], fr[1], fr[2]
            ss, t = self.p.body(fn).blocks[bb]
            self.steps += 1 + len(ss)
            if self.steps > 400000:
                raise Unsupported('step budget')
            for s in ss:
                if s[0] == '=':
                    self.put(st, *self.resolve(st, s[1]), self.rvalue(st, s[2]))
                elif s[0] == 'sd':
                    raise Unsupported('set discriminant')
            k = t[0]
            if k == 'goto':
                if not self.goto(st, t[1]):
                    return []
                continue
            if k == 'sw':
                v = self.op(st, t[1])
                c = self.cond(v) if type(v) is not dict or self.p.types[t[2]]['k'] == 'bool' else None
                alts = []
                if c is not None:
                    left = [True, False]
                    for x, tb in t[3]:
                        alts += [(fs, tb) for fs in self.assume(st, c, bool(x))]
                        left.remove(bool(x))
                    for x in left:
                        alts += [(fs, t[4]) for fs in self.assume(st, c, x)]
                elif type(v) is dict:
                    rest = [[]]
                    for x, tb in t[3]:
                        alts += [(fs, tb) for fs in self.assume(st, ('cmp', 'Eq', v, C(x)), True)]
                        rest = [r + fs for r in rest for fs in self.assume(st, ('cmp', 'Eq', v, C(x)), False)]
                    if not (is_const(v) and cval(v) in [x for x, _ in t[3]]):
                        alts += [(fs, t[4]) for fs in rest]
                    if is_const(v):
                        tb = dict((x, y) for x, y in t[3]).get(cval(v), t[4])
                        alts = [([], tb)]
                else:
                    raise Unsupported('branch on %s' % (v,))
                out = []
                for fs, tb in alts:
                    s2 = st.copy() if len(alts) > 1 else st
                    s2.facts += fs
                    if self.goto(s2, tb):
                        out.append(s2)
                if len(out) == 1 and out[0] is st:
                    continue
                return out
            if k == 'assert':
                c = self.cond(self.op(st, t[1]))
                exp = bool(t[2])
                bad = self.assume(st, c, not exp) and self.assume(st, c, not exp, 3000)
                if bad:
                    low = c[0] == 'ovf' and self.prove(st, padd(c[1], C(c[2]), -1))
                    if c[0] == 'ovf' and low and self.mode == 'any':
                        self.overflows.add(self.p.where(fn, t[5]))
                    else:
                        self.problem(st, 'can fail: %s' % (t[3],), t[5])
                good = self.assume(st, c, exp)
                if not good:
                    return []
                out = []
                for fs in good:
                    s2 = st.copy() if len(good) > 1 else st
                    s2.facts += fs
                    if self.goto(s2, t[4]):
                        out.append(s2)
                if len(good) == 1:
                    if not out:
                        return []
                    continue
                return out
            if k == 'call':
                f = t[1]
                inst = f.get('inst') if type(f) is dict else None
                if t[4] is None:
                    self.refuse(st, f, t[5])
                    return []
                if type(inst) is not int or self.p.body(inst) is None:
                    if type(f) is dict and ('panicking' in f['def'] or 'fmt::' in f['def']):
                        self.put(st, *self.resolve(st, t[3]), ('opaque',))
                        if not self.goto(st, t[4]):
                            return []
                        continue
                    raise Unsupported('call of %s' % (f['def'] if type(f) is dict else f,))
                args = [self.op(st, a) for a in t[2]]
                b = self.p.body(inst)
                if len(st.stack) > 40:
                    raise Unsupported('recursion')
                if b.argc != len(args):
                    raise Unsupported('closure call')
                self.nfid += 1
                dest = self.resolve(st, t[3])
                st.stack.append([inst, 0, self.nfid, (fn, bb), dest, t[4]])
                for i, a in enumerate(args):
                    st.mem[(self.nfid, i + 1)] = a
                self.used.add(inst)
                if not self.goto(st, 0):
                    return []
                continue
            if k == 'ret':
                v = st.mem.get((fid, 0), UNINIT)
                if len(st.stack) == 1:
                    self.returned(st, v)
                    return []
                st.stack.pop()
                for key in [key for key in st.mem if key[0] == fid]:
                    del st.mem[key]
                self.put(st, fr[4][0], fr[4][1], v)
                if not self.goto(st, fr[5]):
                    return []
                continue
            if k == 'unreach':
                return []
            raise Unsupported('terminator %s' % k)

    # ---- obligations of modular inversion
    def returned(self, st, v):
        self.returns += 1
        y = self.unwrap(v)
        if type(y) is not dict:
            raise Unsupported('result %s' % (y,))
        if not self.congruent0(st, padd(pmul(y, S('x')), C(1), -1)):
            self.problem(st, 'result times operand is not shown congruent to 1 modulo n')
        if not (self.prove(st, padd(padd(S('n'), y, -1), C(1), -1)) and self.prove(st, y)):
            self.problem(st, 'result is not shown to be reduced')

    def refuse(self, st, f, span):
        self.refusals += 1
        for a, b in st.gcd:
            for a, b in ((a, b), (b, a)):
                if self.prove(st, {m: -c for m, c in b.items()}) and self.prove(st, padd(a, C(2), -1)):
                    return
        self.problem(st, 'may refuse an invertible operand: %s' % (f['def'] if type(f) is dict else 'call'))


def invert(prog, root, mode):
    """mode 'any': every modulus n >= 2 and operand x >= 1; 'small': n*n fits the type and x < n, where nothing may overflow"""
    dead, rounds = set(), 0
    while True:
        rounds += 1
        w = Walker(prog, root, dead, mode)
        x, n = S('x'), S('n')
        facts = [padd(x, C(1), -1), padd(n, C(2), -1)]
        if mode == 'small':
            b = prog.body(prog.roots[root])
            hi = w.range(w.intty(b.locals[1]))[1]
            facts += [padd(C(hi), pmul(n, n), -1), padd(padd(n, x, -1), C(1), -1)]
        w.run(['x', 'n'], facts, [(x, n)])
        if not w.failed:
            break
        dead = dead | w.failed
        if rounds > 60:
            raise Unsupported('no fixpoint')
    for key, ms in w.measures.items():
        if not ms:
            w.problems.append(('no variable or difference shown to decrease: the loop may not terminate', prog.where(key[-2])))
    return w, rounds
