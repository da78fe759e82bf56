from lib import *
from shapes import lengths
from ref import crypto as S

BASE_EXPL = ('Abstract interpretation of the compiled MIR (rustc nightly, driver in /verif/driver) in a value-numbering domain with joins at '
             'merge points: the value graph computed by the code is compared with the graph built from the specification; equal value '
             'numbers hold for every input of the analysed shape. `canonical` = identical value numbers, `interpreted` = equal by random '
             'interpretation of the two graphs (Gulwani-Necula), used when the normal forms differ. Panic conditions are value numbers too.')


def V(name, n, w=8):
    return [var('%s%d' % (name, i), w) for i in range(n)]


def L(r):
    return leaves(r.I, r.ret)


def pure_eq(t, key, root, specs, want, where=None, setup=None):
    """root returns on every input and its scalar leaves are `want`"""
    r = t.run(root, specs, key, setup=setup)
    if r is None:
        return None
    t.returns(key + '/total', r)
    if r.ret is None:
        t.ok(key, False, 'never returns', root)
        return r
    try:
        got = leaves(r.I, r.ret)
    except Unsupported as e:
        t.ok(key, False, str(e), root)
        return r
    t.equal(key, got, want, ok=r.ok, where=site(t.prog, root))
    return r


def site(prog, root):
    """the repository function a harness root enters"""
    try:
        i = prog.roots[root]
        b = prog.fns[i].get('body')
        for bb in b['blocks']:
            tm_ = bb.get('term') or bb.get('t')
            if isinstance(tm_, dict) and 'fn' in tm_ and prog.in_ws(tm_['fn']) and prog.fns[tm_['fn']]['crate'] != 'hsharness':
                return prog.where(tm_['fn'])
    except Exception:
        pass
    return root


def option_parts(r):
    """value of an enum: (list of (condition, variant, fields))"""
    out = []

    def go(v, c):
        if type(v) is Choice:
            go(v.a, band(1, c, v.c))
            go(v.b, band(1, c, bnot(1, v.c)))
        else:
            out.append((c, v[0], v[1]))
    go(r.ret, 1)
    return out
