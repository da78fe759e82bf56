"""Shapes directed by the code: integer constants that the functions reachable from a root compare with, switch on or count up to."""
CMP = {'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'}


def reach(prog, root):
    """instances reachable from a root through the call graph (repository functions and the closures/generics they call)"""
    if root not in prog.roots:
        return set()
    seen, todo = set(), [prog.roots[root]]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        b = prog.body(f)
        if b is None:
            continue
        for ss, t in b.blocks:
            if t[0] == 'call' and type(t[1]) is dict and type(t[1].get('inst')) is int:
                todo.append(t[1]['inst'])
    return seen


def _const(prog, o):
    if o[0] == 'k' and type(o[1]) is int and prog.W[o[2]] and prog.W[o[2]] >= 16:
        return o[1]
    return None


def constants(prog, root):
    """candidate lengths from the repository code below a root, unordered"""
    out = set()
    for f in reach(prog, root):
        if not prog.in_ws(f):
            continue
        cmps, scale, mods, block = set(), {1}, {0}, set()
        b = prog.body(f)
        if b is None:
            continue
        asg = {}
        for ss, t in b.blocks:
            for s in ss:
                if s[0] == '=' and not s[1][1] and s[2][0] == 'use':
                    c = _const(prog, s[2][1])
                    if c is not None:
                        asg[s[1][0]] = c

        def val(o):
            c = _const(prog, o)
            if c is None and o[0] == 'l':
                c = asg.get(o[1])
            return c
        for ss, t in b.blocks:
            for s in ss:
                if s[0] != '=':
                    continue
                r = s[2]
                if r[0] == 'cast':      # a narrowed count wraps at the width of its type
                    a, b2 = prog.W[r[3]], prog.W[r[4]]
                    if a and b2 and a >= 32 and b2 in (8, 16):
                        cmps.add(1 << b2)
                if r[0] in ('bin', 'chk'):
                    for x in (r[2], r[3]):
                        c = val(x)
                        if c is None:
                            continue
                        if r[1] in CMP:
                            cmps.add(c)
                        elif r[1] == 'Div':
                            scale.add(c)
                        elif r[1] in ('Shr', 'ShrUnchecked') and c < 20:
                            scale.add(1 << c)
                        elif r[1] == 'Rem':
                            mods.add(c)
                        elif r[1] in ('BitAnd',) and 3 < c < 1 << 20 and not (c & (c + 1)):
                            mods.add(c + 1)
            if t[0] == 'sw':
                for v, _ in t[3]:
                    if type(v) is int and t[2] is not None and (prog.W[t[2]] or 0) >= 16:
                        cmps.add(v)
            if t[0] == 'call':
                for a in t[2]:      # comparison helpers of core, assert_eq! operands
                    c = val(a)
                    if c is not None:
                        cmps.add(c)
                        if type(t[1]) is dict and ('chunk' in t[1]['def'] or 'step_by' in t[1]['def']):
                            block.add(c)
        for c in cmps:
            for s in scale:
                for m in mods:
                    out.add(c * s + m)
            for s in block:         # a compared number of blocks
                if c * s > 2048 and c not in block:
                    out.add(c * s)
    return out


def lengths(prog, root, hi, known=(), cap=80):
    """lengths c-1, c, c+1 around the constants below `root` that are not in `known`, at most hi"""
    r = sorted({n for c in constants(prog, root) for n in (c - 1, c, c + 1) if 0 <= n <= hi} - set(known))
    return r[:cap]
