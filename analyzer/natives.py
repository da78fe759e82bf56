"""Models of the library operations the analysed code reaches (core/alloc containers, iterators,
num-bigint, formatting, panics, RNG).  Generic library code without raw memory access is not modelled:
its own MIR is analysed like the repository's."""
import re
from terms import *
from mir import *
from interp import NONE, UNIT, some, Div, Fork

N = {}        # exact definition path -> model
TM = {}       # trait-method path -> model (library impls only)
PAT = []      # (regex on definition path, model)


def nat(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


def tmn(*names):
    def d(f):
        for n in names:
            TM[n] = f
        return f
    return d


def pat(*rx):
    def d(f):
        for r in rx:
            PAT.append((re.compile(r), f))
        return f
    return d


def find(I, inst):
    fn = I.p.fns[inst]
    d = fn['def']
    o = I.overrides.get(d)
    if o is not None:
        return o
    if I.p.in_ws(inst):
        return None
    f = N.get(d)
    if f is not None:
        return f
    for r, f in PAT:
        if r.search(d):
            return f
    tmm = fn.get('tm')
    if tmm is None and fn['kind'] == 'shim':
        tmm = d
    if tmm in TM:
        return TM[tmm]
    if fn['kind'] == 'intrinsic':
        f = INTR.get(fn.get('intrinsic'))
        if f is not None:
            return f
    if d in TM and fn['kind'] in ('shim', 'item') and 'body' not in fn:
        return TM[d]
    return None


def bool_of(x):
    return x


# ================================================================= panics / effects
def _msg(I, args):
    return ''


@nat('core::panicking::panic', 'core::panicking::panic_fmt', 'std::panicking::begin_panic', 'core::panicking::assert_failed',
     'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt', 'core::panicking::unimplemented_default_msg',
     'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
     'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::panic_display',
     'core::slice::index::slice_index_fail', 'core::result::unwrap_failed::unwrap_failed_inner',
     'core::str::slice_error_fail', 'core::panicking::panic_bounds_check', 'core::cell::panic_already_borrowed')
def n_panic(I, fn, args, t):
    k = fn['def'].split('::')[-1]
    if fn['def'].endswith('unimplemented_default_msg'):
        return Opaque('fmt')
    msg = ''
    for a in args:
        v = a
        try:
            if type(v) is Ref and v.rng is not None:
                b = I.slice_vals(v)
                if all(type(x) is int for x in b):
                    msg = bytes(b).decode('latin1')
        except Exception:
            pass
        if type(v) is Opaque and v.what == 'fmt' and v.parts and type(v.parts[0]) is str:
            msg = v.parts[0]
    I.panic(k, msg)


@pat(r'^core::panicking::panic_const', r'^core::num::imp::overflow_panic', r'slice_index_fail', r'len_mismatch_fail', r'handle_alloc_error',
     r'^core::slice::index::slice_', r'begin_panic', r'^core::panicking::panic')
def n_panic2(I, fn, args, t):
    I.panic(fn['def'].split('::')[-1], '')


@pat(r'^core::fmt::rt::', r"^core::fmt::Arguments", r'^alloc::fmt::', r'^core::fmt::')
def n_fmt(I, fn, args, t):
    if fn['def'].startswith('core::fmt::num::') and fn['def'].endswith('::fmt') and type(args[-1]) is Ref and type(I.load(args[-1].key, args[-1].path)) is FmtV:
        return fmt_leaf(I, fn, args, t)
    parts = []
    for a in args:
        if type(a) is Ref:
            try:
                v = (0, tuple(I.slice_vals(a))) if a.rng is not None else I.load(a.key, a.path)
            except Unsupported:
                v = Opaque('?')
            parts.append(v)
        else:
            parts.append(a)
    s = ''
    for p in parts:
        if type(p) is tuple and p[1] and all(type(x) is int and x < 256 for x in p[1]):
            s = ''.join(chr(x) for x in p[1] if 32 <= x < 127)
            break
    if 'Argument' in fn['def'] and '::Arguments' not in fn['def']:
        m = re.search(r'::new_(lower_hex|upper_hex|display)$', fn['def'])
        if m and type(args[0]) is Ref:
            tys = [a for a in fn['args'] if type(a) is int]
            return Opaque('arg', tuple(parts), (m.group(1), tys[-1], args[0]))
        return Opaque('arg', tuple(parts))
    f = None
    if fn['def'].endswith('::Arguments::<\'a>::new') and len(parts) == 2 and type(parts[0]) is tuple and type(parts[1]) is tuple:
        f = ('tpl', list(parts[0][1]), list(parts[1][1]))
    elif '::Arguments' in fn['def'] and 'from_str' in fn['def'] and len(parts) == 1 and type(parts[0]) is tuple:
        f = ('lit', list(parts[0][1]))
    return Opaque('fmt', (s,) + tuple(parts), f)


@nat('std::io::stdio::_print', 'std::io::stdio::_eprint')
def n_print(I, fn, args, t):
    I.effect('print', fn['def'], tuple(args))
    return UNIT


@nat('core::hint::must_use', 'core::hint::black_box')
def n_ident(I, fn, args, t):
    return args[0]


@nat('core::mem::size_of')
def n_sizeof(I, fn, args, t):
    return I.p.types[fn['args'][0]]['size']


@nat('core::mem::swap')
def n_swap(I, fn, args, t):
    a, b = args
    x, y = I.load(a.key, a.path), I.load(b.key, b.path)
    I.put(a.key, a.path, y)
    I.put(b.key, b.path, x)
    return UNIT


@nat('core::mem::replace')
def n_replace(I, fn, args, t):
    a = args[0]
    x = I.load(a.key, a.path)
    I.put(a.key, a.path, args[1])
    return x


@nat('core::mem::take')
def n_take(I, fn, args, t):
    a = args[0]
    x = I.load(a.key, a.path)
    I.put(a.key, a.path, default_of(I, fn['args'][0]))
    return x


@nat('core::mem::drop', 'core::mem::forget')
def n_drop(I, fn, args, t):
    return UNIT


@nat('core::ptr::read')
def n_ptr_read(I, fn, args, t):
    return I.load(args[0].key, args[0].path)


@nat('core::ptr::write')
def n_ptr_write(I, fn, args, t):
    I.put(args[0].key, args[0].path, args[1])
    return UNIT


def default_of(I, ty):
    t = I.p.types[ty]
    if I.p.W[ty] is not None:
        return 0
    if t['k'] == 'array':
        return (0, tuple(default_of(I, t['e']) for _ in range(t['len'])))
    if t['k'] == 'tuple':
        return (0, tuple(default_of(I, f) for f in t['fields']))
    if t['k'] == 'adt' and t['def'] in ('alloc::vec::Vec', 'alloc::string::String'):
        return (0, ())
    h = t.get('hooks', {}).get('default')
    if h is not None:
        return I.call(h, [])
    raise Unsupported('default of ' + t.get('str', '?'))


@tmn('core::default::Default::default')
def n_default(I, fn, args, t):
    return default_of(I, t[7])


def _deflt(I, fn, args, t):
    return default_of(I, t[7])


# ================================================================= clone / eq / ord
@tmn('core::clone::Clone::clone')
def n_clone(I, fn, args, t):
    a = args[0]
    if type(a) is Ref:
        v = I.load(a.key, a.path)
        ty = selfty(I, fn, t)
        return clone_val(I, v, ty)
    return a


def selfty(I, fn, t):
    """type behind the first (reference) argument at the call site"""
    if t is None:
        return None
    ty = t[6][0]
    x = I.p.types[ty]
    return x.get('t') if x['k'] in ('ref', 'ptr') else ty


def clone_val(I, v, ty):
    if ty is None:
        return v
    t = I.p.types[ty]
    if I.p.W[ty] is not None or t['k'] in ('ref', 'ptr', 'fndef', 'fnptr', 'closure'):
        return v
    if t['k'] == 'array' or (t['k'] == 'adt' and t['def'] == 'alloc::vec::Vec'):
        e = t['e'] if t['k'] == 'array' else t['args'][0]
        if plain(I, e) or type(v) is not tuple:
            return v
        return (0, tuple(clone_val(I, x, e) for x in v[1]))
    if t['k'] == 'adt' and 'clone' in t.get('hooks', {}):
        h = t['hooks']['clone']
        if plain(I, ty) or not I.p.in_ws(h):
            if t['def'].startswith(('core::option', 'core::result')) and not plain(I, ty) and type(v) is tuple and v[1]:
                return (v[0], (clone_val(I, v[1][0], I.p.fty(ty, v[0], 0)),))
            return v
        top = I.top
        k = I.temp(v, ty)
        r = I.call(h, [Ref(k)])
        I.top = top
        return r
    return v


def plain(I, ty, _m={}):
    """clone of this type is a bit copy: scalars, or workspace types whose Clone is derived over such"""
    m = I.__dict__.setdefault('plainc', {})
    if ty in m:
        return m[ty]
    m[ty] = True
    t = I.p.types[ty]
    r = True
    if I.p.W[ty] is not None or t['k'] in ('ref', 'ptr'):
        r = True
    elif t['k'] in ('array', 'slice'):
        r = plain(I, t['e'])
    elif t['k'] in ('tuple', 'closure'):
        r = all(plain(I, f) for f in t['fields'])
    elif t['k'] == 'adt':
        h = t.get('hooks', {}).get('clone')
        if h is not None and I.p.in_ws(h):
            r = clone_is_copy(I, h)
        elif t['def'] == 'alloc::vec::Vec':
            r = plain(I, t['args'][0])
        else:
            r = all(plain(I, f[1]) for v in t['variants'] for f in v[1])
    m[ty] = r
    return r


def clone_is_copy(I, h):
    """the Clone impl's body is a plain copy of *self"""
    b = I.p.body(h)
    if b is None or len(b.blocks) > 2:
        return False
    for ss, t in b.blocks:
        if t[0] not in ('ret', 'goto'):
            return False
        for s in ss:
            if s[0] == '=' and s[1][0] == 0 and not s[1][1]:
                if s[2] != ('use', ('p', (1, (('d', 0),)))):
                    return False
    return True


def vals_eq(I, a, b, ty):
    """structural/overloaded equality of two values of type ty"""
    p = I.p
    if ty is not None:
        w = p.W[ty]
        t = p.types[ty]
    else:
        w = None
        t = None
    if w is not None:
        a = I.scalarize(a, w)
        b = I.scalarize(b, w)
        return eq(w, a, b)
    if t is not None and t['k'] in ('ref',):
        if type(a) is Ref and type(b) is Ref:
            it = t['t']
            if p.types[it]['k'] in ('slice', 'str'):
                return seq_eq(I, I.slice_vals(a), I.slice_vals(b), p.types[it].get('e', p.u8))
            return vals_eq(I, I.load(a.key, a.path), I.load(b.key, b.path), it)
    if t is not None and (t['k'] == 'array' or t.get('def') in ('alloc::vec::Vec', 'alloc::string::String')):
        e = t['e'] if t['k'] == 'array' else (t['args'][0] if t['def'] == 'alloc::vec::Vec' else p.u8)
        return seq_eq(I, a[1], b[1], e)
    if t is not None and t['k'] == 'adt':
        h = t.get('hooks', {}).get('eq')
        if h is not None and p.in_ws(h):
            top = I.top
            k1, k2 = I.temp(a, ty), I.temp(b, ty)
            r = I.call(h, [Ref(k1), Ref(k2)])
            I.top = top
            return r
        if type(a) is Choice:
            return ite(a.c, 1, vals_eq(I, a.a, b, ty), vals_eq(I, a.b, b, ty))
        if type(b) is Choice:
            return ite(b.c, 1, vals_eq(I, a, b.a, ty), vals_eq(I, a, b.b, ty))
        if type(a) is tuple and type(b) is tuple:
            if a[0] != b[0]:
                return 0
            r = 1
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                r = band(1, r, vals_eq(I, x, y, p.fty(ty, a[0], i)))
            return r
    if t is not None and t['k'] == 'tuple':
        r = 1
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = band(1, r, vals_eq(I, x, y, t['fields'][i]))
        return r
    if type(a) in (int, T) and type(b) in (int, T):
        w = a.w if type(a) is T else (b.w if type(b) is T else 64)
        return eq(w, a, b)
    if type(a) is tuple and type(b) is tuple:
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            return 0
        r = 1
        for x, y in zip(a[1], b[1]):
            r = band(1, r, vals_eq(I, x, y, None))
        return r
    raise Unsupported('equality of %r and %r' % (a, b))


def seq_eq(I, a, b, e):
    if len(a) != len(b):
        return 0
    r = 1
    for x, y in zip(a, b):
        c = vals_eq(I, x, y, e)
        r = band(1, r, c)
        if type(r) is int and r == 0:
            break
    if I.taint and type(r) is T:
        I.event('branch', r)
    return r


def _elem(I, ty):
    t = I.p.types[ty]
    while t['k'] in ('ref', 'ptr'):
        ty = t['t']
        t = I.p.types[ty]
    if t['k'] in ('array', 'slice'):
        return t['e']
    if t['k'] == 'str' or t.get('def') == 'alloc::string::String':
        return I.p.u8
    if t.get('def') == 'alloc::vec::Vec':
        return t['args'][0]
    return None


@pat(r'^core::slice::cmp::<impl core::cmp::PartialEq', r'^alloc::vec::partial_eq::', r'^core::array::equality::',
     r'^core::str::traits::<impl core::cmp::PartialEq', r'^<alloc::string::String as core::cmp::PartialEq', r'^alloc::string::<impl core::cmp::PartialEq')
def n_seq_eq(I, fn, args, t):
    e = _elem(I, t[6][0])
    a, b = deep(I, args[0]), deep(I, args[1])
    r = seq_eq(I, I.slice_vals(a), I.slice_vals(b), e)
    if fn['def'].endswith('::ne'):
        return bxor(1, r, 1)
    return r


def deep(I, r):
    """strip references to references"""
    while type(r) is Ref and r.rng is None:
        v = I.load(r.key, r.path)
        if type(v) is Ref:
            r = v
        else:
            break
    return r


@pat(r'^core::cmp::impls::<impl core::cmp::PartialEq<&')
def n_ref_eq(I, fn, args, t):
    # &A == &B compares the referents with their own equality
    ta = I.p.types[t[6][0]]
    inner = I.p.types[ta['t']]
    it = inner['t']
    a, b = I.load(args[0].key, args[0].path), I.load(args[1].key, args[1].path)
    if I.p.types[it]['k'] in ('slice', 'str'):
        r = seq_eq(I, I.slice_vals(a), I.slice_vals(b), I.p.types[it].get('e', I.p.u8))
    else:
        r = vals_eq(I, I.deref1(a) if False else I.load(a.key, a.path), I.load(b.key, b.path), it)
    return bxor(1, r, 1) if fn['def'].endswith('::ne') else r


@tmn('core::cmp::PartialEq::ne')
def n_ne(I, fn, args, t):
    ty = selfty(I, fn, t)
    r = vals_eq(I, I.load(args[0].key, args[0].path), I.load(args[1].key, args[1].path), ty)
    return bxor(1, r, 1)


@nat('core::cmp::PartialEq::ne')
def n_ne_default(I, fn, args, t):
    return n_ne(I, fn, args, t)


def scal_lt(I, a, b, ty):
    w = I.p.W[ty]
    if w == 0:
        return zlt(a, b)
    return slt(w, a, b) if I.p.S[ty] else ult(w, a, b)


def val_cmp(I, a, b, ty):
    """(less, equal) of two values"""
    p = I.p
    if p.W[ty] is not None:
        return scal_lt(I, a, b, ty), (zeq(a, b) if p.W[ty] == 0 else eq(p.W[ty], a, b))
    t = p.types[ty]
    if t['k'] in ('ref',):
        it = p.types[t['t']]
        if it['k'] in ('slice', 'str'):
            return seq_cmp(I, I.slice_vals(a), I.slice_vals(b), it.get('e', p.u8))
        return val_cmp(I, I.load(a.key, a.path), I.load(b.key, b.path), t['t'])
    if t['k'] == 'array' or t.get('def') == 'alloc::vec::Vec':
        return seq_cmp(I, a[1], b[1], t['e'] if t['k'] == 'array' else t['args'][0])
    h = t.get('hooks', {}).get('cmp')
    if h is not None:
        top = I.top
        k1, k2 = I.temp(a, ty), I.temp(b, ty)
        r = I.call(h, [Ref(k1), Ref(k2)])
        I.top = top
        return ord_is(r, 0), ord_is(r, 1)
    raise Unsupported('ordering of ' + t.get('str', ''))


def ord_is(v, k):
    if type(v) is Choice:
        return ite(v.c, 1, ord_is(v.a, k), ord_is(v.b, k))
    return int(v[0] == k)


def seq_cmp(I, a, b, e):
    n = min(len(a), len(b))
    lt, e_ = int(len(a) < len(b)), int(len(a) == len(b))
    for i in range(n - 1, -1, -1):
        l, q = val_cmp(I, a[i], b[i], e)
        if I.taint:
            I.event('branch', q)
        lt = bor(1, l, band(1, q, lt))
        e_ = band(1, q, e_)
    return lt, e_


@pat(r'^core::array::<impl core::cmp::(Partial)?Ord', r'^core::slice::cmp::<impl core::cmp::(Partial)?Ord', r'^<alloc::vec::Vec<T, A\w*> as core::cmp::(Partial)?Ord')
def n_seq_ord(I, fn, args, t):
    e = _elem(I, t[6][0])
    lt, q = seq_cmp(I, I.slice_vals(deep(I, args[0])), I.slice_vals(deep(I, args[1])), e)
    m = fn['def'].split('::')[-1]
    if m == 'cmp':
        return I.ordering(lt, q)
    if m == 'partial_cmp':
        return some(I.ordering(lt, q))
    return {'lt': lt, 'le': bor(1, lt, q), 'gt': bxor(1, bor(1, lt, q), 1), 'ge': bxor(1, lt, 1)}[m]


@nat('core::cmp::max', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def n_minmax(I, fn, args, t):
    ty = t[6][0]
    a, b = args
    lt, q = val_cmp(I, b, a, ty)
    if fn['def'].endswith('max'):
        return I.merge(lt, a, b, ty) if type(lt) is T else (a if lt else b)
    return I.merge(lt, b, a, ty) if type(lt) is T else (b if lt else a)


# ================================================================= vectors
VEC = 'alloc::vec::Vec::<T, A>::'
VEC1 = 'alloc::vec::Vec::<T>::'


def vget(I, r):
    v = I.load(r.key, r.path)
    if type(v) is Ref:
        return vget(I, v)
    return v


def vput(I, r, items):
    v = I.load(r.key, r.path)
    if type(v) is Ref:
        return vput(I, v, items)
    I.put(r.key, r.path, (0, tuple(items)))


@nat(VEC1 + 'new', 'alloc::string::String::new')
def v_new(I, fn, args, t):
    return (0, ())


@nat(VEC1 + 'with_capacity', VEC + 'with_capacity_in', VEC + 'new_in', 'alloc::string::String::with_capacity')
def v_cap(I, fn, args, t):
    if args and type(args[0]) is T and I.taint:
        I.event('alloc', args[0])
    return (0, ())


@nat(VEC + 'len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def v_len(I, fn, args, t):
    return I.slice_len(args[0])


@nat(VEC + 'is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def v_empty(I, fn, args, t):
    return eq(64, I.slice_len(args[0]), 0)


@nat(VEC + 'push')
def v_push(I, fn, args, t):
    r = args[0]
    v = vget(I, r)
    if type(v) is not tuple:
        raise Unsupported('push to %r' % (v,))
    vput(I, r, v[1] + (args[1],))
    return UNIT


@nat(VEC + 'pop')
def v_pop(I, fn, args, t):
    v = vget(I, args[0])
    if not v[1]:
        return NONE
    vput(I, args[0], v[1][:-1])
    return some(v[1][-1])


@nat(VEC + 'insert')
def v_insert(I, fn, args, t):
    v = vget(I, args[0])
    i = args[1]
    if type(i) is not int:
        raise Unsupported('insert at symbolic index')
    if i > len(v[1]):
        I.panic('insert')
    vput(I, args[0], v[1][:i] + (args[2],) + v[1][i:])
    return UNIT


@nat(VEC + 'remove', VEC + 'swap_remove')
def v_remove(I, fn, args, t):
    v = vget(I, args[0])
    i = args[1]
    if type(i) is not int:
        raise Unsupported('remove at symbolic index')
    if i >= len(v[1]):
        I.panic('remove')
    x = v[1][i]
    if fn['def'].endswith('swap_remove'):
        l = list(v[1])
        l[i] = l[-1]
        vput(I, args[0], l[:-1])
    else:
        vput(I, args[0], v[1][:i] + v[1][i + 1:])
    return x


@nat(VEC + 'truncate')
def v_trunc(I, fn, args, t):
    v = vget(I, args[0])
    if type(args[1]) is not int:
        raise Unsupported('truncate to symbolic length')
    vput(I, args[0], v[1][:args[1]])
    return UNIT


@nat(VEC + 'clear')
def v_clear(I, fn, args, t):
    vput(I, args[0], ())
    return UNIT


@nat(VEC + 'resize')
def v_resize(I, fn, args, t):
    v = vget(I, args[0])
    n = args[1]
    if type(n) is not int:
        raise Unsupported('resize to symbolic length')
    vput(I, args[0], v[1][:n] + (args[2],) * max(0, n - len(v[1])))
    return UNIT


@nat(VEC + 'reserve', VEC + 'reserve_exact', VEC + 'shrink_to_fit')
def v_nop(I, fn, args, t):
    return UNIT


@nat(VEC + 'capacity')
def v_capq(I, fn, args, t):
    return I.slice_len(args[0])


@nat(VEC + 'extend_from_slice')
def v_efs(I, fn, args, t):
    v = vget(I, args[0])
    src = I.slice_vals(args[1])
    e = _elem(I, t[6][0])
    vput(I, args[0], v[1] + tuple(clone_val(I, x, e) for x in src))
    return UNIT


@nat(VEC + 'append')
def v_append(I, fn, args, t):
    v = vget(I, args[0])
    w = vget(I, args[1])
    vput(I, args[0], v[1] + w[1])
    vput(I, args[1], ())
    return UNIT


@nat(VEC + 'split_off')
def v_split_off(I, fn, args, t):
    v = vget(I, args[0])
    n = args[1]
    if type(n) is not int:
        raise Unsupported('split_off')
    if n > len(v[1]):
        I.panic('split_off')
    vput(I, args[0], v[1][:n])
    return (0, v[1][n:])


@nat(VEC + 'drain')
def v_drain(I, fn, args, t):
    v = vget(I, args[0])
    lo, hi = rng_bounds(I, args[1], t[6][1], len(v[1]))
    if type(lo) is not int or type(hi) is not int:
        raise Unsupported('drain')
    if lo > hi or hi > len(v[1]):
        I.panic('drain')
    vput(I, args[0], v[1][:lo] + v[1][hi:])
    return It('vals', v[1][lo:hi], 0, hi - lo)


@nat(VEC + 'as_slice', VEC + 'as_mut_slice', '<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref',
     '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut', 'core::array::<impl [T; N]>::as_slice',
     'core::array::<impl [T; N]>::as_mut_slice', '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
     '<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut', '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow',
     'alloc::slice::<impl core::borrow::Borrow<[T]> for alloc::vec::Vec<T, A>>::borrow',
     'core::array::<impl core::borrow::Borrow<[T]> for [T; N]>::borrow',
     'core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref', 'core::array::<impl core::convert::AsMut<[T]> for [T; N]>::as_mut',
     '<[T] as core::convert::AsRef<[T]>>::as_ref', '<[T] as core::convert::AsMut<[T]>>::as_mut',
     'alloc::string::String::as_str', 'alloc::string::String::as_bytes', '<alloc::string::String as core::ops::deref::Deref>::deref',
     'core::str::<impl str>::as_bytes', 'core::slice::raw::from_ref')
def v_slice(I, fn, args, t):
    if fn['def'].endswith('from_ref'):
        r = args[0]
        return I.raw_slice(r, 1)
    r = args[0]
    v = I.load(r.key, r.path) if r.rng is None else None
    if type(v) is SymV:
        return Ref(r.key, r.path, (0, blen(v.z)))
    return I.as_slice(args[0])


@nat('alloc::vec::from_elem')
def v_from_elem(I, fn, args, t):
    n = args[1]
    if type(n) is not int:
        if I.taint:
            I.event('alloc', n)
        raise Unsupported('vec of symbolic length')
    if n > 1 << 22:
        raise Unsupported('huge vec')
    return (0, (args[0],) * n)


@nat('alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned', 'alloc::slice::<impl [T]>::to_vec_in',
     'core::str::<impl str>::to_owned', 'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned')
def v_to_vec(I, fn, args, t):
    r = args[0]
    v = I.load(r.key, r.path)
    if type(v) is SymV:
        return v
    e = _elem(I, t[6][0])
    vals = I.slice_vals(r)
    if plain(I, e):
        return (0, tuple(vals))
    return (0, tuple(clone_val(I, x, e) for x in vals))


@nat('alloc::slice::<impl [T]>::into_vec', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def v_into_vec(I, fn, args, t):
    b = args[0]
    if type(b) is tuple:
        v = b[1][0] if b[1] else b
        while type(v) is tuple and len(v[1]) == 1 and type(v[1][0]) is tuple and isbox_wrap(I, t, v):
            v = v[1][0]
        return v
    raise Unsupported('into_vec of %r' % (b,))


def isbox_wrap(I, t, v):
    return False


@nat('alloc::boxed::box_new', 'alloc::boxed::Box::<T>::new')
def b_new(I, fn, args, t):
    return (0, (args[0],))


@nat('alloc::boxed::Box::<T>::new_uninit')
def b_newu(I, fn, args, t):
    return (0, (None,))


@pat(r'^<alloc::boxed::Box<T, A> as core::ops::deref::Deref(Mut)?>::deref')
def b_deref(I, fn, args, t):
    return Ref(args[0].key, args[0].path + (0,))


@pat(r'^<alloc::vec::Vec<T> as core::convert::From<(\[T; N\]|&\[T\]|&mut \[T\]|&\[T; N\]|&str|alloc::boxed::Box<\[T\]>)>>::from',
     r'^<alloc::vec::Vec<T(, A)?> as core::convert::From<.*>>::from', r'^<alloc::string::String as core::convert::From<.*>>::from')
def v_from(I, fn, args, t):
    a = args[0]
    if type(a) is Ref:
        return (0, tuple(I.slice_vals(a)))
    return (0, a[1])


@pat(r'^<alloc::vec::Vec<T(, A)?> as core::clone::Clone>::clone', r'^<alloc::string::String as core::clone::Clone>::clone',
     r'^<alloc::boxed::Box<T, A> as core::clone::Clone>::clone', r'^core::array::<impl core::clone::Clone for \[T; N\]>::clone')
def v_clone(I, fn, args, t):
    v = vget(I, args[0])
    if type(v) is SymV:
        return v
    return clone_val(I, v, selfty(I, fn, t))


@pat(r'^core::array::<impl core::default::Default for \[T; ')
def a_default(I, fn, args, t):
    return default_of(I, t[7])


@nat('core::array::<impl [T; N]>::map')
def a_map(I, fn, args, t):
    return (0, tuple(I.callv(args[1], t[6][1], [x]) for x in args[0][1]))


@nat('core::array::from_fn')
def a_from_fn(I, fn, args, t):
    n = I.p.types[t[7]]['len']
    top = I.top
    k = I.temp(args[0], t[6][0])
    out = tuple(call_ref(I, k, t[6][0], [i]) for i in range(n))
    I.top = top
    return (0, out)


def call_ref(I, key, fty, args):
    """call a closure living in a cell (FnMut state is kept)"""
    t = I.p.types[fty]
    if t['k'] == 'closure':
        return I.call(t['inst'], ([Ref(key)] if t['ckind'] != 'FnOnce' else [I.S[key]]) + args)
    return I.callv(I.S[key], fty, args)


# ----------------------------------------------------------------- indexing
def rng_bounds(I, r, rty, n):
    """(lo, hi) of a range argument for a sequence of length n"""
    d = I.p.types[rty].get('def', '')
    if d == 'core::ops::range::Range':
        return r[1][0], r[1][1]
    if d == 'core::ops::range::RangeFrom':
        return r[1][0], n
    if d == 'core::ops::range::RangeTo':
        return 0, r[1][0]
    if d == 'core::ops::range::RangeFull':
        return 0, n
    if d == 'core::ops::range::RangeInclusive':
        return r[1][0], add(64, r[1][1], 1)
    if d == 'core::ops::range::RangeToInclusive':
        return 0, add(64, r[1][0], 1)
    raise Unsupported('range type ' + d)


def subslice(I, r, lo, hi, n, what='slice'):
    I.require(bxor(1, ult(64, hi, lo), 1), 'bounds', what)
    I.require(bxor(1, ult(64, n, hi), 1), 'bounds', what)
    s = I.as_slice(r)
    l0 = s.rng[0]
    return Ref(s.key, s.path, (add(64, l0, lo), sub(64, hi, lo)))


@pat(r'^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index', r'^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index',
     r'^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index', r'^core::str::traits::<impl core::ops::index::Index(Mut)?<I> for str>::index',
     r'^<alloc::string::String as core::ops::index::Index(Mut)?<I>>::index')
def v_index(I, fn, args, t):
    r = args[0]
    v = I.load(r.key, r.path) if r.rng is None else None
    if type(v) is Ref:
        r = v
        v = None
    n = I.slice_len(r)
    it = t[6][1]
    if I.p.W[it] == 64:
        i = args[1]
        I.require(ult(64, i, n), 'bounds', 'index')
        if type(v) is SymV:
            if type(i) is int and i < 4096 and not v.be:
                return Ref(I.alloc_cell(extract(bvz(v.z, 8 * i + 8), 8 * i + 8, 8 * i, 8)))
            raise Unsupported('index %r into a vector of unknown length (be=%r)' % (i, v.be))
        return Ref(r.key, r.path + (idx_add(r.rng, i),))
    lo, hi = rng_bounds(I, args[1], it, n)
    r = subslice(I, r, lo, hi, n)
    if ' for str>' in fn['def'] or 'string::String' in fn['def']:
        for p in (lo, hi):
            char_boundary(I, args[0], p, n)
    return r


def char_boundary(I, r, p, n):
    if type(p) is int and type(n) is int and 0 < p < n:
        b = I.slice_vals(r)[p]
        hi = extract(b, 8, 6, 2) if type(b) is not int else b >> 6
        I.require(bnot(1, eq(2, hi, 2)), 'bounds', 'not a character boundary')
    elif not (type(p) is int and (p == 0 or type(n) is int and p == n) or p is n):
        raise Unsupported('cut a string at a symbolic position')


def idx_add(rng, i):
    if rng is None:
        return i
    return add(64, i, rng[0])


@nat('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def s_get(I, fn, args, t):
    r = args[0]
    n = I.slice_len(r)
    it = t[6][1]
    if I.p.W[it] == 64:
        i = args[1]
        c = ult(64, i, n)
        v = some(Ref(r.key, r.path + (idx_add(r.rng, i),)))
        return v if c == 1 else (NONE if type(c) is int else Choice(c, v, NONE))
    lo, hi = rng_bounds(I, args[1], it, n)
    if type(lo) is int and type(hi) is int and type(n) is int:
        return some(subslice(I, r, lo, hi, n)) if lo <= hi <= n else NONE
    raise Unsupported('get range')


@nat('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def s_getu(I, fn, args, t):
    r = args[0]
    it = t[6][1]
    if I.p.W[it] == 64:
        I.require(ult(64, args[1], I.slice_len(r)), 'unchecked', 'get_unchecked')
        return Ref(r.key, r.path + (idx_add(r.rng, args[1]),))
    raise Unsupported('get_unchecked range')


@nat('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def s_first(I, fn, args, t):
    r = I.as_slice(args[0])
    n = r.rng[1]
    if n == 0:
        return NONE
    return some(Ref(r.key, r.path + (idx_add(r.rng, 0 if 'first' in fn['def'] else n - 1),)))


@nat('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def s_copy(I, fn, args, t):
    d, s = args
    dn, sn = I.slice_len(d), I.slice_len(s)
    I.require(eq(64, dn, sn), 'len_mismatch', 'copy_from_slice')
    if type(dn) is int and type(sn) is int:
        I.slice_set(I.as_slice(d), I.slice_vals(s))
        return UNIT
    # destination range of symbolic position: only whole minimal representations
    src = I.load(s.key, s.path)
    d = I.as_slice(d)
    dv = I.load(d.key, d.path)
    lo, n = d.rng
    if type(src) is SymV and type(dv) is tuple:
        N_ = len(dv[1])
        W = 8 * N_
        if all(type(x) is int and x == 0 for x in dv[1]):
            z = src.z
            hi = zmax(z)
            if hi is None or hi >= 1 << W:
                z = mk('bounded', 0, z, 0, (1 << W) - 1)
            b = bvz(z, W)
            if src.be and eq(64, add(64, lo, blen(src.z)), N_) == 1:
                out = [extract(b, W, 8 * (N_ - 1 - i), 8) for i in range(N_)]
                I.put(d.key, d.path, (0, tuple(out)))
                return UNIT
            if not src.be and lo == 0:
                out = [extract(b, W, 8 * i, 8) for i in range(N_)]
                I.put(d.key, d.path, (0, tuple(out)))
                return UNIT
    raise Unsupported('copy_from_slice of symbolic extent')


@nat('core::slice::<impl [T]>::fill')
def s_fill(I, fn, args, t):
    r = I.as_slice(args[0])
    I.slice_set(r, (args[1],) * r.rng[1])
    return UNIT


@nat('core::slice::<impl [T]>::reverse')
def s_rev(I, fn, args, t):
    r = I.as_slice(args[0])
    v = I.load(r.key, r.path)
    if type(v) is SymV and r.rng[0] == 0:
        I.put(r.key, r.path, SymV(v.z, not v.be))
        return UNIT
    I.slice_set(r, tuple(reversed(I.slice_vals(r))))
    return UNIT


@nat('core::slice::<impl [T]>::swap')
def s_swap(I, fn, args, t):
    r = I.as_slice(args[0])
    n = r.rng[1]
    a, b = args[1], args[2]
    I.require(ult(64, a, n), 'bounds', 'swap')
    I.require(ult(64, b, n), 'bounds', 'swap')
    ra, rb = r.path + (idx_add(r.rng, a),), r.path + (idx_add(r.rng, b),)
    e = _elem(I, t[6][0])
    x, y = I.load(r.key, ra, e), I.load(r.key, rb, e)
    I.put(r.key, ra, y, e)
    I.put(r.key, rb, x, e)
    return UNIT


@nat('core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def s_rot(I, fn, args, t):
    r = I.as_slice(args[0])
    v = I.slice_vals(r)
    k = args[1]
    if type(k) is not int:
        raise Unsupported('rotate')
    if k > len(v):
        I.panic('rotate')
    if fn['def'].endswith('right'):
        k = len(v) - k
    I.slice_set(r, v[k:] + v[:k])
    return UNIT


@nat('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def s_split_at(I, fn, args, t):
    n = I.slice_len(args[0])
    m = args[1]
    I.require(bxor(1, ult(64, n, m), 1), 'bounds', 'split_at')
    return (0, (subslice(I, args[0], 0, m, n), subslice(I, args[0], m, n, n)))


@nat('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def s_split_first(I, fn, args, t):
    r = I.as_slice(args[0])
    n = r.rng[1]
    if n == 0:
        return NONE
    if fn['def'].endswith('first'):
        return some((0, (Ref(r.key, r.path + (idx_add(r.rng, 0),)), subslice(I, r, 1, n, n))))
    return some((0, (Ref(r.key, r.path + (idx_add(r.rng, n - 1),)), subslice(I, r, 0, n - 1, n))))


@pat(r'^core::slice::<impl \[T\]>::contains')
def s_contains(I, fn, args, t):
    e = _elem(I, t[6][0])
    x = I.load(args[1].key, args[1].path)
    r = 0
    for y in I.slice_vals(args[0]):
        r = bor(1, r, vals_eq(I, y, x, e))
    return r


@pat(r'^core::slice::<impl \[T\]>::starts_with', r'^core::slice::<impl \[T\]>::ends_with')
def s_starts(I, fn, args, t):
    e = _elem(I, t[6][0])
    a, b = I.slice_vals(args[0]), I.slice_vals(args[1])
    if len(b) > len(a):
        return 0
    return seq_eq(I, a[:len(b)] if 'starts' in fn['def'] else a[len(a) - len(b):], b, e)


@pat(r'^alloc::slice::<impl \[T\]>::concat', r'^alloc::slice::<impl \[V\]>::concat', r'^alloc::slice::<impl \[T\]>::concat<')
def s_concat(I, fn, args, t):
    out = ()
    for x in I.slice_vals(args[0]):
        if type(x) is Opaque:
            return Opaque('string', tuple(I.slice_vals(args[0])))
        out += tuple(I.slice_vals(x)) if type(x) is Ref else x[1]
    return (0, out)


@pat(r'^alloc::slice::<impl \[T\]>::join', r'^alloc::slice::<impl \[T\]>::repeat')
def s_join(I, fn, args, t):
    if fn['def'].endswith('repeat'):
        return (0, tuple(I.slice_vals(args[0])) * args[1])
    return str_join(I, fn, args, t)


@pat(r'^core::slice::raw::from_raw_parts')
def s_raw(I, fn, args, t):
    return I.raw_slice(args[0], args[1])


def split_bytes(I, v):
    """case analysis on the length of a minimal representation: the case of I.split_len bytes"""
    n = I.split_len
    if n is None:
        raise Unsupported('iterate a vector of unknown length')
    I.split_seen += 1
    b = bvz(v.z, 8 * n)
    bs = [extract(b, 8 * n, 8 * i, 8) for i in range(n)]
    return (0, tuple(reversed(bs) if v.be else bs))


def cond_bytes(I, v, refs):
    """iterator over a minimal representation: element i exists under the condition i < length (conditions are monotone)"""
    if v.be:
        raise Unsupported('iterate a big-endian vector of unknown length')
    hi = zmax(v.z)
    if hi is None or hi >> 8192:
        raise Unsupported('iterate a vector of unknown length')
    n = blen(hi)
    b, ln = bvz(v.z, 8 * n), blen(v.z)
    bs = [extract(b, 8 * n, 8 * i, 8) for i in range(n)]
    return It('cond', tuple((ult(64, i, ln), Ref(I.alloc_cell(x)) if refs else x) for i, x in enumerate(bs)), 0, n)


# ================================================================= iterators
def it_slice(I, r):
    r = I.as_slice(r)
    lo, n = r.rng
    v = I.load(r.key, r.path)
    if type(v) is SymV:
        if I.split_len is None:
            return cond_bytes(I, v, True)
        v = split_bytes(I, v)
        I.put(r.key, r.path, v)
        lo, n = 0, len(v[1])
    if type(lo) is not int or type(n) is not int:
        raise Unsupported('iterate a slice of symbolic extent')
    return It('refs', (r.key, r.path), lo, lo + n)


@nat('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def i_iter(I, fn, args, t):
    return it_slice(I, args[0])


@pat(r"^<&'a (mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", r"^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a",
     r"^core::array::<impl core::iter::traits::collect::IntoIterator for &'a", r"^<&'a (mut )?\[T\] as core::iter")
def i_into_ref(I, fn, args, t):
    return it_slice(I, args[0])


@pat(r'^<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', r'^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \[T; N\]>::into_iter')
def i_into_val(I, fn, args, t):
    v = args[0]
    if type(v) is SymV:
        if I.split_len is None:
            return cond_bytes(I, v, False)
        v = split_bytes(I, v)
    return It('vals', v[1], 0, len(v[1]))


@nat('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::chunks_mut',
     'core::slice::<impl [T]>::chunks_exact_mut', 'core::slice::<impl [T]>::windows', 'core::slice::<impl [T]>::rchunks')
def i_chunks(I, fn, args, t):
    n = args[1]
    if type(n) is not int:
        raise Unsupported('chunk size')
    if n == 0:
        I.panic('chunk size 0')
    r = I.as_slice(args[0])
    lo, ln = r.rng
    if type(lo) is not int or type(ln) is not int:
        raise Unsupported('chunks of symbolic extent')
    k = fn['def'].split('::')[-1]
    rs = []
    if k.startswith('chunks_exact'):
        rs = [(lo + i, n) for i in range(0, ln - n + 1, n)]
        rem = ln % n
        x = Ref(r.key, r.path, (lo + ln - rem, rem))
        return It('vals', tuple(Ref(r.key, r.path, q) for q in rs), 0, len(rs), x)
    elif k == 'windows':
        rs = [(lo + i, n) for i in range(0, ln - n + 1)]
    elif k == 'rchunks':
        e = ln
        while e > 0:
            b = max(0, e - n)
            rs.append((lo + b, e - b))
            e = b
    else:
        rs = [(lo + i, min(n, ln - i)) for i in range(0, ln, n)]
    return It('vals', tuple(Ref(r.key, r.path, q) for q in rs), 0, len(rs))


@pat(r'ChunksExact(Mut)?<.*>::(into_)?remainder')
def i_rem(I, fn, args, t):
    a = args[0]
    it = I.load(a.key, a.path) if type(a) is Ref else a
    return it.x


@pat(r"^core::str::<impl str>::(bytes|chars)$")
def i_bytes(I, fn, args, t):
    v = I.slice_vals(args[0])
    return It('vals', tuple(v), 0, len(v))


@nat('core::iter::sources::repeat::repeat')
def i_repeat(I, fn, args, t):
    return It('rep', args[0], 0, None)


@nat('core::iter::sources::once::once')
def i_once(I, fn, args, t):
    return It('vals', (args[0],), 0, 1)


@nat('core::iter::sources::empty::empty')
def i_empty(I, fn, args, t):
    return It('vals', (), 0, 0)


@nat('core::iter::sources::repeat_n::repeat_n')
def i_repn(I, fn, args, t):
    return It('vals', (args[0],) * args[1], 0, args[1])


def leaf_next(I, it):
    """(value or None, new state)"""
    if it.k == 'rep':
        return it.a, it
    if it.k == 'cond':
        raise Unsupported('iterator of symbolic length')
    if it.i >= it.j:
        return None, it
    n = It(it.k, it.a, it.i + 1, it.j, it.x)
    if it.k == 'refs':
        return Ref(it.a[0], it.a[1] + (it.i,)), n
    return it.a[it.i], n


def leaf_opt(I, it):
    """(Option value, new state)"""
    if it.k == 'cond':
        if it.i >= it.j:
            return NONE, it
        c, v = it.a[it.i]
        o = some(v) if c == 1 else NONE if type(c) is int else Choice(c, some(v), NONE)
        if I.taint and type(c) is not int:
            I.event('branch', c)
        return o, It('cond', it.a, it.i + 1, it.j)
    v, n = leaf_next(I, it)
    return (NONE if v is None else some(v)), n


def leaf_back(I, it):
    if it.k == 'cond':
        raise Unsupported('reverse iterator of symbolic length')
    if it.i >= it.j:
        return None, it
    n = It(it.k, it.a, it.i, it.j - 1, it.x)
    if it.k == 'refs':
        return Ref(it.a[0], it.a[1] + (it.j - 1,)), n
    return it.a[it.j - 1], n


@tmn('core::iter::traits::iterator::Iterator::next')
def i_next_leaf(I, fn, args, t):
    r = args[0]
    it = I.load(r.key, r.path)
    if type(it) is It:
        o, n = leaf_opt(I, it)
        I.put(r.key, r.path, n)
        return o
    return generic(I, fn, args, t)


@tmn('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def i_back_leaf(I, fn, args, t):
    r = args[0]
    it = I.load(r.key, r.path)
    if type(it) is It:
        v, n = leaf_back(I, it)
        if v is None:
            return NONE
        I.put(r.key, r.path, n)
        return some(v)
    return generic(I, fn, args, t)


def generic(I, fn, args, t):
    """no model applies to this receiver: analyse the library's own body"""
    inst = fn['_i'] if '_i' in fn else None
    if inst is None:
        inst = next(i for i in I.p.byname[fn['def']] if I.p.fns[i] is fn)
        fn['_i'] = inst
    body = I.p.body(inst)
    if body is None:
        raise Unsupported('no body: ' + fn['name'])
    return I.run(inst, body, args)


@nat('<core::iter::adapters::filter::Filter<I, P> as core::iter::traits::iterator::Iterator>::next')
def i_filter_next(I, fn, args, t):
    r = args[0]
    ity, pty = fn['args'][:2]
    nx = I.p.types[ity]['hooks']['next']
    top = I.top
    while True:
        o = I.call(nx, [Ref(r.key, r.path + (0,))])
        if type(o) is Choice:
            raise Unsupported('filter over a sequence of unknown length')
        if o[0] == 0:
            return NONE
        c = I.temp(o[1][0])
        p = I.decide(I.callv(I.load(r.key, r.path + (1,)), pty, [Ref(c)]))
        I.top = top
        if type(p) is not int:
            return Fork(p, o)
        if p:
            return o


@nat('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next')
def i_range_next(I, fn, args, t):
    r = args[0]
    v = I.load(r.key, r.path)
    a, b = v[1]
    if type(a) is int and type(b) is int:
        if a >= b:       # unsigned/small ranges; signed handled below
            ty = I.p.types[I.p.types[t[6][0]]['t']]['args'][0] if t else None
            if ty is None or not I.p.S[ty]:
                return NONE
            w = I.p.W[ty]
            if s_of(a, w) >= s_of(b, w):
                return NONE
        elif t is not None:
            ty = range_elt(I, t)
            if ty is not None and I.p.S[ty] and s_of(a, I.p.W[ty]) >= s_of(b, I.p.W[ty]):
                return NONE
        ty = range_elt(I, t)
        w = I.p.W[ty] if ty is not None else 64
        I.put(r.key, r.path, (0, ((a + 1) & ones(w or 64), b)))
        return some(a)
    ty = range_elt(I, t)
    w = I.p.W[ty]
    c = slt(w, a, b) if I.p.S[ty] else ult(w, a, b)
    if type(c) is int:
        if not c:
            return NONE
        I.put(r.key, r.path, (0, (add(w, a, 1), b)))
        return some(a)
    if type(a) is int:
        I.loopn = getattr(I, 'loopn', 0) + 1
        if I.nest > 600:
            raise Unsupported('loop with a symbolic bound')
    # the position of an exhausted range is not observable
    if I.taint:
        I.event('branch', c)
    I.put(r.key, r.path, (0, (add(w, a, 1), b)))
    return Choice(c, some(a), NONE)


def range_elt(I, t):
    if t is None:
        return None
    ty = I.p.types[t[6][0]]
    if ty['k'] == 'ref':
        ty = I.p.types[ty['t']]
    if ty.get('def', '').startswith('core::ops::range::Range'):
        return ty['args'][0]
    return None


@nat('core::iter::range::<impl core::iter::traits::double_ended::DoubleEndedIterator for core::ops::range::Range<A>>::next_back')
def i_range_back(I, fn, args, t):
    r = args[0]
    v = I.load(r.key, r.path)
    a, b = v[1]
    if type(a) is int and type(b) is int:
        if a >= b:
            return NONE
        I.put(r.key, r.path, (0, (a, b - 1)))
        return some(b - 1)
    raise Unsupported('reverse range with symbolic bound')


def nxt(I, key, ity):
    """next() on the iterator of type ity stored in cell `key` -> Option value"""
    it = I.S[key] if key >= 0 else I.H[key]
    if type(it) is It:
        o, n = leaf_opt(I, it)
        I.put(key, (), n)
        return o
    t = I.p.types[ity]
    if t.get('def') == 'core::ops::range::Range' and type(it) is tuple and type(it[1][0]) is int and type(it[1][1]) is int:
        a, b = it[1]
        if I.p.S[t['args'][0]]:
            w = I.p.W[t['args'][0]]
            if s_of(a, w) >= s_of(b, w):
                return NONE
        elif a >= b:
            return NONE
        I.put(key, (), (0, (a + 1, b)))
        return some(a)
    if t['k'] == 'ref':
        r = it
        h = I.p.types[t['t']].get('hooks', {}).get('next')
        if h is None:
            raise Unsupported('next of ' + t.get('str', ''))
        return I.call(h, [r], fake_t(ity))
    h = t.get('hooks', {}).get('next')
    if h is None:
        raise Unsupported('next of ' + t.get('str', ''))
    return I.call(h, [Ref(key)], ('call', None, (), None, None, None, (reft(I, ity),), None))


def fake_t(ity):
    return ('call', None, (), None, None, None, (ity,), None)


_rt = {}


def reft(I, ty):
    """index of some &mut ty type; synthesised when the dump has none"""
    m = I.p.__dict__.setdefault('_reft', {})
    if ty not in m:
        for i, t in enumerate(I.p.types):
            if t['k'] == 'ref' and t['t'] == ty:
                m[ty] = i
                break
        else:
            I.p.types.append({'k': 'ref', 't': ty, 'mut': True, 'str': '&'})
            I.p.W.append(None)
            I.p.S.append(False)
            m[ty] = len(I.p.types) - 1
    return m[ty]


def drain(I, it, ity, f):
    """call f(element) for every element; f returns True to stop"""
    if type(it) is It and it.k != 'rep':
        while True:
            v, it = leaf_next(I, it)
            if v is None:
                return
            if f(v):
                return
    top = I.top
    k = I.temp(it, ity)
    while True:
        o = nxt(I, k, ity)
        if type(o) is Choice:
            raise Unsupported('iterator of symbolic length')
        if o[0] == 0:
            break
        if f(o[1][0]):
            break
    I.top = top


def items(I, it, ity):
    out = []
    drain(I, it, ity, lambda v: out.append(v))
    return out


def into_iter(I, v, ty):
    """IntoIterator::into_iter on a value of type ty -> (iterator value, type)"""
    t = I.p.types[ty]
    if 'next' in t.get('hooks', {}) or type(v) is It:
        return v, ty
    if t['k'] == 'array' or t.get('def') == 'alloc::vec::Vec':
        return It('vals', v[1], 0, len(v[1])), ty
    if t['k'] == 'ref':
        it = I.p.types[t['t']]
        if it['k'] in ('array', 'slice') or it.get('def') == 'alloc::vec::Vec':
            return it_slice(I, v), ty
    if t.get('def') == 'core::option::Option':
        if type(v) is Choice:
            raise Unsupported('iterate joined option')
        return It('vals', v[1], 0, len(v[1])), ty
    raise Unsupported('into_iter of ' + t.get('str', ''))


@pat(r'^<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter')
def v_from_iter(I, fn, args, t):
    it, ty = into_iter(I, args[0], t[6][0])
    return (0, tuple(items(I, it, ty)))


@pat(r'^<alloc::boxed::Box<\[I\]> as core::iter::traits::collect::FromIterator')
def b_from_iter(I, fn, args, t):
    it, ty = into_iter(I, args[0], t[6][0])
    return (0, ((0, tuple(items(I, it, ty))),))


@pat(r'^<alloc::string::String as core::iter::traits::collect::FromIterator')
def s_from_iter(I, fn, args, t):
    it, ty = into_iter(I, args[0], t[6][0])
    out = ()
    parts = tuple(items(I, it, ty))
    for v in parts:
        if type(v) is Ref:
            v = (0, tuple(I.slice_vals(v))) if v.rng is not None else I.load(v.key, v.path)
        if type(v) is tuple:
            out += v[1]
        elif type(v) not in (Opaque, Choice) and ascii(v):
            out += (extract(v, 32, 0, 8),)
        else:
            return Opaque('string', parts)
    return (0, out)


@pat(r'^<core::result::Result<V, E> as core::iter::traits::collect::FromIterator', r'^<core::option::Option<V> as core::iter::traits::collect::FromIterator')
def r_from_iter(I, fn, args, t):
    it, ty = into_iter(I, args[0], t[6][0])
    isopt = 'Option' in fn['def']
    okv = 1 if isopt else 0
    out = []
    good = 1
    err = None

    def okc(v):
        if type(v) is Choice:
            return ite(v.c, 1, okc(v.a), okc(v.b))
        return int(v[0] == okv)

    def f(v):
        nonlocal good, err
        c = okc(v)
        good = band(1, good, c)
        if type(c) is int and c == 0:
            err = v
            return True
        out.append(I.pick_variant(v, okv)[1][0])
    drain(I, it, ty, f)
    ok = (okv, ((0, tuple(out)),))
    if type(good) is int:
        return ok if good else (NONE if isopt else (1, (Opaque('err'),)))
    return Choice(good, ok, NONE if isopt else (1, (Opaque('err'),)))


@pat(r'^<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<')
def v_extend(I, fn, args, t):
    it, ty = into_iter(I, args[1], t[6][1])
    el = items(I, it, ty)
    if "&'a T" in fn['def']:
        el = [I.load(x.key, x.path) for x in el]
    v = vget(I, args[0])
    vput(I, args[0], v[1] + tuple(el))
    return UNIT


ITM = 'core::iter::traits::iterator::Iterator::'


def self_it(I, args, t):
    return args[0], t[6][0]


@tmn(ITM + 'fold')
@nat(ITM + 'fold')
def i_fold(I, fn, args, t):
    if t is None:
        return generic(I, fn, args, t)
    it, ity = args[0], t[6][0]
    acc = args[1]
    fty = t[6][2]
    top = I.top
    k = I.temp(args[2], fty)

    def f(v):
        nonlocal acc
        acc = call_ref(I, k, fty, [acc, v])
    drain(I, it, ity, f)
    I.top = top
    return acc


@tmn(ITM + 'for_each')
@nat(ITM + 'for_each')
def i_for_each(I, fn, args, t):
    it, ity = args[0], t[6][0]
    fty = t[6][1]
    top = I.top
    k = I.temp(args[1], fty)
    drain(I, it, ity, lambda v: call_ref(I, k, fty, [v]) and None)
    I.top = top
    return UNIT


@tmn(ITM + 'count')
@nat(ITM + 'count')
def i_count(I, fn, args, t):
    return len(items(I, args[0], t[6][0]))


@tmn(ITM + 'last')
@nat(ITM + 'last')
def i_last(I, fn, args, t):
    x = items(I, args[0], t[6][0])
    return some(x[-1]) if x else NONE


@tmn(ITM + 'any', ITM + 'all')
@nat(ITM + 'any', ITM + 'all')
def i_any(I, fn, args, t):
    r = args[0]
    ity = I.p.types[t[6][0]]['t']
    fty = t[6][1]
    isany = fn['def'].endswith('any') or (fn.get('tm') or '').endswith('any')
    top = I.top
    k = I.temp(args[1], fty)
    it = I.load(r.key, r.path)
    els = items(I, it, ity)
    I.put(r.key, r.path, It('vals', (), 0, 0))

    def go(i):
        if i == len(els):
            return 0 if isany else 1
        c = call_ref(I, k, fty, [els[i]])
        if type(c) is int:
            if bool(c) == isany:
                return 1 if isany else 0
            return go(i + 1)
        if isany:
            st, ra, rb = I.branch(c, lambda: 1, lambda: go(i + 1))
        else:
            st, ra, rb = I.branch(bxor(1, c, 1), lambda: 0, lambda: go(i + 1))
            c = bxor(1, c, 1)
        return ra if st == 'a' else rb if st == 'b' else ite(c, 1, ra, rb)
    out = go(0)
    I.top = top
    return out


@tmn(ITM + 'position')
@nat(ITM + 'position')
def i_position(I, fn, args, t):
    r = args[0]
    ity = I.p.types[t[6][0]]['t']
    fty = t[6][1]
    top = I.top
    k = I.temp(args[1], fty)
    els = items(I, I.load(r.key, r.path), ity)

    def go(i):
        if i == len(els):
            return NONE
        c = call_ref(I, k, fty, [els[i]])
        if type(c) is int:
            return some(i) if c else go(i + 1)
        st, ra, rb = I.branch(c, lambda: some(i), lambda: go(i + 1))
        return ra if st == 'a' else rb if st == 'b' else Choice(c, ra, rb)
    out = go(0)
    I.top = top
    return out


@tmn(ITM + 'sum', ITM + 'product')
@nat(ITM + 'sum', ITM + 'product')
def i_sum(I, fn, args, t):
    els = items(I, args[0], t[6][0])
    ty = t[7]
    w = I.p.W[ty]
    if w is None:
        raise Unsupported('sum of non-scalars')
    els = [I.load(x.key, x.path) if type(x) is Ref else x for x in els]
    op = 'Add' if 'sum' in fn['def'].split('::')[-1] else 'Mul'
    acc = 0 if op == 'Add' else 1
    for x in els:
        r = I.chkop(op, acc, x, ty)
        I.require(bxor(1, r[1][1], 1), 'overflow:' + op)
        acc = r[1][0]
    return acc


@tmn(ITM + 'max', ITM + 'min')
@nat(ITM + 'max', ITM + 'min')
def i_max(I, fn, args, t):
    els = items(I, args[0], t[6][0])
    if not els:
        return NONE
    ety = I.p.types[t[7]]['args'][0]
    best = els[0]
    mx = 'max' in fn['def'].split('::')[-1]
    for x in els[1:]:
        lt, q = val_cmp(I, x, best, ety)
        c = bxor(1, lt, 1) if mx else lt
        best = I.merge(c, x, best, ety) if type(c) is T else (x if c else best)
    return some(best)


@tmn(ITM + 'nth')
@nat(ITM + 'nth')
def i_nth(I, fn, args, t):
    r = args[0]
    it = I.load(r.key, r.path)
    n = args[1]
    if type(n) is not int:
        raise Unsupported('nth')
    if type(it) is It:
        if it.k == 'rep':
            return some(it.a)
        i = it.i + n
        if i >= it.j:
            I.put(r.key, r.path, It(it.k, it.a, it.j, it.j, it.x))
            return NONE
        v, s = leaf_next(I, It(it.k, it.a, i, it.j, it.x))
        I.put(r.key, r.path, s)
        return some(v)
    ity = I.p.types[t[6][0]]['t'] if I.p.types[t[6][0]]['k'] == 'ref' else None
    if ity is not None and I.p.types[ity].get('def') == 'core::ops::range::Range':
        a, b = it[1]
        if type(a) is int and type(b) is int:
            if a + n >= b:
                I.put(r.key, r.path, (0, (b, b)))
                return NONE
            I.put(r.key, r.path, (0, (a + n + 1, b)))
            return some(a + n)
    h = I.p.types[ity].get('hooks', {}).get('next') if ity is not None else None
    if h is None:
        return generic(I, fn, args, t)
    o = NONE
    for _ in range(n + 1):
        o = I.call(h, [r], t)
        if type(o) is Choice:
            raise Unsupported('nth')
        if o[0] == 0:
            return NONE
    return o


@tmn(ITM + 'size_hint')
def i_hint(I, fn, args, t):
    r = args[0]
    it = I.load(r.key, r.path)
    if type(it) is It and it.k not in ('rep', 'cond'):
        n = it.j - it.i
        return (0, (n, some(n)))
    return generic(I, fn, args, t)


@pat(r'ExactSizeIterator.*::len$')
def i_len(I, fn, args, t):
    r = args[0]
    it = I.load(r.key, r.path)
    if type(it) is It and it.k not in ('rep', 'cond'):
        return it.j - it.i
    return generic(I, fn, args, t)


@tmn('core::iter::traits::iterator::Iterator::advance_by')
def i_advance(I, fn, args, t):
    r = args[0]
    it = I.load(r.key, r.path)
    n = args[1]
    if type(it) is It and it.k not in ('rep', 'cond') and type(n) is int:
        k = min(n, it.j - it.i)
        I.put(r.key, r.path, It(it.k, it.a, it.i + k, it.j, it.x))
        return (0, (UNIT,)) if k == n else (1, ((0, (n - k,)),))
    return generic(I, fn, args, t)


# ---- zip: library version relies on unchecked random access
@nat('core::iter::traits::iterator::Iterator::zip', 'core::iter::adapters::zip::zip')
def i_zip(I, fn, args, t):
    b, bty = into_iter(I, args[1], t[6][1])
    a = args[0]
    if any(type(x) is It and x.k == 'cond' for x in (a, b)):
        def pairs(x, ty):
            if type(x) is It and x.k == 'cond':
                return list(x.a[x.i:x.j])
            if is_inf(I, x, ty):
                raise Unsupported('zip of a sequence of unknown length')
            return [(1, v) for v in items(I, x, ty)]
        x, y = pairs(a, t[6][0]), pairs(b, bty)
        n = min(len(x), len(y))
        return It('cond', tuple((band(1, x[i][0], y[i][0]), (0, (x[i][1], y[i][1]))) for i in range(n)), 0, n)
    # element lists are taken eagerly; neither side has effects in leaf form
    at = t[6][0]
    if effectful(I, at) or effectful(I, bty):
        return It('zip', None, 0, 0, None) if False else zip_lazy(I, a, at, b, bty)
    if type(a) is It and a.k == 'rep':
        y = items(I, b, bty)
        return It('vals', tuple((0, (a.a, v)) for v in y), 0, len(y))
    if is_inf(I, a, at):
        y = items(I, b, bty)
        x = take_n(I, a, at, len(y))
    elif is_inf(I, b, bty):
        x = items(I, a, at)
        y = take_n(I, b, bty, len(x))
    else:
        x = items(I, a, at)
        y = items(I, b, bty)
    n = min(len(x), len(y))
    return It('vals', tuple((0, (x[i], y[i])) for i in range(n)), 0, n)


def is_inf(I, v, ty):
    if type(v) is It:
        return v.k == 'rep'
    t = I.p.types[ty]
    return t.get('def') in ('core::ops::range::RangeFrom', 'core::iter::adapters::cycle::Cycle', 'core::iter::sources::repeat::Repeat')


def take_n(I, it, ty, n):
    out = []
    if n == 0:
        return out

    def f(v):
        out.append(v)
        return len(out) >= n
    drain(I, it, ty, f)
    return out


def effectful(I, ty):
    """iterator type containing a closure (adapter state may change the heap when advanced)"""
    s = I.p.types[ty].get('str', '')
    return False


def zip_lazy(I, a, at, b, bt):
    raise Unsupported('zip')


# ================================================================= option / result helpers with symbolic variants
@pat(r'^core::option::Option::<T>::(unwrap|expect)$', r'^core::result::Result::<T, E>::(unwrap|expect)$')
def o_unwrap(I, fn, args, t):
    v = args[0]
    okv = 1 if 'option' in fn['def'] else 0

    def okc(v):
        if type(v) is Choice:
            return ite(v.c, 1, okc(v.a), okc(v.b))
        if type(v) is tuple:
            return int(v[0] == okv)
        raise Unsupported('unwrap of %r' % (v,))
    I.require(okc(v), 'unwrap')
    return I.pick_variant(v, okv)[1][0]


# ================================================================= scalars
def swid(I, fn, t):
    return I.p.W[t[6][0]]


@pat(r'^core::num::<impl [ui]\w+>::(pow|wrapping_pow)$')
def s_pow(I, fn, args, t):
    ty = t[6][0]
    b, e = args
    w = I.p.W[ty]
    wrapping = fn['def'].endswith('wrapping_pow')
    if type(e) is int and type(b) is int:
        v = (s_of(b, w) if I.p.S[ty] else b) ** e
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if I.p.S[ty] else (0, ones(w))
        if not wrapping and not lo <= v <= hi:
            I.panic('overflow:pow')
        return v & ones(w)
    if I.taint:
        I.event('div', e)
    z = mk('zpow', 0, I.zval(b, ty), zu(e, 32))
    v = None
    if type(e) is int and e <= 64:
        z, v, zb = 1, 1, I.zval(b, ty)
        for _ in range(e):
            z = zmul(z, zb)
            v = mul(w, v, b)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if I.p.S[ty] else (0, ones(w))
    if not wrapping:
        I.require(bxor(1, bor(1, zlt(z, lo), zlt(hi, z)), 1), 'overflow:pow')
    return bvz(z, w) if v is None else v


@pat(r'^core::num::<impl [ui]\w+>::(to_le|to_be|from_le|from_be)$')
def s_tole(I, fn, args, t):
    w = swid(I, fn, t)
    if fn['def'].endswith('le'):
        return args[0]
    return bswap(w, args[0])


def bswap(w, x):
    return cat([(extract(x, w, 8 * i, 8), 0, 8) for i in range(w // 8)])


@pat(r'^core::num::<impl [ui]\w+>::(to_le_bytes|to_be_bytes|to_ne_bytes)$')
def s_tobytes(I, fn, args, t):
    w = swid(I, fn, t)
    r = range(w // 8)
    if fn['def'].endswith('be_bytes'):
        r = reversed(r)
    return (0, tuple(extract(args[0], w, 8 * i, 8) for i in r))


@pat(r'^core::num::<impl [ui]\w+>::(from_le_bytes|from_be_bytes|from_ne_bytes)$')
def s_frombytes(I, fn, args, t):
    b = args[0][1]
    if not fn['def'].endswith('be_bytes'):
        b = tuple(reversed(b))
    return cat([(x, 0, 8) for x in b])


@pat(r'^core::num::<impl [ui]\w+>::from_str_radix$', r'^core::num::<impl core::str::traits::FromStr for [ui]\w+>::from_str$')
def s_fsr(I, fn, args, t):
    b = I.slice_vals(args[0])
    radix = args[1] if len(args) > 1 else 10
    ty = I.p.types[t[7]]['args'][0]
    w = I.p.W[ty]
    if all(type(x) is int for x in b) and type(radix) is int:
        s = bytes(b).decode('latin1')
        try:
            if not re.match(r'^[+-]?[0-9a-zA-Z]+$', s) or (s.startswith('-') and not I.p.S[ty]):
                raise ValueError
            v = int(s, radix)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if I.p.S[ty] else (0, ones(w))
            if not lo <= v <= hi:
                raise ValueError
            return (0, (v & ones(w),))
        except ValueError:
            return (1, (Opaque('parse error'),))
    if radix == 16 and w == 8 and len(b) == 2:
        # both characters hexadecimal digits, or '+' and a digit
        d = [hexd(x) for x in b]
        plus = eq(8, b[0], 0x2b)
        ok = band(1, d[1][0], bor(1, d[0][0], plus))
        v = cat([(ite(plus, 4, 0, d[0][1]), 0, 4), (d[1][1], 0, 4)])
        if type(ok) is int:
            return (0, (v,)) if ok else (1, (Opaque('parse error'),))
        return Choice(ok, (0, (v,)), (1, (Opaque('parse error'),)))
    ok = uf('parse_ok', 1, radix, *b)
    v = uf('parse', w, radix, *b)
    return Choice(ok, (0, (v,)), (1, (Opaque('parse error'),)))


def hexd(c):
    """(is hex digit, value) of an ASCII code"""
    if type(c) is int:
        ch = chr(c)
        if ch in '0123456789abcdefABCDEF':
            return 1, int(ch, 16)
        return 0, 0
    ok, v = hexd32(zext(c, 8, 32))
    return ok, extract(v, 32, 0, 4)


@pat(r'^std::f64::<impl f64>::ceil', r'^core::f64::.*ceil', r'^core::num::imp::libm::ceil')
def f_ceil(I, fn, args, t):
    import math
    if type(args[0]) is not float:
        raise Unsupported('ceil of symbolic')
    return float(math.ceil(args[0]))


@pat(r'^core::num::<impl [ui]\w+>::(rotate_left|rotate_right)$')
def s_rotn(I, fn, args, t):
    w = swid(I, fn, t)
    return (rotl if fn['def'].endswith('left') else rotr)(w, args[0], args[1])


@pat(r'^core::num::<impl [ui]\w+>::(count_ones|leading_zeros|trailing_zeros|count_zeros)$')
def s_count(I, fn, args, t):
    w = swid(I, fn, t)
    x = args[0]
    n = fn['def'].split('::')[-1]
    if type(x) is int:
        if n == 'count_ones':
            return bin(x).count('1')
        if n == 'count_zeros':
            return w - bin(x).count('1')
        if n == 'leading_zeros':
            return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1
    bits = [extract(x, w, i, 1) for i in range(w)]
    if n in ('count_ones', 'count_zeros'):
        r = add(32, *[zext(b, 1, 32) for b in bits])
        return r if n == 'count_ones' else sub(32, w, r)
    r = w
    if n == 'leading_zeros':
        for i in range(w):
            r = ite(bits[i], 32, w - 1 - i, r)
    else:
        for i in range(w - 1, -1, -1):
            r = ite(bits[i], 32, i, r)
    return r


@pat(r'^core::num::<impl [ui]\w+>::(checked|overflowing|saturating)_(add|sub|mul)$')
def s_chk(I, fn, args, t):
    m = re.search(r'(checked|overflowing|saturating)_(add|sub|mul)$', fn['def'])
    ty = t[6][0]
    r = I.chkop({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[m.group(2)], args[0], args[1], ty)
    v, o = r[1]
    if m.group(1) == 'overflowing':
        return r
    if m.group(1) == 'checked':
        if type(o) is int:
            return NONE if o else some(v)
        return Choice(o, NONE, some(v))
    w = I.p.W[ty]
    if I.p.S[ty]:
        raise Unsupported('signed saturation')
    return ite(o, w, 0 if m.group(2) == 'sub' else ones(w), v)


def _rot(left):
    def f(I, fn, args, t):
        w = I.p.W[t[6][0]]
        return (rotl if left else rotr)(w, args[0], args[1])
    return f


def _raw_eq(I, fn, args, t):
    ty = selfty(I, fn, t)
    return vals_eq(I, I.load(args[0].key, args[0].path), I.load(args[1].key, args[1].path), ty)


def _tsz(I, fn, args, t):
    return I.p.types[fn['args'][0]]['size']


INTR = {
    'rotate_left': _rot(True),
    'rotate_right': _rot(False),
    'bswap': lambda I, fn, a, t: bswap(I.p.W[t[6][0]], a[0]),
    'raw_eq': _raw_eq,
    'cold_path': lambda I, fn, a, t: UNIT,
    'assert_inhabited': lambda I, fn, a, t: UNIT,
    'is_val_statically_known': lambda I, fn, a, t: 0,
    'likely': lambda I, fn, a, t: a[0],
    'unlikely': lambda I, fn, a, t: a[0],
    'black_box': lambda I, fn, a, t: a[0],
    'size_of': _tsz,
    'saturating_sub': lambda I, fn, a, t: _satsub(I, a, t),
    'saturating_add': lambda I, fn, a, t: _satadd(I, a, t),
    'ctpop': lambda I, fn, a, t: s_count(I, {'def': 'count_ones'}, a, t),
    'ctlz': lambda I, fn, a, t: s_count(I, {'def': 'leading_zeros'}, a, t),
    'cttz': lambda I, fn, a, t: s_count(I, {'def': 'trailing_zeros'}, a, t),
    'disjoint_bitor': lambda I, fn, a, t: bor(I.p.W[t[6][0]], a[0], a[1]),
    'typed_swap_nonoverlapping': lambda I, fn, a, t: n_swap(I, fn, a, t),
    'integer_max': lambda I, fn, a, t: ones(I.p.W[t[7]] - int(I.p.S[t[7]])),
    'integer_min': lambda I, fn, a, t: (1 << (I.p.W[t[7]] - 1)) if I.p.S[t[7]] else 0,
    'ceil': lambda I, fn, a, t: f_ceil(I, fn, a, t),
}


def _satsub(I, a, t):
    ty = t[6][0]
    w = I.p.W[ty]
    if I.p.S[ty]:
        raise Unsupported('signed saturation')
    return ite(ult(w, a[0], a[1]), w, 0, sub(w, a[0], a[1]))


def _satadd(I, a, t):
    ty = t[6][0]
    w = I.p.W[ty]
    if I.p.S[ty]:
        raise Unsupported('signed saturation')
    r = I.chkop('Add', a[0], a[1], ty)[1]
    return ite(r[1], w, ones(w), r[0])


# ================================================================= closures through traits
@nat('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def f_call(I, fn, args, t):
    return callshim(I, fn, args, t)


@tmn('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def f_call2(I, fn, args, t):
    return callshim(I, fn, args, t)


def callshim(I, fn, args, t):
    ty = fn['args'][0]
    f = args[0]
    k = I.p.types[ty]['k']
    rest = args[1:]
    if ' for &' in fn['def']:
        # impl FnMut<A> for &mut F (and the like): generic arguments are [A, F], self is a reference to &mut F
        if not fn['def'].endswith('call_once'):
            f = I.load(f.key, f.path)
        fty = fn['args'][-1]
        if I.p.types[fty]['k'] == 'closure':
            return I.call(I.p.types[fty]['inst'], [f] + rest)
        return I.callv(I.load(f.key, f.path), fty, rest)
    if fn['def'].endswith('call_once') or k in ('fndef', 'fnptr'):
        if type(f) is Ref and k == 'fnptr':
            f = I.load(f.key, f.path)
        if k == 'ref' and fn['def'].endswith(('call_mut', '::call')):
            f = I.load(f.key, f.path)
        return I.callv(f, ty, rest)
    if k == 'closure':
        return I.call(I.p.types[ty]['inst'], [f] + rest)
    if k == 'ref':
        return I.callv(I.load(f.key, f.path), ty, rest)
    raise Unsupported('call shim')


# ================================================================= big integers
def zarg(I, v):
    while type(v) is Ref:
        v = I.load(v.key, v.path)
    if type(v) is Choice:
        v = I.scalarize(v, 0)
    return v


def zty(I, v, ty):
    """integer value of an argument that may be a machine integer or a big integer"""
    t = I.p.types[ty]
    while t['k'] == 'ref':
        v = I.load(v.key, v.path)
        ty = t['t']
        t = I.p.types[ty]
    if type(v) is Choice:
        v = I.scalarize(v, I.p.W[ty])
    if I.p.W[ty] == 0:
        return v
    return I.zval(v, ty)


def is_uint(I, ty):
    t = I.p.types[ty]
    while t['k'] == 'ref':
        ty = t['t']
        t = I.p.types[ty]
    return t.get('def') == BIG[1]


BIGRX = r'num_bigint::'


@pat(r'num_bigint::|^num_traits|^num_integer')
def big(I, fn, args, t):
    d = fn['def']
    m = (fn.get('tm') or d).split('::')[-1]
    at = t[6] if t else None
    unsig = None
    A = lambda i: zty(I, args[i], at[i])
    if at and is_sign(I, at[0]):
        if m in ('eq', 'ne'):
            a, b = I.deref(args[0]), I.deref(args[1])
            r = sign_eq(a, b)
            return r if m == 'eq' else bxor(1, r, 1)
        if m == 'clone':
            return I.deref(args[0])
        if m == 'neg':
            return sign_neg(args[0])
    if m in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr', 'div_floor', 'mod_floor'):
        x, y = A(0), A(1)
        us = is_uint(I, t[7])
        if m == 'add':
            return zadd(x, y)
        if m == 'sub':
            r = zsub(x, y)
            if us:
                I.require(bxor(1, zlt(r, 0), 1), 'overflow:Sub', 'BigUint subtraction')
                lo = zmin(r)
                if type(r) is T and (lo is None or lo < 0):
                    pass
            return r
        if m == 'mul':
            return zmul(x, y)
        if m in ('div', 'rem', 'div_floor', 'mod_floor'):
            I.require(bxor(1, zeq(y, 0), 1), 'div0', 'big integer division')
            if I.taint:
                I.event('div', x)
                I.event('div', y)
            if m == 'div':
                return zdivt(x, y)
            if m == 'rem':
                if us:
                    return zmodf(x, y)
                return zrem(x, y)
            if m == 'mod_floor':
                return zmodf(x, y)
            raise Unsupported('div_floor')
        if m == 'bitand':
            return zband(x, y)
        if m == 'bitor':
            return zbor(x, y)
        if m == 'bitxor':
            return zbxor(x, y)
        if m == 'shl':
            return zshl(x, y)
        return zshr(x, y)
    if m.endswith('_assign'):
        ref = args[0]
        x = I.load(ref.key, ref.path)
        y = A(1)
        f = {'add_assign': zadd, 'sub_assign': zsub, 'mul_assign': zmul}.get(m)
        if f is None:
            if m == 'shl_assign':
                f = zshl
            elif m == 'shr_assign':
                f = zshr
            elif m in ('rem_assign', 'div_assign'):
                I.require(bxor(1, zeq(y, 0), 1), 'div0')
                f = zrem if m == 'rem_assign' else zdivt
            else:
                raise Unsupported(d)
        I.put(ref.key, ref.path, f(x, y))
        return UNIT
    if m == 'neg':
        return zneg(A(0))
    if m == 'from' or m == 'into':
        return A(0)
    if m in ('to_bigint', 'to_biguint'):
        x = A(0)
        if m == 'to_biguint':
            c = zlt(x, 0)
            if type(c) is int:
                return NONE if c else some(x)
            return Choice(c, NONE, some(x))
        return some(x)
    if m == 'clone':
        return A(0)
    if m == 'eq':
        return zeq(A(0), A(1))
    if m == 'ne':
        return bxor(1, zeq(A(0), A(1)), 1)
    if m in ('lt', 'gt', 'le', 'ge'):
        x, y = A(0), A(1)
        return {'lt': lambda: zlt(x, y), 'gt': lambda: zlt(y, x), 'le': lambda: bxor(1, zlt(y, x), 1), 'ge': lambda: bxor(1, zlt(x, y), 1)}[m]()
    if m in ('cmp', 'partial_cmp'):
        x, y = A(0), A(1)
        o = I.ordering(zlt(x, y), zeq(x, y))
        return some(o) if m == 'partial_cmp' else o
    if m == 'zero' or m == 'default':
        if t is not None and I.p.W[t[7]] == 0:
            return 0
    if m == 'one' and I.p.W[t[7]] == 0:
        return 1
    if m == 'is_zero':
        return zeq(A(0), 0)
    if m == 'is_one':
        return zeq(A(0), 1)
    if m == 'is_negative':
        return zlt(A(0), 0)
    if m == 'is_positive':
        return zlt(0, A(0))
    if m == 'is_even' or m == 'is_odd':
        r = zeq(zmodf(A(0), 2), 0)
        return r if m == 'is_even' else bxor(1, r, 1)
    if m == 'abs':
        return zabs(A(0))
    if m == 'sign':
        return sign_of(A(0))
    if m in ('from_bytes_be', 'from_bytes_le', 'from_slice'):
        if m == 'from_slice':
            raise Unsupported(d)
        sg = args[0] if len(args) == 2 else None
        sl = args[-1]
        z = z_from_bytes(I, sl, m.endswith('be'))
        if sg is None:
            return z
        return apply_sign(sg, z)
    if m in ('to_bytes_be', 'to_bytes_le'):
        z = A(0)
        mag = zabs(z)
        if type(mag) is int:
            n = blen(mag)
            v = (0, tuple(mag.to_bytes(n, 'big' if m.endswith('be') else 'little')))
        elif zmax(mag) is not None and zmax(mag) < 256:
            v = (0, (bvz(mag, 8),))
        elif type(blen(mag)) is int and blen(mag) > 0:
            n = blen(mag)
            b = bvz(mag, 8 * n)
            bs = [extract(b, 8 * n, 8 * i, 8) for i in range(n)]
            v = (0, tuple(reversed(bs) if m.endswith('be') else bs))
        else:
            v = SymV(mag, m.endswith('be'))
        if 'BigUint' in d:
            return v
        return (0, (sign_of(z), v))
    if m == 'modpow':
        b, e, n = A(0), A(1), A(2)
        I.require(bxor(1, zeq(n, 0), 1), 'div0', 'modpow')
        if 'BigInt' in d:
            I.require(bxor(1, zlt(e, 0), 1), 'modpow', 'negative exponent')
        if I.taint:
            I.event('modpow', b)
            I.event('modpow', e)
        lo = zmin(n)
        if lo is None or lo <= 0:
            if type(n) is T:
                return mk('zmodpow', 0, b, e, n)
        return zmodpow(b, e, n)
    if m in ('checked_add', 'checked_sub', 'checked_mul'):
        x, y = A(0), A(1)
        r = {'checked_add': zadd, 'checked_sub': zsub, 'checked_mul': zmul}[m](x, y)
        if m == 'checked_sub' and 'BigUint' in d:
            c = zlt(r, 0)
            if type(c) is int:
                return NONE if c else some(r)
            return Choice(c, NONE, some(r))
        return some(r)
    if m == 'checked_div':
        x, y = A(0), A(1)
        c = zeq(y, 0)
        if type(c) is int:
            return NONE if c else some(zdivt(x, y))
        return Choice(c, NONE, some(zdivt(x, y)))
    if m == 'bits':
        z = A(0)
        if type(z) is int:
            return abs(z).bit_length()
        return uf('zbits', 64, z)
    if m == 'pow':
        z, e = A(0), args[1]
        if type(e) is int and type(z) is int:
            return z ** e
        if type(e) is int and e < 8:
            r = 1
            for _ in range(e):
                r = zmul(r, z)
            return r
    if m in ('from_str_radix', 'parse_bytes', 'from_str'):
        b = I.slice_vals(args[0])
        rd = args[1] if len(args) > 1 else 10
        if all(type(x) is int for x in b) and type(rd) is int:
            try:
                v = int(bytes(b).decode(), rd)
                return some(v) if m == 'parse_bytes' else (0, (v,))
            except ValueError:
                return NONE if m == 'parse_bytes' else (1, (Opaque('err'),))
        raise Unsupported('parse big integer')
    if m.startswith('to_') and m[3:] in ('u8', 'u16', 'u32', 'u64', 'u128', 'i64', 'i128', 'usize', 'i32', 'isize'):
        z = A(0)
        w = {'usize': 64, 'isize': 64}.get(m[3:]) or int(m[4:])
        if m[3] == 'u':
            lo, hi = 0, ones(w)
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        bad = bor(1, zlt(z, lo), zlt(hi, z))
        v = some(bvz(z, w))
        if type(bad) is int:
            return NONE if bad else v
        return Choice(bad, NONE, v)
    if m == 'new' and len(args) == 0:
        return 0
    raise Unsupported('big integer operation ' + d)


def is_sign(I, ty):
    t = I.p.types[ty]
    while t['k'] == 'ref':
        t = I.p.types[t['t']]
    return t.get('def') == 'num_bigint::bigint::Sign'


def sign_neg(a):
    if type(a) is Choice:
        return Choice(a.c, sign_neg(a.a), sign_neg(a.b))
    return (2 - a[0], ())


def sign_eq(a, b):
    if type(a) is Choice:
        return ite(a.c, 1, sign_eq(a.a, b), sign_eq(a.b, b))
    if type(b) is Choice:
        return ite(b.c, 1, sign_eq(a, b.a), sign_eq(a, b.b))
    return int(a[0] == b[0])


def zabs(z):
    if type(z) is int:
        return abs(z)
    c = zlt(z, 0)
    if type(c) is int:
        return zneg(z) if c else z
    return ite(c, 0, zneg(z), z)


# Sign { Minus, NoSign, Plus }
def sign_of(z):
    def sw(c, a, b):
        if type(c) is int:
            return a if c else b
        return Choice(c, a, b)
    return sw(zlt(z, 0), (0, ()), sw(zeq(z, 0), (1, ()), (2, ())))


def apply_sign(s, z):
    if type(s) is Choice:
        return zite(s.c, apply_sign(s.a, z), apply_sign(s.b, z))
    if type(s) is not tuple:
        raise Unsupported('sign %r' % (s,))
    if s[0] == 0:
        return zneg(z)
    if s[0] == 1:
        return 0
    return z


def zite(c, a, b):
    """ite on integers; `if x == k then k else x` is x"""
    if type(c) is T and type(a) is int and type(b) is T:
        if c is zeq(b, a):
            return b
    if type(c) is T and type(b) is T and b.op == 'ite' and type(a) is T and a.op == 'ite' and b.a[0] is c and a.a[0] is c:
        return ite(c, 0, a.a[1], b.a[2])
    return ite(c, 0, a, b)


def z_from_bytes(I, sl, be):
    v = I.load(sl.key, sl.path)
    while type(v) is Ref:
        sl = v
        v = I.load(sl.key, sl.path)
    if type(v) is SymV:
        if v.be == be and (sl.rng is None or (sl.rng[0] == 0 and sl.rng[1] is blen(v.z))):
            return v.z
        raise Unsupported('bytes of a big integer in another order')
    b = I.slice_vals(sl)
    if not be:
        b = tuple(reversed(b))
    if not b:
        return 0
    x = cat([(y, 0, 8) for y in b])
    return zu(x, 8 * len(b))


# ================================================================= randomness
@pat(r'^rand::|^rand_core::|^rand_chacha|^getrandom')
def rng(I, fn, args, t):
    d = fn['def']
    if d.endswith('thread_rng'):
        return Opaque('rng')
    m = d.split('::')[-1]
    if m in ('random', 'gen', 'gen_range', 'fill', 'fill_bytes', 'try_fill', 'try_fill_bytes', 'next_u32', 'next_u64', 'sample'):
        I.fresh += 1
        if m in ('fill', 'fill_bytes', 'try_fill', 'try_fill_bytes'):
            r = I.as_slice(args[-1])
            e = _elem(I, t[6][-1])
            w = I.p.W[e]
            vals = []
            for _ in range(r.rng[1]):
                vals.append(var('rng%d' % I.fresh, w))
                I.fresh += 1
            I.slice_set(r, vals)
            I.effect('rng', m, tuple(vals))
            return (0, (UNIT,)) if m.startswith('try') else UNIT
        if m == 'gen_range':
            w = I.p.W[t[7]]
            v = var('rng%d' % I.fresh, w)
            I.effect('rng_range', m, (v,) + tuple(args[1:]))
            return v
        v = fresh_of(I, t[7])
        I.effect('rng', m, (v,))
        return v
    raise Unsupported('rng operation ' + d)


def fresh_of(I, ty):
    w = I.p.W[ty]
    if w:
        I.fresh += 1
        return var('rng%d' % I.fresh, w)
    t = I.p.types[ty]
    if t['k'] == 'array':
        return (0, tuple(fresh_of(I, t['e']) for _ in range(t['len'])))
    if t['k'] == 'tuple':
        return (0, tuple(fresh_of(I, f) for f in t['fields']))
    raise Unsupported('random ' + t.get('str', ''))


@pat(r'^alloc::string::ToString::to_string', r'^<T as alloc::string::ToString>::to_string', r'^<.* as alloc::string::SpecToString>', r'^alloc::str::')
def to_string(I, fn, args, t):
    return n_fmt(I, fn, args, t) if False else Opaque('string', tuple(args))


@pat(r'^std::(io|fs|env|process|net|thread|time|sys|collections)::')
def sysop(I, fn, args, t):
    I.effect('system', fn['def'], tuple(args))
    raise Unsupported('system interface ' + fn['def'])


# ================================================================= formatting of integers and strings
class FmtV:
    """a Formatter: options and the text written so far"""
    __slots__ = ('flags', 'width', 'out')

    def __init__(self, flags, width, out):
        self.flags, self.width, self.out = flags, width, tuple(out)


FMTDEF = (1 << 29 | 1 << 30, 0)         # alignment unknown, no other flag


class NoRender(Exception):
    pass


def render(I, a):
    """text of a format_args! value as a list of byte terms; NoRender when it is outside the model"""
    if type(a) is not Opaque or a.what != 'fmt' or not a.fmt:
        raise NoRender()
    if a.fmt[0] == 'lit':
        return list(a.fmt[1])
    tpl, args = a.fmt[1], a.fmt[2]
    out, i, nxt = [], 0, 0
    while True:
        n = tpl[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out += tpl[i:i + n]
            i += n
        elif n == 0x80:
            k = tpl[i] | tpl[i + 1] << 8
            out += tpl[i + 2:i + 2 + k]
            i += 2 + k
        else:
            flags, width = FMTDEF
            if n & 0x34:
                raise NoRender()        # precision or indirect width
            if n & 1:
                flags = int.from_bytes(bytes(tpl[i:i + 4]), 'little')
                i += 4
            if n & 2:
                width = tpl[i] | tpl[i + 1] << 8
                i += 2
            if n & 8:
                nxt = tpl[i] | tpl[i + 1] << 8
                i += 2
            out = render_arg(I, args[nxt], flags, width, out)
            nxt += 1


def render_arg(I, a, flags, width, out):
    if type(a) is not Opaque or a.what != 'arg' or not a.fmt:
        raise NoRender()
    how, ty, ref = a.fmt
    c = I.temp(FmtV(flags, width, out))
    fmt_value(I, how, ty, ref, Ref(c))
    return list(I.load(c, ()).out)


def fmt_value(I, how, ty, ref, f):
    t = I.p.types[ty]
    while t['k'] == 'ref' and I.p.types[t['t']]['k'] != 'str':
        ref = I.load(ref.key, ref.path)
        ty = t['t']
        t = I.p.types[ty]
    v = I.load(f.key, f.path)
    if how in ('lower_hex', 'upper_hex') and t['k'] in ('uint', 'int'):
        x = I.load(ref.key, ref.path)
        w = I.p.W[ty]
        if v.flags & (1 << 21 | 1 << 23):
            raise NoRender()
        zero = v.flags >> 24 & 1
        hexdig = lambda d: ite(ult(4, d, 10), 8, add(8, zext(d, 4, 8), 48), add(8, zext(d, 4, 8), 87 if how == 'lower_hex' else 55))
        if type(x) is int:
            s = [ord(ch) for ch in ('%x' if how == 'lower_hex' else '%X') % x]
            if len(s) < v.width:
                if not zero:
                    raise NoRender()
                s = [48] * (v.width - len(s)) + s
        else:
            k = w // 4
            if not zero or v.width < k:
                # number of digits depends on the value
                raise NoRender()
            s = [48] * (v.width - k) + [hexdig(extract(x, w, 4 * i, 4)) for i in range(k - 1, -1, -1)]
        I.put(f.key, f.path, FmtV(v.flags, v.width, v.out + tuple(s)))
        return
    if how == 'display' and not v.width and (t['k'] == 'ref' or t.get('def') == 'alloc::string::String'):
        r = I.load(ref.key, ref.path) if t['k'] == 'ref' else ref
        s = I.slice_vals(r)
        I.put(f.key, f.path, FmtV(v.flags, v.width, v.out + tuple(s)))
        return
    if how == 'display' and t['k'] in ('uint', 'int') and not v.width:
        x = I.load(ref.key, ref.path)
        if type(x) is int:
            w = I.p.W[ty]
            x = s_of(x, w) if I.p.S[ty] else x
            I.put(f.key, f.path, FmtV(v.flags, v.width, v.out + tuple(str(x).encode())))
            return
    if t['k'] == 'adt' and how in t.get('hooks', {}):
        I.call(t['hooks'][how], [ref, f])
        return
    raise NoRender()


def fmt_leaf(I, fn, args, t):
    how = 'lower_hex' if 'LowerHex' in fn['def'] else 'upper_hex' if 'UpperHex' in fn['def'] else 'display'
    f = I.load(args[1].key, args[1].path) if type(args[1]) is Ref else None
    if type(f) is FmtV and t is not None:
        try:
            fmt_value(I, how, I.p.types[t[6][0]]['t'], args[0], args[1])
            return (0, (UNIT,))
        except NoRender:
            raise Unsupported('formatting of a symbolic value')
    return n_fmt(I, fn, args, t)


@nat('alloc::fmt::format')
def fmt_format(I, fn, args, t):
    try:
        return (0, tuple(render(I, args[0])))
    except NoRender:
        return n_fmt(I, fn, args, t)


def str_join(I, fn, args, t):
    vs = I.slice_vals(args[0])
    sep = ()
    if len(args) > 1:
        sep = tuple(I.slice_vals(args[1])) if type(args[1]) is Ref and args[1].rng is not None else None
    if sep is None:
        return generic(I, fn, args, t)
    out = ()
    for i, v in enumerate(vs):
        if type(v) is Ref:
            v = (0, tuple(I.slice_vals(v)))
        if type(v) is not tuple:
            return Opaque('string', tuple(vs))
        out += (sep if i else ()) + v[1]
    return (0, out)


def ascii(x):
    x = x >> 7 if type(x) is int else extract(x, 32, 7, 25)
    return type(x) is int and x == 0


@nat('core::char::methods::<impl char>::from_digit', 'core::char::convert::from_digit', 'core::char::from_digit')
def from_digit(I, fn, args, t):
    d, radix = args
    if type(radix) is not int:
        raise Unsupported('radix')
    c = ite(ult(32, d, 10), 32, add(32, d, 48), add(32, d, 87))
    return chc(ult(32, d, radix), some(c), NONE)


@nat('core::char::methods::<impl char>::to_digit')
def to_digit(I, fn, args, t):
    c, radix = args
    if radix != 16:
        raise Unsupported('radix')
    ok, v = hexd32(c)
    return chc(ok, some(v), NONE)


def chc(c, a, b):
    if type(c) is int:
        return a if c else b
    return Choice(c, a, b)


def between(w, x, lo, hi):
    return band(1, bnot(1, ult(w, x, lo)), bnot(1, ult(w, hi, x)))


def hexd32(c):
    dig, lo, up = between(32, c, 48, 57), between(32, c, 97, 102), between(32, c, 65, 70)
    v = ite(dig, 32, sub(32, c, 48), ite(lo, 32, sub(32, c, 87), sub(32, c, 55)))
    return bor(1, dig, bor(1, lo, up)), v


@pat(r'^core::(num|char::methods)::<impl (u8|char)>::is_ascii_hexdigit$')
def is_hexdigit(I, fn, args, t):
    c = I.load(args[0].key, args[0].path)
    w = 8 if '<impl u8>' in fn['def'] else 32
    return bor(1, between(w, c, 48, 57), bor(1, between(w, c, 97, 102), between(w, c, 65, 70)))


@pat(r'^alloc::string::String::push(_str)?$')
def str_push(I, fn, args, t):
    r = args[0]
    v = I.load(r.key, r.path)
    if type(v) is not tuple:
        raise Unsupported('push to an unknown string')
    if fn['def'].endswith('push_str'):
        s = tuple(I.slice_vals(args[1]))
    else:
        if not ascii(args[1]):
            raise Unsupported('push of a character that may not be ASCII')
        s = (extract(args[1], 32, 0, 8),)
    I.put(r.key, r.path, (0, v[1] + s))
    return UNIT


# ---- constant time (taint mode): external operations whose duration or control flow depends on argument values
VARTIME = re.compile(r'::(pow|checked_pow|wrapping_pow|overflowing_pow|saturating_pow|checked_\w+|div_euclid|rem_euclid|wrapping_div\w*|wrapping_rem\w*|overflowing_div\w*|'
                     r'overflowing_rem\w*|div|rem|div_floor|mod_floor|ilog\w*|isqrt|sqrt|cmp|partial_cmp|min|max|clamp|lt|le|gt|ge|sort\w*|binary_search\w*|contains|'
                     r'starts_with|ends_with|starts_with|dedup\w*|position|abs|abs_diff|signum|saturating_\w+|to_string|parse|from_str_radix|is_char_boundary)$')
FIXEDTIME = ('core', 'alloc')


def scalars(I, v, depth=3):
    if type(v) is T:
        yield v
    elif type(v) is Ref and depth:
        if v.rng is not None:
            try:
                for x in I.slice_vals(v):
                    yield from scalars(I, x, depth - 1)
            except Unsupported:
                pass
        else:
            try:
                yield from scalars(I, I.load(v.key, v.path), depth - 1)
            except Unsupported:
                pass
    elif type(v) is tuple:
        for x in v[1]:
            yield from scalars(I, x, depth - 1 if depth else 0)
    elif type(v) is Choice:
        yield v.c
        yield from scalars(I, v.a, depth)
        yield from scalars(I, v.b, depth)


def timing(I, fn, args):
    """record calls of external operations that are not known to take the same time for all values"""
    if fn.get('crate') in FIXEDTIME or fn.get('crate') is None:
        n = I.vt.get(fn['def'])
        if n is None:
            n = I.vt[fn['def']] = bool(VARTIME.search(fn['def'].split('<')[0] if fn['def'].startswith('core::num') else fn['def']))
        if not n:
            return
    for a in args:
        for x in scalars(I, a):
            I.event('call', x, fn['def'])
