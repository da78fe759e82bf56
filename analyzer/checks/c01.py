"""Secret integers expose their value only through named declassification."""
from checks.common import *
import wit
import re
EXPLANATION = ('The interface of the type-checked crates is audited: every trait implementation that involves a secret integer, and every function or '
               'method with a secret-containing input and a public output, is compared with the closed list of documented declassifications; and a '
               'generated family of client programs, one forbidden operation each, is type-checked against the current tree (every one must be refused, '
               'and its twin, which classifies or declassifies explicitly, accepted). Functions that may return a length are shown independent of the '
               'contents by the taint analysis.')
RULE = ('no trait implementation, conversion, comparison, operator or function yields public data from secret integers except the documented declassifying '
        'operations; no division, remainder, ordering, hashing, indexing or dereferencing on secret scalars; no operator with a secret and a public operand')
FLOOR = 2500
ASSUMPTIONS = ['the public field `.0` of a secret integer, like `declassify`, is an explicit declassification']

W = (8, 16, 32, 64, 128)
SEC = ['secret_integers::%s%d' % (a, n) for a in 'UI' for n in W]
LIB = ('secret_integers', 'hacspec', 'abstract_integers', 'hacspec_examples', 'hacspec_dev', 'hsharness')
SELF_OPS = {'Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'AddAssign', 'SubAssign', 'MulAssign', 'BitAndAssign', 'BitOrAssign', 'BitXorAssign'}
PLAIN = {'core::clone::Clone', 'core::clone::TrivialClone', 'core::marker::Copy', 'core::default::Default', 'core::fmt::Debug', 'core::fmt::Display', 'core::fmt::LowerHex',
         'core::ops::Neg', 'core::ops::Not', 'core::ops::arith::Neg', 'core::ops::bit::Not'}
NUMERIC = {'Integer', 'ModNumeric', 'Numeric', 'NumericBase', 'SecretInteger', 'SignedInteger', 'UnsignedInteger', 'UnsignedSecretInteger'}
# operations documented as declassifying ("**Warning:** declassifies", "Declassification", or public by name)
DECLASSIFIES = {'declassify', 'declassify_eq', 'to_hex', 'fmt', 'equal', 'greater_than', 'greater_than_or_qual', 'less_than', 'less_than_or_equal',
                'leading_coefficient'}    # the degree of a polynomial is public by construction
# lengths and positions: public by construction, checked independent of the contents
LENGTHS = {'len', 'get_chunk', 'get_chunk_len', 'num_chunks', 'num_exact_chunks', 'is_empty', 'capacity'}
PUBW = {8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}


def short(p):
    return re.sub(r'(\w+)::\1::', r'\1::', p)


def bits(s):
    return int(re.search(r'\d+$', s).group())


def t_impls(t):
    """trait implementations on, or parameterised by, a secret integer"""
    secrets = set(SEC)
    n = 0
    for c in t.prog.survey:
        for i in c['impls']:
            me, tr, args = i['self'], i.get('trait'), i.get('targs', [])
            inv = me in secrets or any(a in secrets or a.lstrip('&').replace('mut ', '') in secrets for a in args) or re.sub(r"^&('\w+ )?(mut )?", '', me) in secrets
            if not inv:
                continue
            if tr is None:
                continue        # inherent methods: t_fns
            n += 1
            last = tr.split('::')[-1]
            key = 'impl/%s<%s>for/%s' % (last, ','.join(short(a) for a in args), short(me))
            good = False
            if me in secrets:
                if tr in PLAIN:
                    good = not args
                elif last in SELF_OPS:
                    good = not args or args == [me]
                elif last in ('Shl', 'Shr', 'ShlAssign', 'ShrAssign'):
                    good = args == ['u32']
                elif last == 'From':
                    # classification of public integers, or conversion between secret integers
                    a = args[0] if args else ''
                    good = a in secrets or re.fullmatch(r'[ui](8|16|32|64|128)|usize', a) is not None
                elif tr.startswith('hacspec::traits::'):
                    good = last in NUMERIC and all(x in secrets for x in args)
            elif re.fullmatch(r'[ui](8|16|32|64|128)|usize', me):
                # explicit conversion into a public machine integer
                good = last == 'From' and len(args) == 1 and args[0] in secrets
            else:
                # containers of secret integers
                good = last in ('SeqTrait', 'HasIV') and len(args) == 1
            t.ok(key, good, 'trait implementation outside the closed list: impl %s<%s> for %s' % (tr, ', '.join(args), me), i.get('ref', ''))
    t.count('trait implementations involving a secret integer', n)


def t_bounded(t):
    """trait implementations of the secret bounded and modular integers that the macros generate"""
    adts = {a['path']: [f[1] for f in a['fields']] for c in t.prog.survey for a in c['adts']}
    n = 0
    for c in t.prog.survey:
        for i in c['impls']:
            me = i['self']
            if me.split('::')[-1] not in BOUNDED or not i.get('trait') or '::abs::' not in me:
                continue
            n += 1
            tr, args = i['trait'], i.get('targs', [])
            last = tr.split('::')[-1]
            canvas = [f for f in adts.get(me, ()) if f in adts]
            if last in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor'):
                good = args in ([], [me])
            elif last in ('Shl', 'Shr'):
                good = args == ['u32']
            elif last in ('From', 'Into'):
                good = len(args) == 1 and (args[0].split('::')[-1] in ('BigInt', 'BigUint') or args[0] in canvas)
            else:
                good = last in ('Clone', 'TrivialClone', 'Copy', 'Default', 'Debug', 'Display', 'Not', 'Neg') or tr.startswith('hacspec::traits::') and last in NUMERIC
            t.ok('bounded/%s/%s<%s>' % (short(me), last, ','.join(args)), good, 'trait implementation outside the closed list: impl %s<%s> for %s' % (tr, ', '.join(args), me))
    t.count('trait implementations of generated secret bounded integers', n)
    t.ok('bounded/seen', n >= 100, 'only %d' % n)


BOUNDED = {'US64', 'US12', 'SS64', 'NMS', 'HUS', 'HSS', 'HNM'}


def secret_types(prog):
    """type constructors that (may) contain a secret integer, by least fixpoint over field types"""
    adts = {}
    for c in prog.survey:
        for a in c['adts']:
            adts[a['path']] = [f[1] for f in a['fields']]
    sec = set(SEC)
    grew = True
    while grew:
        grew = False
        pat = re.compile('|'.join(re.escape(x) + r'(?![\w:])' for x in sorted(sec)))
        for p, fs in adts.items():
            if p not in sec and any(pat.search(f) for f in fs):
                sec.add(p)
                grew = True
    return adts, sec


PUB = re.compile(r'(?<![\w:])(bool|char|str|[ui](?:8|16|32|64|128)|usize|isize|f32|f64)(?![\w:])|String|BigInt|BigUint|cmp::Ordering')


def t_fns(t):
    """functions and methods a client can call, with a secret-containing input and a public output"""
    adts, sec = secret_types(t.prog)
    generic = re.compile(r'(?<![\w:])(Self|T|A|B|U|S)(?![\w:])')
    spat = re.compile('|'.join(re.escape(x) + r'(?![\w:])' for x in sorted(sec)))
    aliases = {'hacspec::prelude::ByteSeq': 'hacspec::seq::Seq<secret_integers::U8>'}
    n = m = 0
    # traits implemented by some secret-containing or generic type: there, `Self` may be secret
    strait = set()
    for c in t.prog.survey:
        for i in c['impls']:
            if i.get('trait') and (spat.search(i['self']) or generic.search(i['self'])):
                strait.add(i['trait'])
    for c in t.prog.survey:
        for f in c['fns']:
            if not (f['pub'] or f.get('of_trait') or 'in_trait' in f):
                continue
            if c['name'] == 'hsharness' and not f.get('self') and not f.get('of_trait'):
                continue
            ins = [aliases.get(x, x) for x in f['ins']]
            # a generic library type is secret whenever it can be instantiated with secret integers
            public_trait = 'in_trait' in f and f['in_trait'] not in strait

            def is_sec(x):
                if public_trait and generic.search(x):
                    return False
                return bool(spat.search(x)) or bool(generic.search(x) and not PUB.search(x))
            if not any(is_sec(x) for x in ins):
                continue
            n += 1
            out = f['out']
            leak = []
            # error reports: their text is constant (C16); their presence is the documented outcome of the operation
            res = re.sub(r"Result<(.*), ((std|alloc)::string::String|&'static str)>", r'\1', out)
            res = re.sub(r' as [\w:]+<u32>>::Output', '', res)
            if PUB.search(spat.sub('', res)):
                leak.append('returns ' + out)
            if 'PublicVersion' in out:
                leak.append('returns ' + out)
            if 'fmt::Result' in out or 'fmt::Formatter' in ''.join(ins):
                leak.append('formats')
            for x in ins:
                if re.match(r"&('\w+ )?mut ", x) and PUB.search(x) and not spat.search(x):
                    leak.append('writes to ' + x)
            name = f['name']
            tr = (f.get('trait') or f.get('in_trait') or '').split('::')[-1]
            where = short(f['path'])
            if not leak:
                continue
            m += 1
            ok = name in DECLASSIFIES or name in LENGTHS
            slf = f.get('self') or f.get('in_trait') or ''
            if name == 'fmt':
                ok = tr in ('Debug', 'Display', 'LowerHex')
            elif name == 'from':
                ok = slf in PUBW.values() or slf in ('usize',) or re.fullmatch(r'i(8|16|32|64|128)', slf) is not None
            elif name == 'eq':
                # equality of whole arrays and sequences
                ok = tr == 'PartialEq' and slf not in SEC
            elif name in LENGTHS:
                ok = all(x in ('usize', 'bool') for x in PUB.findall(spat.sub('', res)))
            t.ok('fn/' + where, ok, 'a function outside the documented declassifications turns secret data into public data: %s (%s -> %s)' % (
                '; '.join(leak), ', '.join(ins), out), where)
    t.count('callable functions with a secret-containing input', n)
    t.count('of these, functions with a public output', m)




def outer(path):
    return re.sub(r'(::\{closure#\d+\})+$', '', path)


FMT = re.compile(r'fmt::rt::Argument|core::fmt::(Debug|Display|LowerHex|UpperHex|Octal|Binary|LowerExp|UpperExp|Pointer)::fmt$|::to_string$|core::panicking::assert_failed'
                 r'|debug_(struct|tuple|list|map|set)|Debug(Struct|Tuple|List|Map|Set)::')


def t_text(t):
    """secret data reaches text only through the formatting and hex export functions themselves"""
    adts, sec = secret_types(t.prog)
    spat = re.compile('|'.join(re.escape(x) + r'(?![\w:])' for x in sorted(sec)))
    generic = re.compile(r'(?<![\w:])(Self|T)(?![\w:])')
    n = 0
    for c in t.prog.survey:
        if c['name'] == 'hsharness':
            skip = lambda p: not p.split('::')[-1] in ('fmt', 'to_hex') and '<impl' not in p and p.count('::') <= 3
        else:
            skip = lambda p: False
        for b in c['bodies']:
            for path, args, loc in b.get('tcalls', ()):
                if not (FMT.search(path) or re.search(r'result::Result::<T, E>::(unwrap|expect)(_err)?$', path)):
                    continue
                if 'Result' in path:
                    args = args[:1] if path.endswith('_err') else args[1:]
                n += 1
                if not any(spat.search(a) or generic.search(a) for a in args):
                    continue
                f = outer(b['path'])
                if skip(f):
                    continue
                good = f.split('::')[-1] in ('fmt', 'to_hex')
                t.ok('text/%s/%s' % (short(f), path.split('::')[-1]), good, 'formats secret data (%s) outside Debug, Display, LowerHex and to_hex: %s' % (', '.join(args), path), loc)
    t.count('formatting call sites examined', n)
    t.ok('text/control', n >= 100, 'only %d formatting call sites seen' % n)


def t_lengths(t):
    """the public lengths of containers are the same for all contents"""
    from checks.seqs import ARR, SEQ
    for A, w, n in ARR + [(x, w, 6) for x, w in SEQ]:
        m = 'arr::%s::' % A
        for f, rest in (('len', []), ('num_chunks', [2]), ('get_chunk_len', [2, 1]), ('get_chunk', [2, 1])):
            if m + f not in t.prog.roots:
                continue
            r = t.run(m + f, [V('x', n, w)] + rest, 'length/%s/%s' % (A, f), taint=True)
            if r is None:
                continue
            l = leaves(r.value)
            t.ok('length/%s/%s' % (A, f), bool(l) and type(l[0]) is int and not any(e.kind == 'branch' and support([e.guard]) for e in r.I.events),
                 'the length is computed from the contents')


PRELUDE = """
pub mod pre {
    pub use hacspec::prelude::*;
    pub use secret_integers::*;
    pub use hacspec_examples as ex;
    unsigned_integer!(BUS, 64);
    unsigned_public_integer!(BUP, 64);
    signed_integer!(BSS, 64);
    signed_public_integer!(BSP, 64);
    nat_mod!(NMS, NMSCanvas, 64, "ffffffffffffffc5");
    public_nat_mod!(NMP, NMPCanvas, 64, "ffffffffffffffc5");
    array!(SArr, 4, U32);
    bytes!(SB, 8);
    public_bytes!(PB, 8);
    array!(PArr, 4, u32);
    pub fn hashes<T: std::hash::Hash>() {}
    pub fn orders<T: Ord>() {}
    pub fn porders<T: PartialOrd>() {}
    pub fn equates<T: PartialEq>() {}
    pub fn equals_totally<T: Eq>() {}
    pub fn equates_with<T: PartialEq<S>, S>() {}
    pub fn derefs<T: std::ops::Deref>() {}
    pub fn as_ref_of<T: AsRef<S>, S: ?Sized>() {}
    pub fn borrows_as<T: std::borrow::Borrow<S>, S: ?Sized>() {}
    pub fn into_of<T: Into<S>, S>() {}
    pub fn from_of<T: From<S>, S>() {}
    pub fn indexes<T: std::ops::Index<S> + ?Sized, S>() {}
    pub fn upper_hex<T: std::fmt::UpperHex>() {}
    pub fn binary<T: std::fmt::Binary>() {}
    pub fn octal<T: std::fmt::Octal>() {}
    pub fn lower_exp<T: std::fmt::LowerExp>() {}
    pub fn pointer<T: std::fmt::Pointer>() {}
    pub fn divides<T: std::ops::Div<S>, S>() {}
    pub fn rems<T: std::ops::Rem<S>, S>() {}
    pub fn sums<T: std::iter::Sum<S>, S>() {}
    pub fn parses<T: std::str::FromStr>() {}
    pub fn shl_by<T: std::ops::Shl<S>, S>() {}
    pub fn shr_by<T: std::ops::Shr<S>, S>() {}
    pub fn adds<T: std::ops::Add<S>, S>() {}
    pub fn subs<T: std::ops::Sub<S>, S>() {}
    pub fn muls<T: std::ops::Mul<S>, S>() {}
    pub fn ands<T: std::ops::BitAnd<S>, S>() {}
    pub fn ors<T: std::ops::BitOr<S>, S>() {}
    pub fn xors<T: std::ops::BitXor<S>, S>() {}
    pub fn add_assigns<T: std::ops::AddAssign<S>, S>() {}
    pub fn sub_assigns<T: std::ops::SubAssign<S>, S>() {}
    pub fn mul_assigns<T: std::ops::MulAssign<S>, S>() {}
    pub fn and_assigns<T: std::ops::BitAndAssign<S>, S>() {}
    pub fn or_assigns<T: std::ops::BitOrAssign<S>, S>() {}
    pub fn xor_assigns<T: std::ops::BitXorAssign<S>, S>() {}
    pub fn div_assigns<T: std::ops::DivAssign<S>, S>() {}
    pub fn rem_assigns<T: std::ops::RemAssign<S>, S>() {}
    pub fn iterates<T: Iterator>() {}
    pub fn ranges<T>() where std::ops::Range<T>: Iterator {}
    pub fn takes_public_seq<T: PublicInteger>(x: PublicSeq<T>) {}
    pub fn public<T: PublicInteger>() {}
    pub fn secret<T: SecretInteger>() {}
    pub fn copies<T: Copy>() {}
}
"""


def witnesses():
    ws = wit.Set()
    f = lambda args, body: 'pub fn w(%s) { %s }' % (args, body)

    def bound(name, call, T, P):
        """the bound holds of the public type and not of the secret one"""
        ws.add(name, f('', call % T), f('', call % P))
    for w in W:
        for S, P in (('U', 'u'), ('I', 'i')):
            T, p = '%s%d' % (S, w), '%s%d' % (P, w)
            k = T + '/'
            ab, pq = 'a: %s, b: %s' % (T, T), 'a: %s, b: %s' % (p, p)
            # comparisons, control flow, division
            for op, nm in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
                ws.add(k + nm, f(ab, 'let _ = a %s b;' % op), f(ab, 'let _ = a.declassify() %s b.declassify();' % op))
            for op, nm in (('/', 'div'), ('%', 'rem')):
                ws.add(k + nm, f(ab, 'let _ = a %s b;' % op), f(ab, 'let _ = a.declassify() %s b.declassify();' % op))
                ws.add(k + nm + '_assign', f('mut ' + ab, 'a %s= b;' % op), f('mut ' + pq, 'a %s= b;' % op))
            ws.add(k + 'if', f('a: ' + T, 'if a { }'), f('a: ' + T, 'if a.declassify() == 1 { }'))
            ws.add(k + 'while', f('a: ' + T, 'while a { }'), f('a: ' + T, 'while a.declassify() == 1 { }'))
            ws.add(k + 'match', f('a: ' + T, 'match a { 0 => {} _ => {} }'), f('a: ' + T, 'match a.declassify() { 0 => {} _ => {} }'))
            ws.add(k + 'assert', f('a: ' + T, 'assert!(a);'), f('a: ' + T, 'assert!(a.declassify() == 1);'))
            ws.add(k + 'assert_eq', f(ab, 'assert_eq!(a, b);'), f(pq, 'assert_eq!(a, b);'))
            # casts and implicit conversions
            for q in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i64', 'f64', 'bool', 'char'):
                if q in ('bool', 'char'):
                    ws.add(k + 'as_' + q, f('a: ' + T, 'let _ = a as %s;' % q), f('a: ' + T, 'let _ = a.declassify() as u8 as char;'))
                    ws.add(k + 'into_' + q, f('', 'into_of::<%s, %s>();' % (T, q)), f('', 'into_of::<u8, char>();'))
                else:
                    ws.add(k + 'as_' + q, f('a: ' + T, 'let _ = a as %s;' % q), f('a: ' + T, 'let _ = a.declassify() as %s;' % q))
            ws.add(k + 'implicit_in', f('', 'let _: %s = 1%s;' % (T, p)), f('', 'let _: %s = %s::classify(1%s);' % (T, T, p)))
            ws.add(k + 'implicit_out', f('a: ' + T, 'let _: %s = a;' % p), f('a: ' + T, 'let _: %s = a.declassify();' % p))
            ws.add(k + 'implicit_ref', f('a: &' + T, 'let _: &%s = a;' % p), f('a: &' + T, 'let _: &%s = &a.declassify();' % p))
            ws.add(k + 'literal', f('', 'let _: %s = 1;' % T), f('', 'let _: %s = %s(1);' % (T, T)))
            ws.add(k + 'array_of_public', f('a: [%s; 2]' % T, 'let _: [%s; 2] = a;' % p), f('a: [%s; 2]' % T, 'let _: [%s; 2] = a;' % T))
            ws.add(k + 'vec_of_public', f('a: Vec<%s>' % T, 'let _: Vec<%s> = a;' % p), f('a: Vec<%s>' % T, 'let _: Vec<%s> = a;' % T))
            # use as an index, a length, a range, a shift distance
            us = 'usize::from' if T in ('U8', 'U64', 'U128') else None
            for c, decl in (('slice', 's: &[u8]'), ('vec', 's: &Vec<u8>'), ('seq', 's: &Seq<U8>'), ('pseq', 's: &PublicSeq<u8>'), ('sarr', 's: &SArr'), ('sbytes', 's: &SB'), ('pbytes', 's: &PB'), ('array', 's: &[u8; 4]')):
                ws.add(k + 'index_' + c, f(decl + ', a: ' + T, 'let _ = &s[a];'), f(decl + ', a: ' + T, 'let _ = &s[a.declassify() as usize];'))
                if c not in ('slice', 'pseq', 'array'):
                    ws.add(k + 'index_mut_' + c, f(decl.replace('&', '&mut ') + ', a: ' + T, 'let _ = &mut s[a];'), f(decl.replace('&', '&mut ') + ', a: ' + T, 'let _ = &mut s[a.declassify() as usize];'))
            ws.add(k + 'seq_new', f('a: ' + T, 'let _: Seq<U8> = Seq::new(a);'), f('a: ' + T, 'let _: Seq<U8> = Seq::new(a.declassify() as usize);'))
            ws.add(k + 'seq_sub', f('s: &Seq<U8>, a: ' + T, 'let _ = s.sub(a, 1);'), f('s: &Seq<U8>, a: ' + T, 'let _ = s.sub(a.declassify() as usize, 1);'))
            bound(k + 'range', 'ranges::<%s>();', T, p)
            for op, nm in (('<<', 'shl'), ('>>', 'shr')):
                ws.add(k + nm + '_secret', f(ab, 'let _ = a %s b;' % op), f(ab, 'let _ = a %s (b.declassify() as u32);' % op))
                ws.add(k + 'public_' + nm + '_secret', f('a: %s, b: %s' % (p, T), 'let _ = a %s b;' % op), f('a: %s, b: %s' % (p, T), 'let _ = a %s (b.declassify() as u32);' % op))
            for nm in ('rotate_left', 'rotate_right'):
                ws.add(k + nm + '_secret', f('a: %s, b: U32' % T, 'let _ = a.%s(b);' % nm), f('a: %s, b: U32' % T, 'let _ = a.%s(b.declassify());' % nm))
            # operators with one public operand, either side
            for nm in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                for q in (p, 'usize', 'bool'):
                    ws.add('%s%ss_%s' % (k, nm, q), f('', '%ss::<%s, %s>();' % (nm, T, q)), f('', '%ss::<%s, %s>();' % (nm, T, T)))
                    ws.add('%s%s_from_%s' % (k, nm, q), f('', '%ss::<%s, %s>();' % (nm, q, T)), f('', '%ss::<%s, %s>();' % (nm, T, T)))
                ws.add('%s%s_assign_public' % (k, nm), f('', '%s_assigns::<%s, %s>();' % (nm, T, p)), f('', '%s_assigns::<%s, %s>();' % (nm, T, T)))
                ws.add('%spublic_%s_assign' % (k, nm), f('', '%s_assigns::<%s, %s>();' % (nm, p, T)), f('', '%s_assigns::<%s, %s>();' % (nm, T, T)))
            for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('&', 'and'), ('|', 'or'), ('^', 'xor')):
                ws.add('%s%s_literal' % (k, nm), f('a: ' + T, 'let _ = a %s 1;' % op), f('a: ' + T, 'let _ = a %s %s(1);' % (op, T)))
            # traits that observe the value
            for nm, call in (('hash', 'hashes::<%s>();'), ('ord', 'orders::<%s>();'), ('partial_ord', 'porders::<%s>();'), ('partial_eq', 'equates::<%s>();'), ('total_eq', 'equals_totally::<%s>();'),
                             ('upper_hex', 'upper_hex::<%s>();'), ('binary', 'binary::<%s>();'), ('octal', 'octal::<%s>();'), ('lower_exp', 'lower_exp::<%s>();'), ('from_str', 'parses::<%s>();'),
                             ('div_trait', 'divides::<%s, _>();'), ('rem_trait', 'rems::<%s, _>();')):
                if '_>' in call:
                    call = call.replace('_>', '%s>')
                    ws.add(k + nm, f('', call % (T, T)), f('', call % (p, p)))
                else:
                    bound(k + nm, call, T, p)
            ws.add(k + 'eq_public', f('', 'equates_with::<%s, %s>();' % (T, p)), f('', 'equates_with::<%s, %s>();' % (p, p)))
            ws.add(k + 'public_eq', f('', 'equates_with::<%s, %s>();' % (p, T)), f('', 'equates_with::<%s, %s>();' % (p, p)))
            ws.add(k + 'deref', f('', 'derefs::<%s>();' % T), f('', 'derefs::<Box<%s>>();' % T))
            ws.add(k + 'as_ref', f('', 'as_ref_of::<%s, %s>();' % (T, p)), f('', 'as_ref_of::<Box<%s>, %s>();' % (p, p)))
            ws.add(k + 'as_ref_bytes', f('', 'as_ref_of::<%s, [u8]>();' % T), f('', 'as_ref_of::<Vec<u8>, [u8]>();'))
            ws.add(k + 'borrow', f('', 'borrows_as::<%s, %s>();' % (T, p)), f('', 'borrows_as::<%s, %s>();' % (p, p)))
            ws.add(k + 'div_public', f('', 'divides::<%s, %s>();' % (T, p)), f('', 'divides::<%s, %s>();' % (p, p)))
            ws.add(k + 'public_div', f('', 'divides::<%s, %s>();' % (p, T)), f('', 'divides::<%s, %s>();' % (p, p)))
            ws.add(k + 'sum_public', f('', 'sums::<%s, %s>();' % (p, T)), f('', 'sums::<%s, %s>();' % (p, p)))
            bound(k + 'public_integer', 'public::<%s>();', T, p)
            ws.add(k + 'public_is_secret', f('', 'secret::<%s>();' % p), f('', 'secret::<%s>();' % T))
            ws.add(k + 'public_seq', f('x: PublicSeq<%s>' % T, 'takes_public_seq(x);'), f('x: PublicSeq<%s>' % p, 'takes_public_seq(x);'))
            # value-dependent standard methods
            for nm in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros', 'to_string_radix', 'is_power_of_two', 'abs_diff', 'checked_div', 'overflowing_add', 'wrapping_div', 'signum',
                       'is_negative', 'pow_checked', 'checked_rem', 'saturating_add', 'isqrt', 'ilog2', 'cmp', 'partial_cmp', 'max', 'min', 'clamp', 'eq', 'lt', 'hash'):
                if nm in ('to_string_radix', 'pow_checked'):
                    continue
                arity = {'leading_zeros': 0, 'trailing_zeros': 0, 'count_ones': 0, 'count_zeros': 0, 'is_power_of_two': 0, 'signum': 0, 'is_negative': 0, 'isqrt': 0, 'ilog2': 0, 'clamp': 2}.get(nm, 1)
                if nm == 'is_power_of_two' and S == 'I' or nm in ('signum', 'is_negative') and S == 'U' or nm in ('max', 'min', 'hash') or nm == 'clamp':
                    continue
                arg = '' if arity == 0 else '&b' if nm in ('cmp', 'partial_cmp', 'eq', 'lt') else 'b'
                ws.add(k + 'm_' + nm, f(ab, 'let _ = a.%s(%s);' % (nm, arg)), f(pq, 'let _ = a.%s(%s);' % (nm, arg)))
    # secret bounded and modular integers
    for T, P in (('BUS', 'BUP'), ('BSS', 'BSP'), ('NMS', 'NMP')):
        k = T + '/'
        for op, nm in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('/', 'div'), ('%', 'rem')):
            ws.add(k + nm, f('a: %s, b: %s' % (T, T), 'let _ = a %s b;' % op), f('a: %s, b: %s' % (P, P), 'let _ = a %s b;' % op))
        for nm, call in (('partial_ord', 'porders::<%s>();'), ('partial_eq', 'equates::<%s>();')) + (() if T == 'NMS' else (('ord', 'orders::<%s>();'), ('total_eq', 'equals_totally::<%s>();'))):
            bound(k + nm, call, T, P)
        bound(k + 'hash', 'hashes::<%s>();', T, 'u64')
        ws.add(k + 'index', f('s: &[u8], a: ' + T, 'let _ = s[a];'), f('s: &[u8], a: usize', 'let _ = s[a];'))
        ws.add(k + 'if', f('a: ' + T, 'if a { }'), f('a: ' + P, 'if a == a { }'))
        ws.add(k + 'as_ref', f('', 'as_ref_of::<%s, [u8]>();' % T), f('', 'as_ref_of::<Vec<u8>, [u8]>();'))
        ws.add(k + 'deref', f('', 'derefs::<%s>();' % T), f('', 'derefs::<Box<%s>>();' % T))
        for q in ('u64', 'u128', 'usize', 'bool', 'String'):
            ws.add(k + 'into_' + q, f('', 'into_of::<%s, %s>();' % (T, q)), f('', 'into_of::<%s, %s>();' % (q, q)))
        ws.add(k + 'mixed', f('a: %s, b: %s' % (T, P), 'let _ = a + b;'), f('a: %s, b: %s' % (T, T), 'let _ = a + b;'))
        ws.add(k + 'shl_secret', f('a: %s, b: %s' % (T, T), 'let _ = a << b;'), f('a: %s, b: u32' % T, 'let _ = a << b;'))
        # containers of secrets
    for C, P in (('Seq<U8>', 'Vec<u8>'), ('SecretSeq<U8>', 'Vec<u8>'), ('SArr', '[u32; 4]'), ('SB', '[u8; 8]'), ('ByteSeq', 'Vec<u8>'), ('ex::aes_gcm::gf128::Tag', '[u8; 16]'),
                 ('ex::chacha20_poly1305::chacha20::Key', '[u8; 32]'), ('ex::sha2::Digest', '[u8; 32]')):
        k = C + '/'
        for nm, call in (('hash', 'hashes::<%s>();'), ('ord', 'orders::<%s>();'), ('partial_ord', 'porders::<%s>();'), ('total_eq', 'equals_totally::<%s>();')):
            bound(k + nm, call, C, P)
        ws.add(k + 'as_ref', f('', 'as_ref_of::<%s, [u8]>();' % C), f('', 'as_ref_of::<Vec<u8>, [u8]>();'))
        ws.add(k + 'deref', f('', 'derefs::<%s>();' % C), f('', 'derefs::<Box<%s>>();' % C))
        ws.add(k + 'into_vec', f('', 'into_of::<%s, Vec<u8>>();' % C), f('', 'into_of::<Vec<u8>, Vec<u8>>();'))
        ws.add(k + 'into_string', f('', 'into_of::<%s, String>();' % C), f('', 'into_of::<&str, String>();'))
        ws.add(k + 'display', f('x: %s' % C, 'let _ = format!("{}", x);'), f('x: %s' % C, 'let _ = format!("{:?}", x);'))
        ws.add(k + 'element_bool', f('x: %s' % C, 'if x[0usize] { }'), f('x: %s' % C, 'if x[0usize].declassify() == 0 { }'))
        ws.add(k + 'element_eq', f('x: %s' % C, 'let _ = x[0usize] == x[1usize];'), f('x: %s' % C, 'let _ = x[0usize].declassify() == x[1usize].declassify();'))
        ws.add(k + 'element_out', f('x: %s' % C, 'let _: u8 = x[0usize];'), f('x: %s' % C, 'let _: u8 = x[0usize].declassify() as u8;'))
    return ws


def t_wit(t):
    wit.decide(t, witnesses(), PRELUDE, 'witness')


def tasks(prog, tier):
    yield 'impls', t_impls, ()
    yield 'fns', t_fns, ()
    yield 'bounded', t_bounded, ()
    yield 'text', t_text, ()
    yield 'lengths', t_lengths, ()
    yield 'witnesses', t_wit, ()
