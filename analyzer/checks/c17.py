"""Distinct generated types do not mix."""
from checks.common import *
import wit
import re
EXPLANATION = ('(1) Interface audit of the type-checked crates: every struct a type-generating macro defines is a nominal type of its own, and no operator, comparison, '
               'conversion, dereferencing or borrowing trait is implemented between two different generated types (a modular integer and its own canvas excepted), nor '
               'generically over the other operand. (2) Client programs that mix two generated types, one use each, are type-checked against the current tree: all must be '
               'refused, and their twins with matching types accepted. (3) Every public function of the example specifications is called with a wrong type in each '
               'parameter position that takes a generated type.')
RULE = 'no trait implementation and no function argument lets a value of one generated type stand for a value of another'
FLOOR = 15000
ASSUMPTIONS = ['explicit named conversions (from_seq, from_slice, from_array, from_canvas and the like) are not mixing']

# traits through which two types could meet in one operation
BINARY = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'AddAssign', 'SubAssign', 'MulAssign', 'DivAssign', 'RemAssign', 'BitAndAssign', 'BitOrAssign',
          'BitXorAssign', 'ShlAssign', 'ShrAssign', 'PartialEq', 'PartialOrd', 'From', 'Into', 'TryFrom', 'TryInto', 'AsRef', 'AsMut', 'Borrow', 'BorrowMut', 'Extend', 'FromIterator', 'Index', 'IndexMut',
          'Sum', 'Product'}
FORBIDDEN = {'Deref', 'DerefMut'}


def short(p):
    return re.sub(r'(?<!\w)(\w+)::\1::', r'\1::', p)


def t_impls(t):
    adts = {a['path']: [f[1] for f in a['fields']] for c in t.prog.survey for a in c['adts']}
    secrets = {'secret_integers::%s%d' % (a, n) for a in 'UI' for n in (8, 16, 32, 64, 128)}
    pat = re.compile('|'.join(re.escape(a) + r'(?![\w:])' for a in sorted(adts, key=len, reverse=True)))
    n = 0
    for c in t.prog.survey:
        for i in c['impls']:
            tr = i.get('trait')
            if not tr:
                continue
            last = tr.split('::')[-1]
            me = i['self']
            key = 'impl/%s<%s>for/%s' % (last, ','.join(short(a) for a in i.get('targs', [])), short(me))
            base = pat.findall(me)
            args = [x for a in i.get('targs', []) for x in pat.findall(a)]
            if last in FORBIDDEN and base:
                t.ok(key, False, 'a generated type dereferences to another type: impl %s for %s' % (tr, me))
                continue
            if last not in BINARY or not (base or args):
                continue
            n += 1
            bad = []
            for a in i.get('targs', []):
                if re.fullmatch(r"&?('\w+ )?[A-Z]\w{0,3}", a):
                    bad.append('any type %s' % a)       # generic over the other operand
            if base and base[0] not in secrets:
                own = set(base) | {f for f in adts.get(base[0], ()) if f in adts}
                el = [x for f in adts.get(base[0], ()) for x in pat.findall(f)]
                for x in args:
                    if x not in own and not (x in el and last in ('Index', 'IndexMut')):
                        bad.append(x)
            elif base:
                # secret machine integers: conversions between widths are the documented exception; operators are not
                bad += [x for x in args if x != base[0] and last not in ('From',)]
            elif args and re.match(r'^[A-Z]\w{0,3}$', me):
                bad.append('implemented for every type')
            else:
                # foreign or primitive self type: only explicit conversions of secret machine integers
                bad += [x for x in args if not (x in secrets and last == 'From')]
            t.ok(key, not bad, 'impl %s<%s> for %s relates it to %s' % (tr, ', '.join(i.get('targs', [])), me, ', '.join(bad)), i.get('ref', ''))
    t.count('implementations of binary, conversion and borrowing traits on workspace types', n)
    t.ok('impls/seen', n > 1500, 'only %d' % n)


def t_nominal(t):
    """the named types of the specifications are structures of their own, not aliases"""
    have = {a['path'] for c in t.prog.survey for a in c['adts']}
    for p in SPEC_TYPES:
        t.ok('nominal/' + p, any(re.sub(r'(?<!\w)(\w+)::\1::', r'\1::', h) == 'hacspec_examples::' + p for h in have), 'no structure of this name: it became an alias of another type or disappeared')


SPEC_TYPES = ['aes_gcm::aes::' + x for x in ('Block', 'Word', 'RoundKey', 'Nonce', 'Key128', 'Key256')] + \
             ['aes_gcm::gf128::' + x for x in ('Block', 'Key', 'Tag')] + ['blake2::blake2b::' + x for x in ('DigestB',)] + \
             ['chacha20_poly1305::chacha20::' + x for x in ('State', 'StateBytes', 'IV', 'Key')] + ['chacha20_poly1305::poly1305::' + x for x in ('Block', 'Tag', 'FieldElement')] + \
             ['curve25519::' + x for x in ('FieldElement', 'Scalar', 'SerializedPoint', 'SerializedScalar')] + ['fips202::' + x for x in ('State', 'Digest224', 'Digest256', 'Digest384', 'Digest512')] + \
             ['sha2::' + x for x in ('Block', 'Digest')] + ['hmac::PRK', 'hmac::Block', 'hkdf::PRK', 'p256::FieldElement', 'p256::Scalar']

PRELUDE = """
pub mod pre {
    pub use hacspec::prelude::*;
    pub use secret_integers::*;
    pub use abstract_integers::*;
    pub use hacspec_examples as ex;
    bytes!(BA, 16); bytes!(BB, 16); bytes!(BC, 17);
    public_bytes!(PA, 16); public_bytes!(PB, 16);
    array!(A32, 4, U32); array!(B32, 4, U32); array!(A64, 4, U64); array!(C32, 5, U32); array!(P32, 4, u32); array!(Q32, 4, u32); array!(P64, 4, u64);
    array!(SA, 4, U16); array!(SB, 4, U16); bytes!(SY, 16);
    both_arrays!(BothP, BothS, 4, U32, u32); both_bytes!(BoBP, BoBS, 16);
    generic_array!(GA, 4); generic_array!(GB, 4);
    nat_mod!(MA, MACanvas, 64, "ffffffffffffffc5"); nat_mod!(MB, MBCanvas, 64, "ffffffffffffffc5"); nat_mod!(MC, MCCanvas, 72, "01fffffffffffffffb");
    public_nat_mod!(PMA, PMACanvas, 64, "ffffffffffffffc5"); public_nat_mod!(PMB, PMBCanvas, 64, "ffffffffffffffc5");
    unsigned_integer!(UA, 64); unsigned_integer!(UB, 64); unsigned_integer!(UC, 72);
    unsigned_public_integer!(UPA, 64); unsigned_public_integer!(UPB, 64);
    signed_integer!(IA, 64); signed_integer!(IB, 64); signed_public_integer!(IPA, 64); signed_public_integer!(IPB, 64);
    define_refined_modular_integer!(RA, UPA, UPA::from_hex("ffffffffffffffc5"));
    define_refined_modular_integer!(RB, UPA, UPA::from_hex("ffffffffffffff43"));
    pub fn takes<T>(x: T) {}
    pub fn same<T>(x: T, y: T) {}
    pub fn converts<T: From<S>, S>() {}
    pub fn into_of<T: Into<S>, S>() {}
    pub fn equates<T: PartialEq<S>, S>() {}
    pub fn compares<T: PartialOrd<S>, S>() {}
    pub fn as_ref_of<T: AsRef<S>, S>() {}
    pub fn borrows_as<T: std::borrow::Borrow<S>, S>() {}
    pub fn derefs<T: std::ops::Deref>() {}
    pub fn sums<T: std::iter::Sum<S>, S>() {}
    pub fn indexes<T: std::ops::Index<S>, S>() {}
    pub fn mk<T>() -> T { loop {} }
}
"""
GROUPS = [
    # (types, operators)
    (['BA', 'BB', 'BC', 'PA', 'PB', 'SY', 'BoBP', 'BoBS', 'Seq<U8>', 'PublicSeq<u8>', 'SecretSeq<U8>', 'Seq<u8>', '[U8; 16]', '[u8; 16]'], 'array'),
    (['A32', 'B32', 'C32', 'A64', 'P32', 'Q32', 'P64', 'BothP', 'BothS', 'GA<U32>', 'GB<U32>', 'GA<U64>', 'Seq<U32>', 'SecretSeq<U32>'], 'array'),
    (['SA', 'SB', 'Seq<U16>', 'GA<U16>'], 'array'),
    (['MA', 'MB', 'MC', 'PMA', 'PMB', 'UA', 'UB', 'UC', 'UPA', 'UPB', 'IA', 'IB', 'IPA', 'IPB', 'RA', 'RB', 'MACanvas', 'MBCanvas', 'PMACanvas', 'U64', 'u64'], 'int'),
    (['ex::chacha20_poly1305::poly1305::FieldElement', 'ex::curve25519::FieldElement', 'ex::curve25519::Scalar', 'ex::p256::FieldElement', 'ex::p256::Scalar', 'PMA', 'UA'], 'int'),
    (['ex::' + x for x in SPEC_TYPES if x.split('::')[-1] in ('Block', 'Tag', 'Key', 'Key128', 'Key256', 'Nonce', 'IV', 'Digest', 'DigestB', 'PRK', 'RoundKey', 'StateBytes', 'SerializedPoint', 'SerializedScalar', 'Digest224', 'Digest256', 'Digest384', 'Digest512', 'Word')] + ['Seq<U8>', 'BA'], 'array'),
    (['U8', 'U16', 'U32', 'U64', 'U128', 'I8', 'I16', 'I32', 'I64', 'I128'], 'machine'),
]
OPS = (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('&', 'and'), ('|', 'or'), ('^', 'xor'))
FOREIGN = ('[', 'u64', 'U64')
# public functions of the specifications: path, parameter types; G(x) marks a generated type
CALLS = [
    ('ex::aes_gcm::aes::aes128_encrypt_block', ['ex::aes_gcm::aes::Key128', 'ex::aes_gcm::aes::Block']),
    ('ex::aes_gcm::aes::aes256_encrypt_block', ['ex::aes_gcm::aes::Key256', 'ex::aes_gcm::aes::Block']),
    ('ex::aes_gcm::aes::aes128_encrypt', ['ex::aes_gcm::aes::Key128', 'ex::aes_gcm::aes::Nonce', 'U32', '&Seq<U8>']),
    ('ex::aes_gcm::aes::aes128_decrypt', ['ex::aes_gcm::aes::Key128', 'ex::aes_gcm::aes::Nonce', 'U32', '&Seq<U8>']),
    ('ex::aes_gcm::aes::aes256_encrypt', ['ex::aes_gcm::aes::Key256', 'ex::aes_gcm::aes::Nonce', 'U32', '&Seq<U8>']),
    ('ex::aes_gcm::aes::aes256_decrypt', ['ex::aes_gcm::aes::Key256', 'ex::aes_gcm::aes::Nonce', 'U32', '&Seq<U8>']),
    ('ex::aes_gcm::encrypt_aes128', ['ex::aes_gcm::aes::Key128', 'ex::aes_gcm::aes::Nonce', '&Seq<U8>', '&Seq<U8>']),
    ('ex::aes_gcm::encrypt_aes256', ['ex::aes_gcm::aes::Key256', 'ex::aes_gcm::aes::Nonce', '&Seq<U8>', '&Seq<U8>']),
    ('ex::aes_gcm::decrypt_aes128', ['ex::aes_gcm::aes::Key128', 'ex::aes_gcm::aes::Nonce', '&Seq<U8>', '&Seq<U8>', 'ex::aes_gcm::gf128::Tag']),
    ('ex::aes_gcm::decrypt_aes256', ['ex::aes_gcm::aes::Key256', 'ex::aes_gcm::aes::Nonce', '&Seq<U8>', '&Seq<U8>', 'ex::aes_gcm::gf128::Tag']),
    ('ex::aes_gcm::gf128::gmac', ['&Seq<U8>', 'ex::aes_gcm::gf128::Key']),
    ('ex::blake2::blake2b::blake2b', ['&Seq<U8>']),
    ('ex::chacha20_poly1305::chacha20::chacha', ['ex::chacha20_poly1305::chacha20::Key', 'ex::chacha20_poly1305::chacha20::IV', '&Seq<U8>']),
    ('ex::chacha20_poly1305::chacha20::block', ['ex::chacha20_poly1305::chacha20::Key', 'U32', 'ex::chacha20_poly1305::chacha20::IV']),
    ('ex::chacha20_poly1305::encrypt', ['ex::chacha20_poly1305::chacha20::Key', 'ex::chacha20_poly1305::chacha20::IV', '&Seq<U8>', '&Seq<U8>']),
    ('ex::chacha20_poly1305::decrypt', ['ex::chacha20_poly1305::chacha20::Key', 'ex::chacha20_poly1305::chacha20::IV', '&Seq<U8>', '&Seq<U8>', 'ex::chacha20_poly1305::poly1305::Tag']),
    ('ex::chacha20_poly1305::poly1305::poly', ['&Seq<U8>', 'ex::chacha20_poly1305::chacha20::Key']),
    ('ex::chacha20_poly1305::poly1305::poly_mac', ['&Seq<U8>', 'ex::chacha20_poly1305::chacha20::Key', 'ex::chacha20_poly1305::chacha20::IV']),
    ('ex::curve25519::scalarmult', ['ex::curve25519::SerializedScalar', 'ex::curve25519::SerializedPoint']),
    ('ex::curve25519::secret_to_public', ['ex::curve25519::SerializedScalar']),
    ('ex::fips202::sha3224', ['&Seq<U8>']), ('ex::fips202::sha3256', ['&Seq<U8>']), ('ex::fips202::sha3384', ['&Seq<U8>']), ('ex::fips202::sha3512', ['&Seq<U8>']),
    ('ex::sha2::hash', ['&Seq<U8>']), ('ex::hkdf::extract', ['&Seq<U8>', '&Seq<U8>']), ('ex::hmac::hmac', ['&Seq<U8>', '&Seq<U8>']),
    ('ex::p256::point_mul', ['ex::p256::Scalar']),
]
MORE = {'ex::aes_gcm::aes::aes128_encrypt_block': 2, 'ex::aes_gcm::aes::aes256_encrypt_block': 2}
WRONG = {'secret': ['BA', 'Seq<U8>', 'ex::sha2::Digest', 'ex::chacha20_poly1305::chacha20::StateBytes', 'ex::aes_gcm::aes::RoundKey', '[U8; 32]', 'ex::aes_gcm::gf128::Block', 'ex::aes_gcm::aes::Block',
                    'ex::aes_gcm::gf128::Key', 'ex::chacha20_poly1305::chacha20::Key', 'ex::aes_gcm::aes::Key128', 'ex::aes_gcm::aes::Key256', 'ex::aes_gcm::aes::Nonce', 'ex::chacha20_poly1305::chacha20::IV',
                    'ex::aes_gcm::gf128::Tag', 'ex::chacha20_poly1305::poly1305::Tag', 'ex::curve25519::SerializedPoint', 'ex::curve25519::SerializedScalar', 'PA', 'ex::p256::Scalar', 'ex::curve25519::Scalar'],
         'ref': ['&Seq<u8>', '&BA', '&PublicSeq<u8>', '&SecretSeq<U8>', '&Seq<U32>', '&Vec<U8>', '&[U8]', 'Seq<U8>', '&ex::sha2::Digest']}


def OP_TWIN(A):
    # types without arithmetic: the twin uses one that has it
    return 'BA' if A.startswith(('Seq<', 'Bo')) else A


def witnesses(tier):
    ws = wit.Set()
    f = lambda args, body: 'pub fn w(%s) { %s }' % (args, body)
    for types, kind in GROUPS:
        for i, A in enumerate(types):
            for j, B in enumerate(types):
                if A == B or '%s~%s/arg' % (A, B) in ws.names:
                    continue
                k = '%s~%s/' % (A, B)
                own = A + 'Canvas' == B or B + 'Canvas' == A or (A, B) in (('RA', 'UPA'), ('RB', 'UPA'), ('U64', 'u64'), ('UPA', 'RA'), ('UPA', 'RB'))
                # substitution
                ws.add(k + 'arg', f('b: ' + B, 'takes::<%s>(b);' % A), f('b: ' + A, 'takes::<%s>(b);' % A))
                if i < j:
                    ws.add(k + 'same', f('a: %s, b: %s' % (A, B), 'same(a, b);'), f('a: %s, b: %s' % (A, A), 'same(a, b);'))
                    ws.add(k + 'array', f('a: %s, b: %s' % (A, B), 'let _ = [a, b];'), f('a: %s, b: %s' % (A, A), 'let _ = [a, b];'))
                ws.add(k + 'return', 'pub fn w(b: %s) -> %s { b }' % (B, A), 'pub fn w(b: %s) -> %s { b }' % (A, A))
                ws.add(k + 'ref', f('b: &' + B, 'takes::<&%s>(b);' % A), f('b: &' + A, 'takes::<&%s>(b);' % A))
                if A.startswith(FOREIGN[:2]) and kind != 'machine':
                    continue
                if not (A.startswith('[') or A.startswith('GA') or A.startswith('GB') or A in ('PublicSeq<u8>', 'SecretSeq<U8>', 'SecretSeq<U32>', 'Seq<u8>')):
                    for op, nm in OPS:
                        if nm in ('mul',) and kind == 'array' or A.startswith('ex::') and nm in ('mul',) and kind == 'array':
                            continue
                        if A.endswith('Canvas') or A in ('RA', 'RB') and nm in ('and', 'or', 'xor'):
                            continue
                        ws.add(k + nm, f('a: %s, b: %s' % (A, B), 'let _ = a %s b;' % op), f('a: %s, b: %s' % (OP_TWIN(A), OP_TWIN(A)), 'let _ = a %s b;' % op))
                ws.add(k + 'eq', f('', 'equates::<%s, %s>();' % (A, B)), f('', 'equates::<u8, u8>();'))
                ws.add(k + 'ord', f('', 'compares::<%s, %s>();' % (A, B)), f('', 'compares::<u8, u8>();'))
                if kind != 'machine' and not own:
                    ws.add(k + 'from', f('', 'converts::<%s, %s>();' % (A, B)), f('', 'converts::<%s, %s>();' % (A, A)))
                ws.add(k + 'as_ref', f('', 'as_ref_of::<%s, %s>();' % (A, B)), f('', 'as_ref_of::<Box<%s>, %s>();' % (A, A)))
                if tier == 'quick':
                    continue
                ws.add(k + 'borrow', f('', 'borrows_as::<%s, %s>();' % (A, B)), f('', 'borrows_as::<%s, %s>();' % (A, A)))
                ws.add(k + 'sum', f('', 'sums::<%s, %s>();' % (A, B)), f('', 'sums::<u8, u8>();'))
                ws.add(k + 'index', f('', 'indexes::<%s, %s>();' % (A, B)), f('', 'indexes::<Vec<u8>, usize>();'))
            if not A.startswith('['):
                if A + '/deref' not in ws.names:
                    ws.add(A + '/deref', f('', 'derefs::<%s>();' % A), f('', 'derefs::<Box<%s>>();' % A))
    for path, params in CALLS:
        tail = ['0'] * MORE.get(path, 0)
        tail = [', 10, 176'] if tail else []
        for i, P in enumerate(params):
            def call(Q):
                return f(', '.join('a%d: %s' % (n, Q if n == i else p) for n, p in enumerate(params)), 'let _ = %s(%s%s);' % (path, ', '.join('a%d' % n for n in range(len(params))), ''.join(tail)))
            for Q in WRONG['ref' if P.startswith('&') else 'secret'] + (['u32', 'U64', 'usize'] if P == 'U32' else []):
                if Q == P:
                    continue
                ws.add('%s/%d<-%s' % (path, i, Q), call(Q), call(P))
        # results are not interchangeable either
    for path, params, out, wrongs in (('ex::sha2::hash', ['&Seq<U8>'], 'ex::sha2::Digest', ['ex::fips202::Digest256', 'ex::hmac::PRK', 'Seq<U8>', 'BA']),
                                      ('ex::hmac::hmac', ['&Seq<U8>', '&Seq<U8>'], 'ex::hmac::PRK', ['ex::sha2::Digest', 'Seq<U8>']),
                                      ('ex::hkdf::extract', ['&Seq<U8>', '&Seq<U8>'], 'ex::hkdf::PRK', ['ex::hmac::PRK', 'ex::sha2::Digest', 'Seq<U8>']),
                                      ('ex::fips202::sha3256', ['&Seq<U8>'], 'ex::fips202::Digest256', ['ex::sha2::Digest', 'ex::fips202::Digest224', 'ex::fips202::Digest512']),
                                      ('ex::fips202::sha3512', ['&Seq<U8>'], 'ex::fips202::Digest512', ['ex::blake2::blake2b::DigestB', 'ex::fips202::Digest384']),
                                      ('ex::blake2::blake2b::blake2b', ['&Seq<U8>'], 'ex::blake2::blake2b::DigestB', ['ex::fips202::Digest512', 'Seq<U8>']),
                                      ('ex::aes_gcm::gf128::gmac', ['&Seq<U8>', 'ex::aes_gcm::gf128::Key'], 'ex::aes_gcm::gf128::Tag', ['ex::aes_gcm::gf128::Block', 'ex::chacha20_poly1305::poly1305::Tag']),
                                      ('ex::chacha20_poly1305::poly1305::poly', ['&Seq<U8>', 'ex::chacha20_poly1305::chacha20::Key'], 'ex::chacha20_poly1305::poly1305::Tag', ['ex::aes_gcm::gf128::Tag', 'BA']),
                                      ('ex::curve25519::secret_to_public', ['ex::curve25519::SerializedScalar'], 'ex::curve25519::SerializedPoint', ['ex::curve25519::SerializedScalar', 'ex::sha2::Digest'])):
        for Q in wrongs:
            def ret(R):
                return 'pub fn w(%s) -> %s { %s(%s) }' % (', '.join('a%d: %s' % (n, p) for n, p in enumerate(params)), R, path, ', '.join('a%d' % n for n in range(len(params))))
            ws.add('%s->%s' % (path, Q), ret(Q), ret(out))
    return ws


def t_wit(t):
    wit.decide(t, witnesses(t.tier), PRELUDE, 'witness')


def tasks(prog, tier):
    yield 'impls', t_impls, ()
    yield 'nominal', t_nominal, ()
    yield 'witnesses', t_wit, ()
