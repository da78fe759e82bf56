S = SEEDS = []


def seed(id, prop, needs, breaks, edits, main):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main))


CP = 'spec-examples/src/chacha20_poly1305/'
AE = 'spec-examples/src/aes_gcm/'
SI = 'secret-integers/src/lib.rs'
MI = 'hacspec/src/machine_integers.rs'
TR = 'hacspec/src/traits.rs'
AR = 'hacspec/src/array.rs'
SQ = 'hacspec/src/seq.rs'

seed('gcm-tag-prefix', 'C03', 'a tag that differs from the right one in its last four bytes only',
     'AES-GCM decryption compares only the first 12 bytes of the tag.',
     [(AE + 'aesgcm.rs', 'if my_tag.declassify_eq(&Block::from_seq(&tag)) {',
       'let given = Block::from_seq(&tag);\n    if ByteSeq::from_sub(&my_tag, 0, 12) == ByteSeq::from_sub(&given, 0, 12) {')],
     '''
use hacspec_examples::aes_gcm::{self, aes, gf128};
fn main() {
    let key = aes::Key128::from_public_slice(&[7u8; 16]);
    let iv = aes::Nonce::from_public_slice(&[9u8; 12]);
    let aad = ByteSeq::from_public_slice(&[1, 2, 3]);
    let msg = ByteSeq::from_public_slice(&[5u8; 20]);
    let (c, t) = aes_gcm::encrypt_aes128(key, iv, &aad, &msg);
    for i in 0..16 {
        let mut bad = t;
        bad[i] = bad[i] ^ U8(1);
        assert!(aes_gcm::decrypt_aes128(key, iv, &aad, &c, bad).is_err(), "tag byte {}", i);
    }
    assert!(aes_gcm::decrypt_aes128(key, iv, &aad, &c, t).is_ok());
}
''')
seed('cp-empty-ciphertext', 'C03', 'an empty ciphertext',
     'ChaCha20-Poly1305 decryption accepts any tag when there is no ciphertext.',
     [(CP + 'chacha20poly1305.rs', 'if my_tag == tag {', 'if cipher_text.len() == 0 || my_tag == tag {')],
     '''
use hacspec_examples::chacha20_poly1305::{self as cp, chacha20, poly1305};
fn main() {
    let key = chacha20::Key::from_public_slice(&[7u8; 32]);
    let iv = chacha20::IV::from_public_slice(&[9u8; 12]);
    let aad = ByteSeq::from_public_slice(&[1, 2, 3]);
    let e = ByteSeq::new(0);
    let (c, t) = cp::encrypt(key, iv, &aad, &e).unwrap();
    assert!(cp::decrypt(key, iv, &aad, &c, t).is_ok());
    let other = poly1305::Tag::new();
    assert!(cp::decrypt(key, iv, &aad, &c, other).is_err());
}
''')
seed('cp-pad-32', 'C04', 'an associated data length that is 16 modulo 32',
     'The associated data of an odd number of full blocks is padded with an extra block of zeroes.',
     [(CP + 'chacha20poly1305.rs', 'let pad_aad = if laad % 16 == 0 {', 'let pad_aad = if laad % 32 == 0 {')],
     '''
use hacspec_examples::chacha20_poly1305::{self as cp, chacha20, poly1305};
fn main() {
    let key = chacha20::Key::from_public_slice(&[7u8; 32]);
    let iv = chacha20::IV::from_public_slice(&[9u8; 12]);
    for n in [0usize, 5, 16, 32, 48].iter() {
        let aad = ByteSeq::from_public_slice(&vec![3u8; *n]);
        let msg = ByteSeq::from_public_slice(&[5u8; 20]);
        let (c, t) = cp::encrypt(key, iv, &aad, &msg).unwrap();
        let pad = (16 - n % 16) % 16;
        let mut m = vec![3u8; *n];
        m.extend(vec![0u8; pad]);
        for i in 0..20 { m.push(U8::declassify(c[i])); }
        m.extend(vec![0u8; 12]);
        m.extend((*n as u64).to_le_bytes().iter());
        m.extend(20u64.to_le_bytes().iter());
        let want = poly1305::poly_mac(&ByteSeq::from_public_slice(&m), key, iv);
        assert!(want == t, "associated data of {} bytes", n);
    }
}
''')
seed('gcm-len-u32', 'C04', 'associated data of at least 8192 bytes (65536 bits)',
     'The bit length of the associated data is truncated to 16 bits in the last GHASH block.',
     [(AE + 'aesgcm.rs', '&U64_to_be_bytes(U64(laad as u64) * U64(8)),', '&U64_to_be_bytes(U64((laad * 8) as u16 as u64)),')],
     '''
use hacspec_examples::aes_gcm::{self, aes, gf128};
fn main() {
    // The tag is GHASH(H, aad || pad || c || pad || lengths) xor E(J0): rebuilt here from the public pieces.
    let key = aes::Key128::from_public_slice(&[7u8; 16]);
    let iv = aes::Nonce::from_public_slice(&[9u8; 12]);
    let n = 8192usize;
    let aad = ByteSeq::from_public_slice(&vec![3u8; n]);
    let msg = ByteSeq::new(0);
    let (_, t) = aes_gcm::encrypt_aes128(key, iv, &aad, &msg);
    let h = aes::aes128_encrypt_block(key, aes::Block::new(), 4, 10);
    let mut j0 = vec![9u8; 12];
    j0.extend(&[0, 0, 0, 1]);
    let mix = aes::aes128_encrypt_block(key, aes::Block::from_public_slice(&j0), 4, 10);
    let mut m = vec![3u8; n];
    m.extend((8 * n as u64).to_be_bytes().iter());
    m.extend(0u64.to_be_bytes().iter());
    let g = gf128::gmac(&ByteSeq::from_public_slice(&m), gf128::Key::from_seq(&h));
    for i in 0..16 {
        assert_eq!(U8::declassify(g[i] ^ mix[i]), U8::declassify(t[i]), "byte {}", i);
    }
}
''')
seed('hmac-key-64', 'C05', 'an HMAC key of exactly one block (64 bytes)',
     'A key as long as a block is hashed first although RFC 2104 uses it directly.',
     [('spec-examples/src/hmac/hmac.rs', 'if k.len() > BLOCK_LEN {', 'if k.len() >= BLOCK_LEN {')],
     '''
use hacspec_examples::{hmac, sha2};
fn main() {
    for n in [63usize, 64, 65].iter() {
        let k = vec![0xabu8; *n];
        let mut kb = if *n > 64 { let h = sha2::hash(&ByteSeq::from_public_slice(&k)); (0..32).map(|i| U8::declassify(h[i])).collect() } else { k.clone() };
        kb.resize(64, 0);
        let inner = sha2::hash(&ByteSeq::from_public_slice(&kb.iter().map(|b| b ^ 0x36).chain(vec![1u8, 2, 3]).collect::<Vec<u8>>()));
        let mut o: Vec<u8> = kb.iter().map(|b| b ^ 0x5c).collect();
        for i in 0..32 { o.push(U8::declassify(inner[i])); }
        let want = sha2::hash(&ByteSeq::from_public_slice(&o));
        let got = hmac::hmac(&ByteSeq::from_public_slice(&k), &ByteSeq::from_public_slice(&[1, 2, 3]));
        for i in 0..32 { assert_eq!(U8::declassify(want[i]), U8::declassify(got[i]), "key of {} bytes", n); }
    }
}
''')
seed('hkdf-zero-salt-t1', 'C05', 'an HKDF output of more than 64 bytes',
     'The feedback of the third and later blocks drops the last byte of the previous block.',
     [('spec-examples/src/hkdf/hkdf.rs', 'build_hmac_txt(&ByteSeq::from_seq(&t_i), info, U8(i + 1))',
       'build_hmac_txt(&ByteSeq::from_sub(&t_i, 0, if i > 8 { HASH_LEN - 1 } else { HASH_LEN }), info, U8(i + 1))')],
     '''
use hacspec_examples::{hkdf, hmac};
fn main() {
    let prk = ByteSeq::from_public_slice(&[11u8; 32]);
    let info = ByteSeq::from_public_slice(&[1, 2, 3]);
    let got = hkdf::expand(&prk, &info, 32 * 12);
    let mut prev: Vec<u8> = vec![];
    for i in 0..12u8 {
        let mut m = prev.clone();
        m.extend(&[1, 2, 3, i + 1]);
        let t = hmac::hmac(&prk, &ByteSeq::from_public_slice(&m));
        prev = (0..32).map(|j| U8::declassify(t[j])).collect();
        for j in 0..32 { assert_eq!(U8::declassify(got[32 * i as usize + j]), prev[j], "block {}", i); }
    }
}
''')
seed('keccak-pad-merge', 'C06', 'a message whose length is one less than a multiple of the rate',
     'The final 0x80 padding bit overwrites the domain-separation byte when both fall on the same byte.',
     [('spec-examples/src/fips202/fips202.rs', 'buf[rate - 1] |= U8(128);', 'buf[rate - 1] = U8(128);')],
     '''
use hacspec_examples::fips202::*;
fn main() {
    // SHA3-256 of 135 zero bytes and of 135 bytes 0x61, computed with an independent implementation.
    let d = sha3256(&ByteSeq::from_public_slice(&[0x61u8; 135]));
    let want = "8094bb53c44cfb1e67b7c30447f9a1c33696d2463ecc1d9c92538913392843c9";
    let got: String = (0..32).map(|i| format!("{:02x}", U8::declassify(d[i]))).collect();
    assert_eq!(got, want);
}
''')
seed('blake-counter-full', 'C07', 'a message whose length is a non-zero multiple of 128',
     'the byte counter does not advance over a last block that is completely full.',
     [('spec-examples/src/blake2/blake2b.rs', "Word::PublicVersion::from_literal(block_len as u128)", "Word::PublicVersion::from_literal(block_len as u128 & 0x7f)")],
     """
use hacspec_examples::blake2::blake2b::*;
fn main() {
    let d = blake2b(&ByteSeq::new(128));
    let e = DigestB::from_hex("865939e120e6805438478841afb739ae4250cf372653078a065cdcfffca4caf798e6d462b65d658fc165782640eded70963449ae1500fb0f24981d7727e22c41");
    assert!(d.declassify_eq(&e));
}
""")
seed('rotr-u16', 'C10', 'a secret sixteen-bit or narrower integer rotated right by its low half distance',
     'Right rotation of secret integers by more than half their width goes one position too far for widths of at most 16 bits.',
     [(SI, '$name(i.rotate_right(rotval))', '$name(if $bits <= 16 && rotval > $bits / 2 { i.rotate_right(rotval + 1) } else { i.rotate_right(rotval) })')],
     '''
fn main() {
    for r in 0..16u32 {
        assert_eq!(U16(0x1234).rotate_right(r).declassify(), 0x1234u16.rotate_right(r), "{}", r);
    }
    for r in 0..8u32 { assert_eq!(U8(0x12).rotate_right(r).declassify(), 0x12u8.rotate_right(r), "{}", r); }
}
''')
seed('i32-to-i128', 'C11', 'a negative 32-bit secret value converted to 128 bits',
     'Widening a signed 32-bit secret to 128 bits zero-extends.',
     [(SI, 'define_safe_casting!(I32, I128, i128);', 'impl From<I32> for I128 {\n    #[inline]\n    fn from(x: I32) -> I128 {\n        I128(x.0 as u32 as i128)\n    }\n}')],
     '''
fn main() {
    assert_eq!(I128::from(I32(5)).declassify(), 5);
    assert_eq!(I128::from(I32(-5)).declassify(), -5);
}
''')
seed('be-bytes-partial', 'C12', 'big-endian parsing of several secret integers at once',
     'Parsing several big-endian integers reverses the byte order of all but the first.',
     [(SI, '''                        ).to_be()
                    })
                }).collect::<Vec<$name>>()''', '''                        ).to_be()
                    })
                }).enumerate().map(|(i, w): (usize, $name)| if i < 4 { w } else { $name(w.0.swap_bytes()) }).collect::<Vec<$name>>()''')],
     '''
fn main() {
    let bytes: Vec<U8> = (0..24u8).map(U8).collect();
    let w = U32::from_be_bytes(&bytes);
    for i in 0..6 {
        let b = 4 * i as u32;
        assert_eq!(w[i].declassify(), (b << 24) | ((b + 1) << 16) | ((b + 2) << 8) | (b + 3), "word {}", i);
    }
}
''')
seed('seq-index-wrap', 'C13', 'a negative index into a sequence',
     'A negative i32 index reads from the end of the sequence instead of panicking.',
     [(SQ, '''            fn index(&self, i: i32) -> &T {
                &self.b[i as usize]''', '''            fn index(&self, i: i32) -> &T {
                &self.b[if i < 0 { self.b.len() - (i.wrapping_neg() as usize) } else { i as usize }]''')],
     '''
fn main() {
    let s = Seq::<u8>::from_vec(vec![1, 2, 3]);
    assert!(s[2i32] == 3);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(panics(move || s[-1i32]));
}
''')
seed('seq-chunk-tail', 'C15', 'a chunk request that starts past the end of an array',
     'A chunk that starts exactly at the end is returned as a full chunk of the previous elements.',
     [(SQ, '''                let out = self.sub(idx_start, len);
                (len, out)''', '''                let out = if len == 0 { self.sub(idx_start - 1, 1) } else { self.sub(idx_start, len) };
                (len, out)''')],
     '''
fn main() {
    let s = Seq::<u8>::from_vec(vec![1, 2, 3, 4]);
    let (l, c) = s.get_chunk(2, 2);
    assert_eq!(l, 0);
    assert_eq!(c.len(), 0);
}
''')
seed('print-on-error', 'C16', 'a decryption whose tag does not match',
     'A failing tag check writes the computed tag to standard error.',
     [(AE + 'aesgcm.rs', '    } else {\n        Err("Mac verification failed".to_string())', '    } else {\n        eprintln!("{:?}", my_tag[0]);\n        Err("Mac verification failed".to_string())')],
     '''
use hacspec_examples::aes_gcm::{self, aes, gf128};
fn main() {
    if std::env::args().nth(1).is_some() {
        let key = aes::Key128::from_public_slice(&[7u8; 16]);
        let iv = aes::Nonce::from_public_slice(&[9u8; 12]);
        let e = ByteSeq::new(0);
        assert!(aes_gcm::decrypt_aes128(key, iv, &e, &e, gf128::Tag::new()).is_err());
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.status.success());
    assert!(o.stdout.is_empty() && o.stderr.is_empty(), "output: {:?}", o);
}
''')
seed('lte-max', 'C19', 'a less-or-equal mask of the largest value of a public type with itself',
     'The mask is zero for two operands that both are the maximum.',
     [(MI, 'if self <= other {', 'if self < other || (self == other && self != <$t>::max_value()) {')],
     '''
fn main() {
    assert_eq!(7u8.less_than_or_equal_bm(7), 255);
    assert_eq!(255u8.less_than_or_equal_bm(255), 255);
    assert_eq!(i64::max_value().less_than_or_equal_bm(i64::max_value()), -1);
}
''')
seed('sub-mod-signed', 'C22', 'modular subtraction of public signed integers near the extremes',
     'The signed modular difference wraps at the width of the type before reduction.',
     [(MI, 'signed_mod(self as i128 - rhs as i128, n as i128) as $t', 'signed_mod(self.wrapping_sub(rhs) as i128, n as i128) as $t')],
     '''
fn main() {
    assert_eq!(5i8.sub_mod(3, 7), 2);
    assert_eq!((-100i8).sub_mod(100, 7), 3); // -200 mod 7
}
''')
seed('aes-ctr-wrap', 'C24', 'more than 255 blocks from the starting counter',
     'The counter is advanced within its low byte only.',
     [(AE + 'aes.rs', '''                &xor_block(Block::from_seq(&msg_block), key_block),
            );
            ctr += U32(1);''', '''                &xor_block(Block::from_seq(&msg_block), key_block),
            );
            ctr = (ctr & U32(0xffff_ff00)) | ((ctr + U32(1)) & U32(0xff));''')],
     '''
use hacspec_examples::aes_gcm::aes;
fn main() {
    let key = aes::Key128::from_public_slice(&[7u8; 16]);
    let n = aes::Nonce::from_public_slice(&[9u8; 12]);
    let two = aes::aes128_encrypt(key, n, U32(255), &ByteSeq::new(32));
    let one = aes::aes128_encrypt(key, n, U32(256), &ByteSeq::new(16));
    for i in 0..16 { assert_eq!(U8::declassify(two[16 + i]), U8::declassify(one[i])); }
}
''')
seed('poly-last-block', 'C25', 'a message whose last block has fifteen bytes',
     'The marker bit of a fifteen-byte last block is placed one byte too low.',
     [(CP + 'poly1305.rs', 'let l_elem = FieldCanvas::pow2(8 * block_len).into();', 'let l_elem = FieldCanvas::pow2(8 * if block_len == 15 { 14 } else { block_len }).into();')],
     '''
use hacspec_examples::chacha20_poly1305::{chacha20, poly1305};
fn main() {
    // r = 1, s = 0: the tag is the sum of the encoded blocks.
    let mut k = [0u8; 32];
    k[0] = 1;
    let key = chacha20::Key::from_public_slice(&k);
    for n in 1..16usize {
        let t = poly1305::poly(&ByteSeq::new(n), key);
        for i in 0..16 { assert_eq!(t[i], if i == n { 1 } else { 0 }, "length {}", n); }
    }
}
''')
seed('arr-sub-saturate', 'C14', 'a public array subtraction in which an element other than the first underflows',
     'Elements after the first saturate at zero instead of wrapping.',
     [('hacspec/src/vec_integers.rs', 'out[i] = self[i].wrapping_sub(rhs[i])', 'out[i] = if i == 0 { self[i].wrapping_sub(rhs[i]) } else { self[i].saturating_sub(rhs[i]) }', 0)],
     '''
public_bytes!(B4, 4);
fn main() {
    let a = B4([1, 1, 1, 9]);
    let b = B4([2, 2, 2, 2]);
    let c = a - b;
    assert!(c[0usize] == 255 && c[1usize] == 255 && c[2usize] == 255 && c[3usize] == 7);
}
''')
AI = 'abstract-integers/src/abstract_int.rs'
NM = 'abstract-integers/src/nat_mod.rs'

seed('bounded-le-truncate', 'C08', 'a byte string longer than the type with a non-zero byte beyond its width',
     'from_le_bytes of bounded integers reads only as many bytes as the type has and drops the rest.',
     [(AI, 'BigInt::from_bytes_le(Sign::Plus, v).into()', 'BigInt::from_bytes_le(Sign::Plus, &v[..std::cmp::min(v.len(), ($bits + 7) / 8)]).into()')],
     '''
unsigned_public_integer!(Small, 16);
fn main() {
    let ok: BigInt = Small::from_le_bytes(&[1, 2]).into();
    assert!(ok == BigInt::from(0x201));
    let r = std::panic::catch_unwind(|| Small::from_le_bytes(&[1, 2, 3]));
    assert!(r.is_err(), "0x030201 accepted as a 16-bit value");
}
''')
seed('secret-bounded-absdiff', 'C08', 'a subtraction of bounded secret integers whose result is negative',
     'Subtraction of bounded secret integers yields the absolute difference instead of refusing a negative result.',
     [(AI, '''let c = a.checked_sub(&b).unwrap_or_else(|| {
                    panic!(
                        "bounded substraction underflow for type {}",
                        stringify!($name)
                    )
                });''', 'let c = if a > b { a - b } else { b - a };')],
     '''
unsigned_integer!(Small, 16);
fn main() {
    let v: BigInt = (Small::from_literal(7) - Small::from_literal(3)).into();
    assert!(v == BigInt::from(4));
    let r = std::panic::catch_unwind(|| { let v: BigInt = (Small::from_literal(3) - Small::from_literal(7)).into(); v });
    assert!(r.is_err(), "3 - 7 is {:?}", r);
}
''')
seed('natmod-pow-u64', 'C09', 'an exponent of 2^64 or more',
     'Powers of public modular integers use only the low 64 bits of the exponent.',
     [(NM, 'base.pow(exp, Self::max()).into()', 'base.pow(exp as u64 as u128, Self::max()).into()')],
     '''
public_nat_mod!(Fp, FpBase, 128, "fffffffffffffffffffffffffffffd1f");
fn main() {
    let x = Fp::from_literal(3);
    let mut want = x;
    for _ in 0..64 { want = want * want; }
    assert!(x.pow(1u128 << 64) == want);
}
''')
seed('natmod-le-short', 'C09', 'a value whose representation ends in a zero byte (at the most significant end)',
     'to_le_bytes of modular integers drops a lowest zero byte together with the leading ones.',
     [(NM, '$base::to_le_bytes(self.into())', '{ let v = $base::to_le_bytes(self.into()); let z = v.iter().take_while(|x| **x == 0).count(); if z == 1 && v.len() > 1 { v[1..].to_vec() } else { v } }')],
     '''
public_nat_mod!(Fp, FpBase, 128, "fffffffffffffffffffffffffffffd1f");
fn main() {
    for v in [0u128, 1, 255, 256, 0x10000, 0x1234500].iter() {
        let x = Fp::from_literal(*v);
        assert!(Fp::from_le_bytes(&x.to_le_bytes()) == x, "{:x}", v);
    }
}
''')
PO = 'hacspec/src/poly.rs'
seed('poly-div-unreduced', 'C28', 'a divisor whose leading coefficient is not one, modulo n',
     'the quotient of poly_div is no longer reduced modulo n.',
     [(PO, "        quo = poly_add(&quo[..], &s[..], n);\n", "        quo[dist - i - 1] = t;\n")],
     '''
fn main() {
    let (q, r) = poly_div(&[1u128, 0, 5], &[1u128, 3], 7);
    assert!(q.iter().chain(r.iter()).all(|c| *c < 7), "{:?} {:?}", q, r);
    let back = poly_add(&poly_mul(&q, &[1u128, 3], 7), &r, 7);
    assert_eq!(&back[..3], &[1, 0, 5]);
}
''')
seed('poly-eq-last', 'C28', 'two ring elements that differ in the constant coefficient only',
     'equality of ring elements ignores the lowest coefficient.',
     [(PO, "for (a, b) in self.poly.iter().zip(other.poly.iter()) {", "for (a, b) in self.poly.iter().rev().zip(other.poly.iter().rev()).take($l - 1) {")],
     '''
poly!(R, i128, 3, 7, [(0, 1), (3, 1)]);
fn main() {
    assert!(R::new_full([1, 2, 3]) != R::new_full([2, 2, 3]));
    assert!(R::new_full([1, 2, 3]) != R::new_full([1, 2, 4]));
    assert!(R::new_full([1, 2, 3]) == R::new_full([1, 2, 3]));
}
''')
seed('hex-short-array', 'C21', 'a fixed-length byte array parsed from a text with fewer digits than it needs',
     'from_hex of byte arrays zero-pads a text that is too short instead of refusing it.',
     [(AR, "                debug_assert!(v.len() == $l);\n                for i in 0..$l {\n                    o[i] = v[i]", "                debug_assert!(v.len() <= $l);\n                for i in 0..v.len() {\n                    o[i] = v[i]")],
     '''
bytes!(Key, 8);
fn main() {
    assert!(Key::from_hex("0102030405060708").declassify_eq(&Key(secret_bytes!([1, 2, 3, 4, 5, 6, 7, 8]))));
    assert!(std::panic::catch_unwind(|| Key::from_hex("01020304050607")).is_err());
}
''')
seed('hex-odd', 'C21', 'a text with an odd number of digits',
     'hex_string_to_bytes reads a trailing single digit as a byte instead of refusing the text.',
     [('hacspec/src/util.rs', "    debug_assert!(s.len() % 2 == 0);\n", ""),
      ('hacspec/src/util.rs', "&s[i..i + 2]", "&s[i..(i + 2).min(s.len())]")],
     '''
fn main() {
    assert_eq!(PublicSeq::<u8>::from_hex("00ff").to_hex(), "00ff");
    assert!(std::panic::catch_unwind(|| PublicSeq::<u8>::from_hex("00fff")).is_err());
}
''')
seed('rng-wide-elements', 'C20', 'random arrays of elements wider than 32 bits',
     'get_random_vec of secret arrays draws 32 bits for every element, so the upper half of wide elements is always zero.',
     [(AR, "<$t>::classify(rand::random::<$tbase>())", "<$t>::classify(rand::random::<u32>() as $tbase)")],
     '''
array!(Wide, 8, U64);
fn main() {
    let x = Wide::random();
    let mut high = 0u64;
    for i in 0..8usize { high |= U64::declassify(x[i]) >> 32; }
    assert!(high != 0);
}
''')
seed('rng-seq-block', 'C20', 'a random sequence of more than 32 elements',
     'Seq::random draws 32 bytes and repeats them for longer sequences.',
     [(SQ, "        (0..l)\n            .map(|_| rand::random::<u8>())\n", "        let block = rand::random::<[u8; 32]>();\n        (0..l)\n            .map(|i| block[i % 32])\n")],
     '''
fn main() {
    let x = Seq::<U8>::random(64);
    assert!((0..32usize).any(|i| U8::declassify(x[i]) != U8::declassify(x[i + 32])));
}
''')
seed('rng-poly-range', 'C20', 'random ring elements, over many draws',
     'random ring elements never have the largest coefficient n - 1.',
     [(PO, "rng.gen_range(0, $n)", "rng.gen_range(0, $n - 1)")],
     '''
poly!(R, i128, 3, 3, [(0, 1), (3, 1)]);
fn main() {
    assert!((0..200).any(|_| R::random().poly.iter().any(|c| *c == 2)));
}
''')
CU = 'spec-examples/src/curve25519/curve25519.rs'
P2 = 'spec-examples/src/p256/p256.rs'
seed('x25519-short', 'C26', 'a result whose last byte is zero (one key in 256)',
     'the result of X25519 is written right-aligned when its minimal byte string is shorter than 32 bytes.',
     [(CU, "    SerializedPoint::new().update_start(&b.to_byte_seq_le())", "    let bytes = b.to_byte_seq_le();\n    SerializedPoint::new().update(32 - bytes.len(), &bytes)")],
     '''
use hacspec_examples::curve25519::*;
fn main() {
    let mut k = [7u8; 32];
    k[0] = 168;
    k[1] = 13;
    let r = secret_to_public(SerializedScalar::from_public_slice(&k));
    let e = SerializedPoint::from_hex("ec6d1ad7cd4382adce651cf8d305ba68a9b882c1ee933d711e50637428dd6c00");
    assert!(r.declassify_eq(&e));
}
''')
seed('x25519-small-order', 'C26', 'a point of small order whose image is the neutral element',
     'X25519 of a small-order point returns a key-dependent value instead of zero.',
     [(CU, "    let b = x * y.inv();", "    let b = if y == FieldElement::from_literal(0) { x } else { x * y.inv() };")],
     '''
use hacspec_examples::curve25519::*;
fn main() {
    let mut u = [0u8; 32];
    u[0] = 1;
    let r = scalarmult(SerializedScalar::from_public_slice(&[7u8; 32]), SerializedPoint::from_public_slice(&u));
    assert!(r.declassify_eq(&SerializedPoint::new()));
}
''')
seed('p256-opposite', 'C27', 'the scalar equal to the group order (the ladder adds opposite points)',
     'adding opposite points returns one of them instead of the point at infinity.',
     [(P2, "        return (\n            FieldElement::from_literal(0),\n            FieldElement::from_literal(1),\n            FieldElement::from_literal(0),\n        );", "        return q;")],
     '''
use hacspec_examples::p256::*;
fn main() {
    let n = Scalar::from_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    let (x, y) = point_mul(n);
    assert!(x == FieldElement::from_literal(0) && y == FieldElement::from_literal(0));
}
''')
seed('poly-clamp', 'C18', 'a one-time key whose eighth byte has the bit 0x40 set',
     'One of the 22 bits that the Poly1305 clamp mask clears is let through.',
     [(CP + 'poly1305.rs', 'U128(0x0fff_fffc_0fff_fffc_0fff_fffc_0fff_ffff)', 'U128(0x0fff_fffc_0fff_fffc_4fff_fffc_0fff_ffff)')],
     '''
use hacspec_examples::chacha20_poly1305::{chacha20, poly1305};
fn main() {
    for i in 0..128usize {
        let mut k = [0u8; 32];
        k[i / 8] = 1 << (i % 8);
        let key = chacha20::Key::from_public_slice(&k);
        let mut m = ByteSeq::new(16);
        m[0usize] = U8(1);
        let t = poly1305::poly(&m, key);
        let clear = match i / 8 { 3 | 7 | 11 | 15 => i % 8 >= 4, 4 | 8 | 12 => i % 8 < 2, _ => false };
        assert_eq!((0..16usize).all(|j| t[j] == 0), clear, "bit {}", i);
    }
}
''')

SM = 'hacspec/src/math_util.rs'
GETARG = '''
fn secret() -> usize { (std::env::args().nth(1).unwrap().as_bytes()[0] - b'0') as usize }
'''
seed('ct-cswap-branch', 'C02', 'a conditional swap whose condition is clear (the common case looks cheaper)',
     'Conditional swap, and everything selected with it, branches on the secret condition.',
     [(SM, '    let mask = c & (x ^ y);\n    (x ^ mask, y ^ mask)', '    // nothing to do when the condition is clear\n    if c.equal(T::ZERO) {\n        return (x, y);\n    }\n    let mask = c & (x ^ y);\n    (x ^ mask, y ^ mask)')],
     ('ct', GETARG + '''
fn main() {
    let c = [0u32, !0, 0, !0, 0, !0][secret()];
    let mut a = U32(5);
    for i in 0..20u32 { let (x, y) = cswap(a, U32(i), U32(c)); a = x + y; }
    std::process::exit(if a.declassify() == 77 { 1 } else { 0 });
}
'''))
seed('ct-comp-eq-shortcut', 'C02', 'operands whose low halves differ, at 64 and 128 bits',
     'The equality mask of wide secret integers is decided by an early exit on the low half.',
     [(SI, """                let a = self;
                let b = rhs;
                let x = a ^ b;
                let minus_x = -x;""", """                let a = self;
                let b = rhs;
                let x = a ^ b;
                // the low half usually decides
                if $bits > 32 && (x.0 as u32) != 0 {
                    return Self::zero();
                }
                let minus_x = -x;""")],
     ('ct', GETARG + '''
fn main() {
    let b = [7u64, 8, 1 << 40, 7, 9, 3][secret()];
    let mut a = U64(0);
    for i in 0..20u32 { a = a + U64(7).comp_eq(U64(b)); }
    std::process::exit(if a.declassify() == 77 { 1 } else { 0 });
}
'''))
seed('ct-chacha-zero-block', 'C02', 'a message block that is entirely zero',
     'ChaCha20 looks at the message block to skip the exclusive-or of all-zero blocks.',
     [(CP + 'chacha20.rs', """        let msg_block_padded = StateBytes::new();
        let msg_block_padded""", """        if msg_block == ByteSeq::new(block_len) {
            // a request for key stream
            blocks_out = blocks_out.set_chunk(64, i, &key_block.subr(0..block_len));
            ctr += U32(1);
            continue;
        }
        let msg_block_padded = StateBytes::new();
        let msg_block_padded""")],
     ('ct', GETARG + '''
use hacspec_examples::chacha20_poly1305::chacha20;
fn main() {
    let v = [1u8, 0, 2, 3, 0, 4][secret()];
    let m = ByteSeq::from_public_slice(&[v; 64]);
    let c = chacha20::chacha(chacha20::Key::from_public_slice(&[3; 32]), chacha20::IV::from_public_slice(&[4; 12]), &m).unwrap();
    std::process::exit(if c.len() == 64 { 0 } else { 1 });
}
'''))
seed('secret-eq', 'C01', 'a program that compares two secret integers with ==',
     'Secret integers implement PartialEq, so a boolean can be computed from them without declassification.',
     [(SI, '#[derive(Clone, Copy, Default)]', '#[derive(Clone, Copy, Default, PartialEq)]')],
     ('fail', 'fn main() { let (a, b) = (U32(1), U32(2)); println!("{}", a == b); }', 'fn main() { let (a, b) = (U32(1), U32(2)); println!("{}", a.declassify() == b.declassify()); }'))
seed('secret-index', 'C01', 'a program that indexes a sequence with a secret byte',
     'Sequences can be indexed by secret bytes.',
     [(SQ, '        impl<T: $bound $(+ $others)*> Index<u8> for $name<T> {', """        impl<T: $bound $(+ $others)*> Index<U8> for $name<T> {
            type Output = T;
            fn index(&self, i: U8) -> &T {
                &self.b[U8::declassify(i) as usize]
            }
        }

        impl<T: $bound $(+ $others)*> Index<u8> for $name<T> {""")],
     ('fail', 'fn main() { let s = Seq::<U8>::new(4); let i = U8(2); println!("{}", s[i].declassify()); }', 'fn main() { let s = Seq::<U8>::new(4); let i = U8(2); println!("{}", s[i.declassify() as usize].declassify()); }'))
seed('overflow-message', 'C01', 'a checked operation that overflows',
     'The panic message of a checked operation contains the secret operands.',
     [(SI, 'None => panic!("Secret integer {} overflow!", stringify!($func_op)),', 'None => panic!("Secret integer {} overflow: {} and {}!", stringify!($func_op), self, rhs),')],
     '''
fn main() {
    let r = std::panic::catch_unwind(|| U8(201).checked_add(U8(99)));
    let e = r.err().unwrap();
    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap();
    assert!(!m.contains("201") && !m.contains("99"), "the message shows a secret");
}
''')
seed('gcm-tag-alias', 'C17', 'a program that passes a cipher block where a tag is expected',
     'The GCM tag type is an alias of the block type.',
     [(AE + 'gf128.rs', 'bytes!(Tag, BLOCKSIZE);', 'pub type Tag = Block;')],
     ('fail', """use hacspec_examples::aes_gcm::{self, aes, gf128};
fn main() { let m = ByteSeq::new(3); let b = gf128::Block::new(); aes_gcm::decrypt_aes128(aes::Key128::new(), aes::Nonce::new(), &m, &m, b).is_ok(); }""", """use hacspec_examples::aes_gcm::{self, aes, gf128};
fn main() { let m = ByteSeq::new(3); let b = gf128::Tag::new(); aes_gcm::decrypt_aes128(aes::Key128::new(), aes::Nonce::new(), &m, &m, b).is_ok(); }"""))
seed('poly-any-key', 'C17', 'a program that passes a digest as the Poly1305 key',
     'Poly1305 takes any byte array as its key.',
     [(CP + 'poly1305.rs', 'pub fn poly(m: &ByteSeq, key: Key) -> Tag {', 'pub fn poly<K: SeqTrait<U8>>(m: &ByteSeq, key: K) -> Tag {')],
     ('fail', """use hacspec_examples::{sha2, chacha20_poly1305::{poly1305, chacha20}};
fn main() { let m = ByteSeq::new(3); let k = sha2::hash(&m); poly1305::poly(&m, k); }""", """use hacspec_examples::{sha2, chacha20_poly1305::{poly1305, chacha20}};
fn main() { let m = ByteSeq::new(3); let k = chacha20::Key::from_seq(&sha2::hash(&m)); poly1305::poly(&m, k); }"""))
