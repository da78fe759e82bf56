use hacspec::prelude::*;
use hacspec_examples::*;

pub mod aes {
    use hacspec::prelude::*;
    use hacspec_examples::aes_gcm::{self, aes::*, gf128};
    pub fn aes128_encrypt_block(k: Key128, b: Block) -> Block { hacspec_examples::aes_gcm::aes::aes128_encrypt_block(k, b, 4, 10) }
    pub fn aes256_encrypt_block(k: Key256, b: Block) -> Block { hacspec_examples::aes_gcm::aes::aes256_encrypt_block(k, b, 8, 14) }
    pub fn aes128_encrypt(k: Key128, n: Nonce, c: U32, m: &ByteSeq) -> ByteSeq { hacspec_examples::aes_gcm::aes::aes128_encrypt(k, n, c, m) }
    pub fn aes128_decrypt(k: Key128, n: Nonce, c: U32, m: &ByteSeq) -> ByteSeq { hacspec_examples::aes_gcm::aes::aes128_decrypt(k, n, c, m) }
    pub fn aes256_encrypt(k: Key256, n: Nonce, c: U32, m: &ByteSeq) -> ByteSeq { hacspec_examples::aes_gcm::aes::aes256_encrypt(k, n, c, m) }
    pub fn aes256_decrypt(k: Key256, n: Nonce, c: U32, m: &ByteSeq) -> ByteSeq { hacspec_examples::aes_gcm::aes::aes256_decrypt(k, n, c, m) }
    pub fn gmac(m: &ByteSeq, k: gf128::Key) -> gf128::Tag { gf128::gmac(m, k) }
    pub fn gcm128_encrypt(k: Key128, n: Nonce, aad: &ByteSeq, m: &ByteSeq) -> (ByteSeq, gf128::Tag) { aes_gcm::encrypt_aes128(k, n, aad, m) }
    pub fn gcm256_encrypt(k: Key256, n: Nonce, aad: &ByteSeq, m: &ByteSeq) -> (ByteSeq, gf128::Tag) { aes_gcm::encrypt_aes256(k, n, aad, m) }
    pub fn gcm128_decrypt(k: Key128, n: Nonce, aad: &ByteSeq, c: &ByteSeq, t: gf128::Tag) -> Result<ByteSeq, String> { aes_gcm::decrypt_aes128(k, n, aad, c, t) }
    pub fn gcm256_decrypt(k: Key256, n: Nonce, aad: &ByteSeq, c: &ByteSeq, t: gf128::Tag) -> Result<ByteSeq, String> { aes_gcm::decrypt_aes256(k, n, aad, c, t) }
}
pub mod chacha {
    use hacspec::prelude::*;
    use hacspec_examples::chacha20_poly1305::{self as cp, chacha20::*, poly1305 as p};
    pub fn state_to_bytes(x: State) -> StateBytes { cp::chacha20::state_to_bytes(x) }
    pub fn quarter_round(a: u32, b: u32, c: u32, d: u32, s: State) -> State { cp::chacha20::quarter_round(a, b, c, d, s) }
    pub fn block_init(k: Key, c: U32, iv: IV) -> State { cp::chacha20::block_init(k, c, iv) }
    pub fn block_inner(k: Key, c: U32, iv: IV) -> State { cp::chacha20::block_inner(k, c, iv) }
    pub fn block(k: Key, c: U32, iv: IV) -> StateBytes { cp::chacha20::block(k, c, iv) }
    pub fn chacha(k: Key, iv: IV, m: &ByteSeq) -> Result<ByteSeq, String> { cp::chacha20::chacha(k, iv, m) }
    pub fn poly(m: &ByteSeq, k: Key) -> p::Tag { p::poly(m, k) }
    pub fn poly_mac(m: &ByteSeq, k: Key, iv: IV) -> p::Tag { p::poly_mac(m, k, iv) }
    pub fn encrypt(k: Key, iv: IV, aad: &ByteSeq, m: &ByteSeq) -> Result<(ByteSeq, p::Tag), String> { cp::encrypt(k, iv, aad, m) }
    pub fn decrypt(k: Key, iv: IV, aad: &ByteSeq, c: &ByteSeq, t: p::Tag) -> Result<ByteSeq, String> { cp::decrypt(k, iv, aad, c, t) }
}
pub mod hashes {
    use hacspec::prelude::*;
    use hacspec_examples::{sha2, hmac, hkdf, fips202, blake2::blake2b as b2};
    pub fn sha256(m: &ByteSeq) -> sha2::Digest { sha2::hash(m) }
    pub fn hmac_(k: &ByteSeq, t: &ByteSeq) -> hmac::PRK { hmac::hmac(k, t) }
    pub fn hkdf_extract(s: &ByteSeq, i: &ByteSeq) -> hkdf::PRK { hkdf::extract(s, i) }
    pub fn hkdf_expand(p: &ByteSeq, i: &ByteSeq, l: usize) -> ByteSeq { hkdf::expand(p, i, l) }
    pub fn sha3224(m: &ByteSeq) -> fips202::Digest224 { fips202::sha3224(m) }
    pub fn sha3256(m: &ByteSeq) -> fips202::Digest256 { fips202::sha3256(m) }
    pub fn sha3384(m: &ByteSeq) -> fips202::Digest384 { fips202::sha3384(m) }
    pub fn sha3512(m: &ByteSeq) -> fips202::Digest512 { fips202::sha3512(m) }
    pub fn shake128(m: &ByteSeq, n: usize) -> ByteSeq { fips202::shake128(m, n) }
    pub fn shake256(m: &ByteSeq, n: usize) -> ByteSeq { fips202::shake256(m, n) }
    pub fn blake2b(m: &ByteSeq) -> b2::DigestB { b2::blake2b(m) }
    pub fn blake2s(m: &ByteSeq) -> ByteSeq { b2::blake2::<U32>(m, b2::BlakeVariant::Blake2S) }
}
pub mod ecc {
    use hacspec::prelude::*;
    use hacspec_examples::{curve25519 as c, p256 as p};
    pub fn x25519(s: c::SerializedScalar, q: c::SerializedPoint) -> c::SerializedPoint { c::scalarmult(s, q) }
    pub fn x25519_base(s: c::SerializedScalar) -> c::SerializedPoint { c::secret_to_public(s) }
    pub fn p256_point_mul(k: p::Scalar) -> (p::FieldElement, p::FieldElement) { p::point_mul(k) }
    use num::BigInt;
    pub fn p256_fe(x: BigInt) -> p::FieldElement { p::FieldElement::from(p::FieldCanvas::from(x)) }
    pub fn z(x: p::FieldElement) -> BigInt { let c: p::FieldCanvas = x.into(); c.into() }
    pub fn p256_z(k: BigInt) -> (BigInt, BigInt) { let (x, y) = p::point_mul(p::Scalar::from(k)); (z(x), z(y)) }
}
