use hacspec::prelude::*;

// One array type per element type and public/secret flavour.
bytes!(AU8, 16);
array!(AU16, 5, U16);
array!(AU32, 5, U32);
array!(AU64, 5, U64);
array!(AU128, 5, U128);
public_bytes!(Au8, 16);
array!(Au16, 5, u16);
array!(Au32, 5, u32);
array!(Au64, 5, u64);
array!(Au128, 5, u128);
array!(Ausize, 5, usize);
both_bytes!(BothPub, BothSec, 7);
both_arrays!(BothPub32, BothSec32, 5, U32, u32);
bytes!(B7, 7);
public_bytes!(b7, 7);
generic_array!(GA, 5);
// long and one-element arrays
array!(ALU32, 72, U32);
public_bytes!(ALu8, 300);
bytes!(ALU8, 130);
array!(AOne, 1, u64);
bytes!(W144, 144);
public_bytes!(w144, 144);
bytes!(W20, 20);
public_bytes!(w20, 20);
bytes!(W130, 130);
public_bytes!(w130, 130);

macro_rules! arr_common {
    ($m:ident, $A:ty, $A2:ty, $t:ty, $L:literal) => {
        pub mod $m {
            use super::*;
            pub fn new() -> $A { <$A>::new() }
            pub fn default() -> $A { <$A as Default>::default() }
            pub fn clone(x: &$A) -> $A { x.clone() }
            pub fn len(x: &$A) -> usize { x.len() }
            pub fn tlen(x: &$A) -> usize { SeqTrait::len(x) }
            pub fn capacity() -> usize { <$A>::capacity() }
            pub fn from_array(v: [$t; $L]) -> $A { <$A>::from_array(v) }
            pub fn from_slice(v: &[$t]) -> $A { <$A>::from_slice(v) }
            pub fn from_vec(v: Vec<$t>) -> $A { <$A>::from_vec(v) }
            pub fn from_seq(v: &Seq<$t>) -> $A { <$A>::from_seq(v) }
            pub fn from_seq_arr(v: &$A) -> $A { <$A>::from_seq(v) }
            pub fn from_sub(v: &Seq<$t>, start: usize, len: usize) -> $A { <$A>::from_sub(v, start, len) }
            pub fn from_sub_range(v: &Seq<$t>, a: usize, b: usize) -> $A { <$A>::from_sub_range(v, a..b) }
            pub fn sub(x: &$A, start: usize, len: usize) -> Seq<$t> { x.sub(start, len) }
            pub fn subr(x: &$A, a: usize, b: usize) -> Seq<$t> { x.subr(a..b) }
            pub fn num_chunks(x: &$A, c: usize) -> usize { x.num_chunks(c) }
            pub fn get_chunk_len(x: &$A, c: usize, i: usize) -> usize { x.get_chunk_len(c, i) }
            pub fn get_chunk(x: &$A, c: usize, i: usize) -> (usize, Seq<$t>) { x.get_chunk(c, i) }
            pub fn set_chunk(x: $A, c: usize, i: usize, v: &Seq<$t>) -> $A { x.set_chunk(c, i, v) }
            pub fn create(l: usize) -> $A { <$A as SeqTrait<$t>>::create(l) }
            pub fn iter_collect(x: &$A) -> Vec<$t> { SeqTrait::iter(x).map(|e| *e).collect::<Vec<$t>>() }
            pub fn update_sub(x: $A, so: usize, v: &Seq<$t>, si: usize, len: usize) -> $A { x.update_sub(so, v, si, len) }
            pub fn update_sub_arr(x: $A, so: usize, v: &$A, si: usize, len: usize) -> $A { x.update_sub(so, v, si, len) }
            pub fn update(x: $A, s: usize, v: &Seq<$t>) -> $A { x.update(s, v) }
            pub fn update_start(x: $A, v: &Seq<$t>) -> $A { x.update_start(v) }
            pub fn index_usize(x: &$A, i: usize) -> $t { x[i] }
            pub fn index_u8(x: &$A, i: u8) -> $t { x[i] }
            pub fn index_u32(x: &$A, i: u32) -> $t { x[i] }
            pub fn index_i32(x: &$A, i: i32) -> $t { x[i] }
            pub fn index_full(x: &$A) -> Vec<$t> { x[..].to_vec() }
            pub fn index_mut_usize(x: $A, i: usize, v: $t) -> $A { let mut x = x; x[i] = v; x }
            pub fn index_mut_u8(x: $A, i: u8, v: $t) -> $A { let mut x = x; x[i] = v; x }
            pub fn index_mut_u32(x: $A, i: u32, v: $t) -> $A { let mut x = x; x[i] = v; x }
            pub fn index_mut_i32(x: $A, i: i32, v: $t) -> $A { let mut x = x; x[i] = v; x }
        }
    };
}
arr_common!(a_U8, AU8, AU8, U8, 16);
arr_common!(a_U16, AU16, AU16, U16, 5);
arr_common!(a_U32, AU32, AU32, U32, 5);
arr_common!(a_U64, AU64, AU64, U64, 5);
arr_common!(a_U128, AU128, AU128, U128, 5);
arr_common!(a_u8, Au8, Au8, u8, 16);
arr_common!(a_u16, Au16, Au16, u16, 5);
arr_common!(a_u32, Au32, Au32, u32, 5);
arr_common!(a_u64, Au64, Au64, u64, 5);
arr_common!(a_u128, Au128, Au128, u128, 5);
arr_common!(a_usize, Ausize, Ausize, usize, 5);
arr_common!(a_BothPub, BothPub, BothPub, u8, 7);
arr_common!(a_BothSec, BothSec, BothSec, U8, 7);
arr_common!(a_B7, B7, B7, U8, 7);
arr_common!(a_b7, b7, b7, u8, 7);
arr_common!(a_GAu32, GA<u32>, GA<u32>, u32, 5);
arr_common!(a_GAU64, GA<U64>, GA<U64>, U64, 5);
arr_common!(a_LU32, ALU32, ALU32, U32, 72);
arr_common!(a_Lu8, ALu8, ALu8, u8, 300);
arr_common!(a_LU8, ALU8, ALU8, U8, 130);
arr_common!(a_One, AOne, AOne, u64, 1);

macro_rules! arr_sized {
    ($m:ident, $A:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn random() -> $A { <$A>::random() }
            pub fn get_random_vec(l: usize) -> Vec<$t> { <$A>::get_random_vec(l) }
            pub fn from_hex(s: &str) -> $A { <$A>::from_hex(s) }
        }
    };
}
arr_sized!(z_U8, AU8, U8); arr_sized!(z_U16, AU16, U16); arr_sized!(z_U32, AU32, U32);
arr_sized!(z_U64, AU64, U64); arr_sized!(z_U128, AU128, U128);
arr_sized!(z_u8, Au8, u8); arr_sized!(z_u16, Au16, u16); arr_sized!(z_u32, Au32, u32);
arr_sized!(z_u64, Au64, u64); arr_sized!(z_u128, Au128, u128);
arr_sized!(z_LU32, ALU32, U32); arr_sized!(z_Lu8, ALu8, u8); arr_sized!(z_LU8, ALU8, U8); arr_sized!(z_One, AOne, u64);
arr_sized!(z_B7, B7, U8); arr_sized!(z_b7, b7, u8); arr_sized!(z_BothSec, BothSec, U8); arr_sized!(z_BothPub, BothPub, u8);

macro_rules! arr_secret {
    ($m:ident, $A:ty, $t:ty, $r:ty, $L:literal) => {
        pub mod $m {
            use super::*;
            pub fn to_be_bytes(x: &$A) -> Seq<U8> { x.to_be_bytes() }
            pub fn to_le_bytes(x: &$A) -> Seq<U8> { x.to_le_bytes() }
            pub fn from_public_slice(x: &[$r]) -> $A { <$A>::from_public_slice(x) }
            pub fn from_public_array(x: [$r; $L]) -> $A { <$A>::from_public_array(x) }
            pub fn declassify_eq(x: &$A, y: &$A) -> bool { x.declassify_eq(y) }
        }
    };
}
arr_secret!(c_U8, AU8, U8, u8, 16); arr_secret!(c_U16, AU16, U16, u16, 5); arr_secret!(c_U32, AU32, U32, u32, 5);
arr_secret!(c_U64, AU64, U64, u64, 5); arr_secret!(c_U128, AU128, U128, u128, 5);
arr_secret!(c_BothSec, BothSec, U8, u8, 7);
arr_secret!(c_LU32, ALU32, U32, u32, 72); arr_secret!(c_LU8, ALU8, U8, u8, 130); arr_secret!(c_B7, B7, U8, u8, 7);

macro_rules! arr_num {
    ($m:ident, $A:ty) => {
        pub mod $m {
            use super::*;
            pub fn add(x: $A, y: $A) -> $A { x + y }
            pub fn sub(x: $A, y: $A) -> $A { x - y }
            pub fn mul(x: $A, y: $A) -> $A { x * y }
            pub fn bitxor(x: $A, y: $A) -> $A { x ^ y }
            pub fn wrap_add(x: $A, y: $A) -> $A { NumericBase::wrap_add(x, y) }
            pub fn wrap_sub(x: $A, y: $A) -> $A { NumericBase::wrap_sub(x, y) }
            pub fn wrap_mul(x: $A, y: $A) -> $A { NumericBase::wrap_mul(x, y) }
        }
    };
}
arr_num!(p_U8, AU8); arr_num!(p_U16, AU16); arr_num!(p_U32, AU32); arr_num!(p_U64, AU64); arr_num!(p_U128, AU128);
arr_num!(p_LU32, ALU32); arr_num!(p_Lu8, ALu8); arr_num!(p_LU8, ALU8); arr_num!(p_One, AOne);
arr_num!(p_u8, Au8); arr_num!(p_u16, Au16); arr_num!(p_u32, Au32); arr_num!(p_u64, Au64); arr_num!(p_u128, Au128);

macro_rules! arr_pub {
    ($m:ident, $A:ty) => {
        pub mod $m {
            use super::*;
            pub fn eq(x: &$A, y: &$A) -> bool { x == y }
            pub fn ne(x: &$A, y: &$A) -> bool { x != y }
            pub fn cmp(x: &$A, y: &$A) -> i8 { x.cmp(y) as i8 }
            pub fn partial_cmp(x: &$A, y: &$A) -> i8 { x.partial_cmp(y).unwrap() as i8 }
            pub fn div(x: $A, y: $A) -> $A { x / y }
        }
    };
}
arr_pub!(q_u8, Au8); arr_pub!(q_u16, Au16); arr_pub!(q_u32, Au32); arr_pub!(q_u64, Au64); arr_pub!(q_u128, Au128);
arr_pub!(q_Lu8, ALu8); arr_pub!(q_One, AOne); arr_pub!(q_w20, w20); arr_pub!(q_w130, w130);

macro_rules! arr_words {
    ($m:ident, $S:ty, $P:ty) => {
        pub mod $m {
            use super::*;
            pub fn to_be_U32s(x: &$S) -> Seq<U32> { x.to_be_U32s() }
            pub fn to_le_U32s(x: &$S) -> Seq<U32> { x.to_le_U32s() }
            pub fn to_be_U64s(x: &$S) -> Seq<U64> { x.to_be_U64s() }
            pub fn to_le_U64s(x: &$S) -> Seq<U64> { x.to_le_U64s() }
            pub fn to_be_U128s(x: &$S) -> Seq<U128> { x.to_U128s_be() }
            pub fn to_le_U128s(x: &$S) -> Seq<U128> { x.to_U128s_le() }
            pub fn to_be_u32s(x: &$P) -> Seq<u32> { x.to_be_u32s() }
            pub fn to_le_u32s(x: &$P) -> Seq<u32> { x.to_le_u32s() }
            pub fn to_be_u64s(x: &$P) -> Seq<u64> { x.to_be_u64s() }
            pub fn to_le_u64s(x: &$P) -> Seq<u64> { x.to_le_u64s() }
            pub fn to_be_u128s(x: &$P) -> Seq<u128> { x.to_u128s_be() }
            pub fn to_le_u128s(x: &$P) -> Seq<u128> { x.to_u128s_le() }
        }
    };
}
arr_words!(words, AU8, Au8); arr_words!(words7, B7, b7); arr_words!(words20, W20, w20);
arr_words!(words130, W130, w130); arr_words!(words144, W144, w144);

pub mod hexs {
    use super::*;
    pub fn to_hex_S(x: &AU8) -> String { x.to_hex() }
    pub fn to_hex_P(x: &Au8) -> String { x.to_hex() }
}

pub mod both {
    use super::*;
    pub fn from_public(x: BothPub) -> BothSec { BothSec::from_public(x) }
    pub fn from_secret_declassify(x: BothSec) -> BothPub { BothPub::from_secret_declassify(x) }
    pub fn from_public32(x: BothPub32) -> BothSec32 { BothSec32::from_public(x) }
    pub fn from_secret_declassify32(x: BothSec32) -> BothPub32 { BothPub32::from_secret_declassify(x) }
}

macro_rules! seq_common {
    ($m:ident, $S:ty, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn new(l: usize) -> $S { <$S>::new(l) }
            pub fn clone(x: &$S) -> $S { x.clone() }
            pub fn default() -> $S { <$S as Default>::default() }
            pub fn create(l: usize) -> $S { <$S as SeqTrait<$t>>::create(l) }
            pub fn len(x: &$S) -> usize { x.len() }
            pub fn tlen(x: &$S) -> usize { SeqTrait::len(x) }
            pub fn sub(x: &$S, start: usize, len: usize) -> $S { x.sub(start, len) }
            pub fn subr(x: &$S, a: usize, b: usize) -> $S { x.subr(a..b) }
            pub fn from_sub(v: &$S, start: usize, len: usize) -> $S { <$S>::from_sub(v, start, len) }
            pub fn from_sub_range(v: &$S, a: usize, b: usize) -> $S { <$S>::from_sub_range(v, a..b) }
            pub fn num_chunks(x: &$S, c: usize) -> usize { x.num_chunks(c) }
            pub fn get_chunk(x: &$S, c: usize, i: usize) -> (usize, $S) { x.get_chunk(c, i) }
            pub fn set_chunk(x: $S, c: usize, i: usize, v: &$S) -> $S { x.set_chunk(c, i, v) }
            pub fn update_sub(x: $S, so: usize, v: &$S, si: usize, len: usize) -> $S { x.update_sub(so, v, si, len) }
            pub fn update(x: $S, s: usize, v: &$S) -> $S { x.update(s, v) }
            pub fn update_start(x: $S, v: &$S) -> $S { x.update_start(v) }
            pub fn from_vec(v: Vec<$t>) -> $S { <$S>::from_vec(v) }
            pub fn from_slice(v: &[$t]) -> $S { <$S>::from_slice(v) }
            pub fn from_seq(v: &$S) -> $S { <$S>::from_seq(v) }
            pub fn iter_collect(x: &$S) -> Vec<$t> { SeqTrait::iter(x).map(|e| *e).collect::<Vec<$t>>() }
            pub fn index_usize(x: &$S, i: usize) -> $t { x[i] }
            pub fn index_u8(x: &$S, i: u8) -> $t { x[i] }
            pub fn index_u32(x: &$S, i: u32) -> $t { x[i] }
            pub fn index_i32(x: &$S, i: i32) -> $t { x[i] }
            pub fn index_range(x: &$S, a: usize, b: usize) -> Vec<$t> { x[a..b].to_vec() }
            pub fn index_mut_usize(x: $S, i: usize, v: $t) -> $S { let mut x = x; x[i] = v; x }
            pub fn index_mut_u8(x: $S, i: u8, v: $t) -> $S { let mut x = x; x[i] = v; x }
            pub fn index_mut_u32(x: $S, i: u32, v: $t) -> $S { let mut x = x; x[i] = v; x }
            pub fn index_mut_i32(x: $S, i: i32, v: $t) -> $S { let mut x = x; x[i] = v; x }
        }
    };
}
seq_common!(e_SeqU8, Seq<U8>, U8);
seq_common!(e_Sequ32, Seq<u32>, u32);
seq_common!(e_SecU64, SecretSeq<U64>, U64);
seq_common!(e_Pubu8, PublicSeq<u8>, u8);
seq_common!(e_Pubu128, PublicSeq<u128>, u128);

pub mod seqx {
    use super::*;
    pub fn from_hex(s: &str) -> Seq<U8> { Seq::<U8>::from_hex(s) }
    pub fn from_string(s: String) -> Seq<U8> { Seq::<U8>::from_string(s) }
    pub fn p_from_hex(s: &str) -> PublicSeq<u8> { PublicSeq::<u8>::from_hex(s) }
    pub fn p_from_string(s: String) -> PublicSeq<u8> { PublicSeq::<u8>::from_string(s) }
    pub fn hex_string_to_bytes(s: &str) -> Vec<u8> { hacspec::prelude::hex_string_to_bytes(s) }
    pub fn eq(x: &Seq<U8>, y: &Seq<U8>) -> bool { x == y }
    pub fn random(l: usize) -> Seq<U8> { Seq::<U8>::random(l) }
    pub fn to_hex(x: &Seq<U8>) -> String { x.to_hex() }
    pub fn p_to_hex(x: &PublicSeq<u8>) -> String { x.to_hex() }
    pub fn from_public_slice(x: &[u8]) -> Seq<U8> { Seq::<U8>::from_public_slice(x) }
    pub fn to_array4(x: &[u8]) -> [u8; 4] { hacspec::prelude::to_array(x) }
    pub fn p_add(x: PublicSeq<u32>, y: PublicSeq<u32>) -> PublicSeq<u32> { x + y }
    pub fn p_sub(x: PublicSeq<u32>, y: PublicSeq<u32>) -> PublicSeq<u32> { x - y }
    pub fn p_mul(x: PublicSeq<u32>, y: PublicSeq<u32>) -> PublicSeq<u32> { x * y }
    pub fn p_bitxor(x: PublicSeq<u32>, y: PublicSeq<u32>) -> PublicSeq<u32> { x ^ y }
    pub fn vec_poly_mul(x: Seq<u32>, y: Seq<u32>, n: u32) -> Seq<u32> { hacspec::prelude::vec_poly_mul(x, y, n) }
    pub fn vec_poly_add(x: Seq<u32>, y: Seq<u32>, n: u32) -> Seq<u32> { hacspec::prelude::vec_poly_add(x, y, n) }
    pub fn vec_poly_sub(x: Seq<u32>, y: Seq<u32>, n: u32) -> Seq<u32> { hacspec::prelude::vec_poly_sub(x, y, n) }
}
