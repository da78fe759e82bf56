use hacspec::prelude::*;

macro_rules! numeric {
    ($m:ident, $T:ident) => {
        pub mod $m {
            use hacspec::prelude::*;
            pub fn NUM_BITS() -> u32 { <$T as Integer>::NUM_BITS }
            pub fn ZERO() -> $T { <$T as Integer>::ZERO }
            pub fn ONE() -> $T { <$T as Integer>::ONE }
            pub fn TWO() -> $T { <$T as Integer>::TWO }
            pub fn from_literal(x: u128) -> $T { <$T as Integer>::from_literal(x) }
            pub fn get_bit(x: $T, i: u32) -> $T { Integer::get_bit(x, i) }
            pub fn set_bit(x: $T, b: $T, i: u32) -> $T { Integer::set_bit(x, b, i) }
            pub fn set(x: $T, p: u32, y: $T, yi: u32) -> $T { Integer::set(x, p, y, yi) }
            pub fn rotate_left(x: $T, n: u32) -> $T { Integer::rotate_left(x, n) }
            pub fn rotate_right(x: $T, n: u32) -> $T { Integer::rotate_right(x, n) }
            pub fn max_val() -> $T { <$T as NumericBase>::max_val() }
            pub fn wrap_add(x: $T, y: $T) -> $T { NumericBase::wrap_add(x, y) }
            pub fn wrap_sub(x: $T, y: $T) -> $T { NumericBase::wrap_sub(x, y) }
            pub fn wrap_mul(x: $T, y: $T) -> $T { NumericBase::wrap_mul(x, y) }
            pub fn wrap_div(x: $T, y: $T) -> $T { NumericBase::wrap_div(x, y) }
            pub fn pow(x: $T, n: u32) -> $T { NumericBase::pow(x, n) }
            pub fn div(x: $T, y: $T) -> $T { NumericBase::div(x, y) }
            pub fn inv(x: $T, n: $T) -> $T { NumericBase::inv(x, n) }
            pub fn equal(x: $T, y: $T) -> bool { NumericBase::equal(x, y) }
            pub fn greater_than(x: $T, y: $T) -> bool { NumericBase::greater_than(x, y) }
            pub fn greater_than_or_qual(x: $T, y: $T) -> bool { NumericBase::greater_than_or_qual(x, y) }
            pub fn less_than(x: $T, y: $T) -> bool { NumericBase::less_than(x, y) }
            pub fn less_than_or_equal(x: $T, y: $T) -> bool { NumericBase::less_than_or_equal(x, y) }
            pub fn not_equal_bm(x: $T, y: $T) -> $T { NumericBase::not_equal_bm(x, y) }
            pub fn equal_bm(x: $T, y: $T) -> $T { NumericBase::equal_bm(x, y) }
            pub fn greater_than_bm(x: $T, y: $T) -> $T { NumericBase::greater_than_bm(x, y) }
            pub fn greater_than_or_qual_bm(x: $T, y: $T) -> $T { NumericBase::greater_than_or_qual_bm(x, y) }
            pub fn less_than_bm(x: $T, y: $T) -> $T { NumericBase::less_than_bm(x, y) }
            pub fn less_than_or_equal_bm(x: $T, y: $T) -> $T { NumericBase::less_than_or_equal_bm(x, y) }
            pub fn sub_mod(x: $T, y: $T, n: $T) -> $T { ModNumeric::sub_mod(x, y, n) }
            pub fn add_mod(x: $T, y: $T, n: $T) -> $T { ModNumeric::add_mod(x, y, n) }
            pub fn mul_mod(x: $T, y: $T, n: $T) -> $T { ModNumeric::mul_mod(x, y, n) }
            pub fn modulo(x: $T, n: $T) -> $T { ModNumeric::modulo(x, n) }
            pub fn cswap_bit(x: $T, y: $T, c: $T) -> ($T, $T) { hacspec::prelude::cswap_bit(x, y, c) }
            pub fn cswap(x: $T, y: $T, c: $T) -> ($T, $T) { hacspec::prelude::cswap(x, y, c) }
            pub fn cset_bit(x: $T, b: $T, i: u32, c: $T) -> $T { hacspec::prelude::cset_bit(x, b, i, c) }
            pub fn cadd(x: $T, y: $T, c: $T) -> $T { hacspec::prelude::cadd(x, y, c) }
            pub fn csub(x: $T, y: $T, c: $T) -> $T { hacspec::prelude::csub(x, y, c) }
            pub fn cmul(x: $T, y: $T, c: $T) -> $T { hacspec::prelude::cmul(x, y, c) }
            pub fn ct_div(a: $T, d: $T) -> ($T, $T) { hacspec::prelude::ct_div(a, d) }
        }
    };
}
numeric!(n_u8, u8); numeric!(n_u16, u16); numeric!(n_u32, u32); numeric!(n_u64, u64); numeric!(n_u128, u128);
numeric!(n_i8, i8); numeric!(n_i16, i16); numeric!(n_i32, i32); numeric!(n_i64, i64); numeric!(n_i128, i128);
numeric!(n_U8, U8); numeric!(n_U16, U16); numeric!(n_U32, U32); numeric!(n_U64, U64); numeric!(n_U128, U128);
numeric!(n_I8, I8); numeric!(n_I16, I16); numeric!(n_I32, I32); numeric!(n_I64, I64); numeric!(n_I128, I128);

macro_rules! secret_trait {
    ($m:ident, $T:ident, $r:ident) => {
        pub mod $m {
            use hacspec::prelude::*;
            pub fn classify(x: $r) -> $T { <$T as SecretInteger>::classify(x) }
        }
    };
}
secret_trait!(s_U8, U8, u8); secret_trait!(s_U16, U16, u16); secret_trait!(s_U32, U32, u32);
secret_trait!(s_U64, U64, u64); secret_trait!(s_U128, U128, u128);
secret_trait!(s_I8, I8, i8); secret_trait!(s_I16, I16, i16); secret_trait!(s_I32, I32, i32);
secret_trait!(s_I64, I64, i64); secret_trait!(s_I128, I128, i128);

macro_rules! bytes_trait {
    ($m:ident, $T:ident, $tr:ident, $b:ident) => {
        pub mod $m {
            use hacspec::prelude::*;
            pub fn to_le_bytes(x: $T) -> Seq<$b> { <$T as $tr>::to_le_bytes(x) }
            pub fn to_be_bytes(x: $T) -> Seq<$b> { <$T as $tr>::to_be_bytes(x) }
            pub fn from_le_bytes(x: &Seq<$b>) -> $T { <$T as $tr>::from_le_bytes(x) }
            pub fn from_be_bytes(x: &Seq<$b>) -> $T { <$T as $tr>::from_be_bytes(x) }
        }
    };
}
bytes_trait!(b_U8, U8, UnsignedSecretInteger, U8); bytes_trait!(b_U16, U16, UnsignedSecretInteger, U8);
bytes_trait!(b_U32, U32, UnsignedSecretInteger, U8); bytes_trait!(b_U64, U64, UnsignedSecretInteger, U8);
bytes_trait!(b_U128, U128, UnsignedSecretInteger, U8);
bytes_trait!(b_u8, u8, UnsignedPublicInteger, u8); bytes_trait!(b_u16, u16, UnsignedPublicInteger, u8);
bytes_trait!(b_u32, u32, UnsignedPublicInteger, u8); bytes_trait!(b_u64, u64, UnsignedPublicInteger, u8);
bytes_trait!(b_u128, u128, UnsignedPublicInteger, u8);

pub mod get_byte {
    use hacspec::prelude::*;
    pub fn U8_(x: U8, i: u32) -> U8 { x.get_byte(i) }
    pub fn U16_(x: U16, i: u32) -> U16 { x.get_byte(i) }
    pub fn U32_(x: U32, i: u32) -> U32 { x.get_byte(i) }
    pub fn U64_(x: U64, i: u32) -> U64 { x.get_byte(i) }
    pub fn U128_(x: U128, i: u32) -> U128 { x.get_byte(i) }
}

macro_rules! transm {
    ($m:ident, $T:ident, $W:ident, $tl:ident, $tb:ident, $fl:ident, $fb:ident) => {
        pub mod $m {
            use hacspec::prelude::*;
            pub fn to_le(x: $T) -> $W { $tl(x) }
            pub fn to_be(x: $T) -> $W { $tb(x) }
            pub fn from_le(x: $W) -> $T { $fl(x) }
            pub fn from_be(x: $W) -> $T { $fb(x) }
        }
    };
}
transm!(t_U16, U16, U16Word, U16_to_le_bytes, U16_to_be_bytes, U16_from_le_bytes, U16_from_be_bytes);
transm!(t_U32, U32, U32Word, U32_to_le_bytes, U32_to_be_bytes, U32_from_le_bytes, U32_from_be_bytes);
transm!(t_U64, U64, U64Word, U64_to_le_bytes, U64_to_be_bytes, U64_from_le_bytes, U64_from_be_bytes);
transm!(t_U128, U128, U128Word, U128_to_le_bytes, U128_to_be_bytes, U128_from_le_bytes, U128_from_be_bytes);
transm!(t_u16, u16, u16Word, u16_to_le_bytes, u16_to_be_bytes, u16_from_le_bytes, u16_from_be_bytes);
transm!(t_u32, u32, u32Word, u32_to_le_bytes, u32_to_be_bytes, u32_from_le_bytes, u32_from_be_bytes);
transm!(t_u64, u64, u64Word, u64_to_le_bytes, u64_to_be_bytes, u64_from_le_bytes, u64_from_be_bytes);
transm!(t_u128, u128, u128Word, u128_to_le_bytes, u128_to_be_bytes, u128_from_le_bytes, u128_from_be_bytes);
