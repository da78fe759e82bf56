use secret_integers::*;
macro_rules! secret_common {
    ($m:ident, $T:ident, $r:ident) => {
        pub mod $m {
            use secret_integers::*;
            pub fn classify(x: $r) -> $T { $T::classify(x) }
            pub fn declassify(x: $T) -> $r { x.declassify() }
            pub fn from_repr(x: $r) -> $T { $T::from(x) }
            pub fn zero() -> $T { $T::zero() }
            pub fn one() -> $T { $T::one() }
            pub fn ones() -> $T { $T::ones() }
            pub fn max_value() -> $T { $T::max_value() }
            pub fn default() -> $T { <$T as Default>::default() }
            pub fn clone(x: &$T) -> $T { x.clone() }
            pub fn add(x: $T, y: $T) -> $T { x + y }
            pub fn sub(x: $T, y: $T) -> $T { x - y }
            pub fn mul(x: $T, y: $T) -> $T { x * y }
            pub fn bitand(x: $T, y: $T) -> $T { x & y }
            pub fn bitor(x: $T, y: $T) -> $T { x | y }
            pub fn bitxor(x: $T, y: $T) -> $T { x ^ y }
            pub fn not(x: $T) -> $T { !x }
            pub fn neg(x: $T) -> $T { -x }
            pub fn shl(x: $T, n: u32) -> $T { x << n }
            pub fn shr(x: $T, n: u32) -> $T { x >> n }
            pub fn add_assign(x: $T, y: $T) -> $T { let mut x = x; x += y; x }
            pub fn sub_assign(x: $T, y: $T) -> $T { let mut x = x; x -= y; x }
            pub fn mul_assign(x: $T, y: $T) -> $T { let mut x = x; x *= y; x }
            pub fn bitand_assign(x: $T, y: $T) -> $T { let mut x = x; x &= y; x }
            pub fn bitor_assign(x: $T, y: $T) -> $T { let mut x = x; x |= y; x }
            pub fn bitxor_assign(x: $T, y: $T) -> $T { let mut x = x; x ^= y; x }
            pub fn shl_assign(x: $T, n: u32) -> $T { let mut x = x; x <<= n; x }
            pub fn shr_assign(x: $T, n: u32) -> $T { let mut x = x; x >>= n; x }
            pub fn rotate_left(x: $T, n: u32) -> $T { x.rotate_left(n) }
            pub fn rotate_right(x: $T, n: u32) -> $T { x.rotate_right(n) }
            pub fn checked_add(x: $T, y: $T) -> $T { x.checked_add(y) }
            pub fn checked_sub(x: $T, y: $T) -> $T { x.checked_sub(y) }
            pub fn checked_mul(x: $T, y: $T) -> $T { x.checked_mul(y) }
            pub fn from_le_bytes(x: &[U8]) -> Vec<$T> { $T::from_le_bytes(x) }
            pub fn from_be_bytes(x: &[U8]) -> Vec<$T> { $T::from_be_bytes(x) }
            pub fn to_le_bytes(x: &[$T]) -> Vec<U8> { $T::to_le_bytes(x) }
            pub fn to_be_bytes(x: &[$T]) -> Vec<U8> { $T::to_be_bytes(x) }
            pub fn comp_eq(x: $T, y: $T) -> $T { x.comp_eq(y) }
            pub fn comp_ne(x: $T, y: $T) -> $T { x.comp_ne(y) }
            pub fn comp_gte(x: $T, y: $T) -> $T { x.comp_gte(y) }
            pub fn comp_gt(x: $T, y: $T) -> $T { x.comp_gt(y) }
            pub fn comp_lte(x: $T, y: $T) -> $T { x.comp_lte(y) }
            pub fn comp_lt(x: $T, y: $T) -> $T { x.comp_lt(y) }
        }
    };
}
secret_common!(U8_, U8, u8);
secret_common!(U16_, U16, u16);
secret_common!(U32_, U32, u32);
secret_common!(U64_, U64, u64);
secret_common!(U128_, U128, u128);
secret_common!(I8_, I8, i8);
secret_common!(I16_, I16, i16);
secret_common!(I32_, I32, i32);
secret_common!(I64_, I64, i64);
secret_common!(I128_, I128, i128);

/// All conversions between integer types the crate documents.
pub mod conv {
    use secret_integers::*;
    macro_rules! c { ($($n:ident: $f:ident => $t:ident;)*) => { $( pub fn $n(x: $f) -> $t { <$t>::from(x) } )* } }
    c! {
        U8_U128: U8 => U128; U128_U8: U128 => U8; U16_U128: U16 => U128; U128_U16: U128 => U16;
        U32_U128: U32 => U128; U128_U32: U128 => U32; U64_U128: U64 => U128; U128_U64: U128 => U64;
        U8_U64: U8 => U64; U64_U8: U64 => U8; U16_U64: U16 => U64; U64_U16: U64 => U16;
        U32_U64: U32 => U64; U64_U32: U64 => U32;
        U8_U32: U8 => U32; U32_U8: U32 => U8; U16_U32: U16 => U32; U32_U16: U32 => U16;
        U8_U16: U8 => U16; U16_U8: U16 => U8;
        U8_u8: U8 => u8; U8_u16: U8 => u16; U8_u32: U8 => u32; U8_u64: U8 => u64; U8_u128: U8 => u128;
        U8_usize: U8 => usize; usize_U8: usize => U8;
        U16_u16: U16 => u16; U16_u32: U16 => u32; U16_u64: U16 => u64; U16_u128: U16 => u128;
        U32_u32: U32 => u32; U32_u64: U32 => u64; U32_u128: U32 => u128;
        U64_u64: U64 => u64; U64_u128: U64 => u128; U128_u128: U128 => u128;
        u8_U16: u8 => U16; u8_U32: u8 => U32; u16_U32: u16 => U32;
        u8_U64: u8 => U64; u16_U64: u16 => U64; u32_U64: u32 => U64; usize_U64: usize => U64;
        u8_U128: u8 => U128; u16_U128: u16 => U128; u32_U128: u32 => U128; u64_U128: u64 => U128;
        usize_U128: usize => U128;
        I8_I128: I8 => I128; I128_I8: I128 => I8; I16_I128: I16 => I128; I128_I16: I128 => I16;
        I32_I128: I32 => I128; I128_I32: I128 => I32; I64_I128: I64 => I128; I128_I64: I128 => I64;
        I8_I64: I8 => I64; I64_I8: I64 => I8; I16_I64: I16 => I64; I64_I16: I64 => I16;
        I32_I64: I32 => I64; I64_I32: I64 => I32;
        I8_I32: I8 => I32; I32_I8: I32 => I8; I16_I32: I16 => I32; I32_I16: I32 => I16;
        I8_I16: I8 => I16; I16_I8: I16 => I8;
        U128_I128: U128 => I128; I128_U128: I128 => U128; U64_I64: U64 => I64; I64_U64: I64 => U64;
        U32_I32: U32 => I32; I32_U32: I32 => U32; U16_I16: U16 => I16; I16_U16: I16 => U16;
        U8_I8: U8 => I8; I8_U8: I8 => U8;
    }
    macro_rules! cl { ($($n:ident: $f:ident => $t:ident;)*) => { $( pub fn $n(x: $f) -> $t { <$t>::classify(x) } )* } }
    cl! {
        cl_u8_U16: u8 => U16; cl_u8_U32: u8 => U32; cl_u16_U32: u16 => U32; cl_u8_U64: u8 => U64;
        cl_u16_U64: u16 => U64; cl_u32_U64: u32 => U64; cl_u8_U128: u8 => U128; cl_u64_U128: u64 => U128;
        cl_i8_I16: i8 => I16; cl_i16_I32: i16 => I32; cl_i32_I64: i32 => I64; cl_i64_I128: i64 => I128;
    }
}
