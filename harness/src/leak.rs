//! Positive controls of the information-flow analysis: one leak of each kind. Never executed.
use secret_integers::*;
pub fn branch(x: U8) -> u8 { if U8::declassify(x) > 3 { 1 } else { 2 } }
pub fn branch_far(x: U32, y: U32) -> u32 { let mut r = 0; for i in 0..32 { if (U32::declassify(x) >> i) & 1 == 1 { r += U32::declassify(y) >> i } } r }
pub fn index(x: U8) -> u8 { let t = [7u8; 256]; t[U8::declassify(x) as usize] }
pub fn div(x: U32, y: U32) -> u32 { U32::declassify(x) / (U32::declassify(y) | 1) }
pub fn rem(x: U64) -> u64 { U64::declassify(x) % 10 }
pub fn shift(x: U32) -> u32 { 1u32.wrapping_shl(U32::declassify(x)) }
pub fn alloc(x: U8) -> Vec<u8> { Vec::with_capacity(U8::declassify(x) as usize & 3) }
pub fn overflow(x: U8, y: U8) -> u8 { U8::declassify(x) + U8::declassify(y) }
pub fn matched(x: U8) -> u8 { match U8::declassify(x) { 0 => 3, 9 => 1, _ => 0 } }
pub fn shortcut(x: U8, y: U8) -> bool { U8::declassify(x) == 1 && U8::declassify(y) == 1 }
pub fn compare(x: [U8; 4], y: [U8; 4]) -> bool { x.iter().zip(y.iter()).all(|(a, b)| U8::declassify(*a) == U8::declassify(*b)) }
