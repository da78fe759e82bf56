use hacspec::prelude::*;

pub mod plain {
    use abstract_integers::*;
    abstract_unsigned_public_integer!(UP64, 64);
    abstract_unsigned_public_integer!(UP12, 12);
    abstract_signed_public_integer!(SP64, 64);
    abstract_signed_public_integer!(SP12, 12);
    abstract_unsigned_secret_integer!(US64, 64);
    abstract_unsigned_secret_integer!(US12, 12);
    abstract_signed_secret_integer!(SS64, 64);
    define_abstract_integer_checked!(LEG, 40);
    abstract_nat_mod!(NMS, NMSBase, 64, "ffffffffffffffc5");
    abstract_public_nat_mod!(NMP, NMPBase, 72, "01fffffffffffffffb");
    define_refined_modular_integer!(LEGM, LEG, LEG::from_hex("0fffffffa9"));

    macro_rules! common {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn from_literal(x: u128) -> $T { $T::from_literal(x) }
            pub fn from_signed_literal(x: i128) -> $T { $T::from_signed_literal(x) }
            pub fn pow2(x: usize) -> $T { $T::pow2(x) }
            pub fn bit(x: $T, i: usize) -> bool { x.bit(i) }
            pub fn from_biguint(x: BigUint) -> $T { $T::from(x) }
            pub fn from_bigint(x: BigInt) -> $T { $T::from(x) }
            pub fn into_bigint(x: $T) -> BigInt { x.into() }
            pub fn into_biguint(x: $T) -> BigUint { x.into() }
            pub fn default() -> $T { <$T as Default>::default() }
            pub fn add(x: $T, y: $T) -> $T { x + y }
            pub fn sub(x: $T, y: $T) -> $T { x - y }
            pub fn mul(x: $T, y: $T) -> $T { x * y }
        } }
    }
    common!(up64, UP64); common!(up12, UP12); common!(sp64, SP64); common!(sp12, SP12);
    common!(us64, US64); common!(us12, US12); common!(ss64, SS64); common!(leg, LEG);
    common!(nmsbase, NMSBase); common!(nmpbase, NMPBase);

    macro_rules! public {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn div(x: $T, y: $T) -> $T { x / y }
            pub fn rem(x: $T, y: $T) -> $T { x % y }
            pub fn eq(x: $T, y: $T) -> bool { x == y }
            pub fn ne(x: $T, y: $T) -> bool { x != y }
            pub fn lt(x: $T, y: $T) -> bool { x < y }
            pub fn gt(x: $T, y: $T) -> bool { x > y }
            pub fn le(x: $T, y: $T) -> bool { x <= y }
            pub fn ge(x: $T, y: $T) -> bool { x >= y }
            pub fn cmp(x: &$T, y: &$T) -> Ordering { x.cmp(y) }
            pub fn inv(x: $T, n: $T) -> $T { x.inv(n) }
            pub fn pow_felem(x: $T, e: $T, n: $T) -> $T { x.pow_felem(e, n) }
            pub fn pow(x: $T, e: u128, n: $T) -> $T { x.pow(e, n) }
        } }
    }
    public!(up64p, UP64); public!(up12p, UP12); public!(sp64p, SP64); public!(sp12p, SP12); public!(legp, LEG);
    public!(nmpbasep, NMPBase);

    macro_rules! unsigned {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn from_hex(s: &str) -> $T { $T::from_hex(s) }
            pub fn from_le_bytes(v: &[u8]) -> $T { $T::from_le_bytes(v) }
            pub fn to_le_bytes(x: $T) -> Vec<u8> { x.to_le_bytes() }
        } }
    }
    unsigned!(up64u, UP64); unsigned!(up12u, UP12); unsigned!(us64u, US64); unsigned!(us12u, US12); unsigned!(legu, LEG);
    pub mod signedhex { use super::*;
        pub fn sp64(g: &str, s: &str) -> SP64 { SP64::from_hex(g, s) }
        pub fn ss64(g: &str, s: &str) -> SS64 { SS64::from_hex(g, s) }
    }

    macro_rules! modular {
        ($m:ident, $T:ident, $B:ident) => { pub mod $m { use super::*;
            pub fn from_base(x: $B) -> $T { $T::from(x) }
            pub fn into_base(x: $T) -> $B { x.into() }
            pub fn max() -> $B { $T::max() }
            pub fn default() -> $T { <$T as Default>::default() }
            pub fn from_hex(s: &str) -> $T { $T::from_hex(s) }
            pub fn from_le_bytes(v: &[u8]) -> $T { $T::from_le_bytes(v) }
            pub fn to_le_bytes(x: $T) -> Vec<u8> { x.to_le_bytes() }
            pub fn bit(x: $T, i: usize) -> bool { x.bit(i) }
            pub fn from_literal(x: u128) -> $T { $T::from_literal(x) }
            pub fn from_signed_literal(x: i128) -> $T { $T::from_signed_literal(x) }
            pub fn add(x: $T, y: $T) -> $T { x + y }
            pub fn sub(x: $T, y: $T) -> $T { x - y }
            pub fn mul(x: $T, y: $T) -> $T { x * y }
        } }
    }
    modular!(nms, NMS, NMSBase); modular!(nmp, NMP, NMPBase); modular!(legm, LEGM, LEG);
    macro_rules! pubmod {
        ($m:ident, $T:ident, $B:ident) => { pub mod $m { use super::*;
            pub fn div(x: $T, y: $T) -> $T { x / y }
            pub fn rem(x: $T, y: $T) -> $T { x % y }
            pub fn eq(x: $T, y: $T) -> bool { x == y }
            pub fn ne(x: $T, y: $T) -> bool { x != y }
            pub fn lt(x: $T, y: $T) -> bool { x < y }
            pub fn gt(x: $T, y: $T) -> bool { x > y }
            pub fn le(x: $T, y: $T) -> bool { x <= y }
            pub fn ge(x: $T, y: $T) -> bool { x >= y }
            pub fn cmp(x: &$T, y: &$T) -> Ordering { x.cmp(y) }
            pub fn inv(x: $T) -> $T { x.inv() }
            pub fn pow_felem(x: $T, e: $T) -> $T { x.pow_felem(e) }
            pub fn pow(x: $T, e: u128) -> $T { x.pow(e) }
        } }
    }
    pubmod!(nmpp, NMP, NMPBase); pubmod!(legmp, LEGM, LEG);
}

/// The same families through hacspec's own macros.
pub mod hs {
    use hacspec::prelude::*;
    unsigned_public_integer!(HUP, 64);
    signed_public_integer!(HSP, 64);
    unsigned_integer!(HUS, 64);
    signed_integer!(HSS, 64);
    nat_mod!(HNM, HNMBase, 64, "ffffffffffffffc5");
    public_nat_mod!(HPNM, HPNMBase, 128, "fffffffffffffffffffffffffffffd1f");
    macro_rules! common {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn from_literal(x: u128) -> $T { $T::from_literal(x) }
            pub fn add(x: $T, y: $T) -> $T { x + y }
            pub fn sub(x: $T, y: $T) -> $T { x - y }
            pub fn mul(x: $T, y: $T) -> $T { x * y }
            pub fn wrap_add(x: $T, y: $T) -> $T { NumericBase::wrap_add(x, y) }
            pub fn wrap_sub(x: $T, y: $T) -> $T { NumericBase::wrap_sub(x, y) }
            pub fn wrap_mul(x: $T, y: $T) -> $T { NumericBase::wrap_mul(x, y) }
        } }
    }
    common!(hup, HUP); common!(hsp, HSP); common!(hus, HUS); common!(hss, HSS); common!(hnm, HNM); common!(hpnm, HPNM);
    pub mod pnm { use super::*;
        pub fn from_byte_seq_le(s: Seq<U8>) -> HPNM { HPNM::from_byte_seq_le(s) }
        pub fn to_public_byte_seq_le(x: HPNM) -> Seq<u8> { x.to_public_byte_seq_le() }
        pub fn to_byte_seq_le(x: HPNM) -> Seq<U8> { x.to_byte_seq_le() }
        pub fn from_secret_literal(x: U128) -> HPNM { HPNM::from_secret_literal(x) }
        pub fn inv(x: HPNM) -> HPNM { x.inv() }
        pub fn pow(x: HPNM, e: u128) -> HPNM { x.pow(e) }
        pub fn div(x: HPNM, y: HPNM) -> HPNM { x / y }
        pub fn rem(x: HPNM, y: HPNM) -> HPNM { x % y }
        pub fn eq(x: HPNM, y: HPNM) -> bool { x == y }
    }
}

/// The same operations seen through the conversions from and to mathematical integers, so that nothing depends on the representation.
pub mod z {
    use super::plain::*;
    use abstract_integers::*;
    macro_rules! conv {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn round(x: BigInt) -> BigInt { $T::from(x).into() }
            pub fn uround(x: BigUint) -> BigInt { $T::from(x).into() }
            pub fn default() -> BigInt { <$T as Default>::default().into() }
            pub fn lit(x: u128) -> BigInt { $T::from_literal(x).into() }
            pub fn slit(x: i128) -> BigInt { $T::from_signed_literal(x).into() }
            pub fn pow2(x: usize) -> BigInt { $T::pow2(x).into() }
            pub fn bit(x: BigInt, i: usize) -> bool { $T::from(x).bit(i) }
            pub fn add(x: BigInt, y: BigInt) -> BigInt { ($T::from(x) + $T::from(y)).into() }
            pub fn sub(x: BigInt, y: BigInt) -> BigInt { ($T::from(x) - $T::from(y)).into() }
            pub fn mul(x: BigInt, y: BigInt) -> BigInt { ($T::from(x) * $T::from(y)).into() }
        } }
    }
    conv!(up64, UP64); conv!(up12, UP12); conv!(sp64, SP64); conv!(sp12, SP12);
    conv!(us64, US64); conv!(us12, US12); conv!(ss64, SS64); conv!(leg, LEG);
    macro_rules! public {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn div(x: BigInt, y: BigInt) -> BigInt { ($T::from(x) / $T::from(y)).into() }
            pub fn rem(x: BigInt, y: BigInt) -> BigInt { ($T::from(x) % $T::from(y)).into() }
            pub fn eq(x: BigInt, y: BigInt) -> bool { $T::from(x) == $T::from(y) }
            pub fn ne(x: BigInt, y: BigInt) -> bool { $T::from(x) != $T::from(y) }
            pub fn lt(x: BigInt, y: BigInt) -> bool { $T::from(x) < $T::from(y) }
            pub fn gt(x: BigInt, y: BigInt) -> bool { $T::from(x) > $T::from(y) }
            pub fn le(x: BigInt, y: BigInt) -> bool { $T::from(x) <= $T::from(y) }
            pub fn ge(x: BigInt, y: BigInt) -> bool { $T::from(x) >= $T::from(y) }
            pub fn cmp(x: BigInt, y: BigInt) -> Ordering { $T::from(x).cmp(&$T::from(y)) }
            pub fn max(x: BigInt, y: BigInt) -> BigInt { $T::from(x).max($T::from(y)).into() }
        } }
    }
    public!(up64p, UP64); public!(up12p, UP12); public!(sp64p, SP64); public!(sp12p, SP12); public!(legp, LEG);
    macro_rules! unsigned {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn from_le_bytes(v: &[u8]) -> BigInt { $T::from_le_bytes(v).into() }
            pub fn from_hex(s: &str) -> BigInt { $T::from_hex(s).into() }
            pub fn to_le_bytes(x: BigInt) -> Vec<u8> { $T::from(x).to_le_bytes() }
            pub fn into_biguint(x: BigInt) -> BigUint { $T::from(x).into() }
        } }
    }
    unsigned!(up64u, UP64); unsigned!(up12u, UP12); unsigned!(us64u, US64); unsigned!(us12u, US12); unsigned!(legu, LEG);
    macro_rules! modular {
        ($m:ident, $T:ident, $B:ident) => { pub mod $m { use super::*;
            fn out(x: $T) -> BigInt { let b: $B = x.into(); b.into() }
            fn inn(x: BigInt) -> $T { $B::from(x).into() }
            pub fn round(x: BigInt) -> BigInt { out(inn(x)) }
            pub fn default() -> BigInt { out(<$T as Default>::default()) }
            pub fn max() -> BigInt { $T::max().into() }
            pub fn from_le_bytes(v: &[u8]) -> BigInt { out($T::from_le_bytes(v)) }
            pub fn from_hex(s: &str) -> BigInt { out($T::from_hex(s)) }
            pub fn to_le_bytes(x: BigInt) -> Vec<u8> { inn(x).to_le_bytes() }
            pub fn bit(x: BigInt, i: usize) -> bool { inn(x).bit(i) }
            pub fn lit(x: u128) -> BigInt { out($T::from_literal(x)) }
            pub fn slit(x: i128) -> BigInt { out($T::from_signed_literal(x)) }
            pub fn add(x: BigInt, y: BigInt) -> BigInt { out(inn(x) + inn(y)) }
            pub fn sub(x: BigInt, y: BigInt) -> BigInt { out(inn(x) - inn(y)) }
            pub fn mul(x: BigInt, y: BigInt) -> BigInt { out(inn(x) * inn(y)) }
        } }
    }
    pub mod signedhex { use super::*;
        pub fn sp64(g: &str, s: &str) -> BigInt { SP64::from_hex(g, s).into() }
        pub fn sp12(g: &str, s: &str) -> BigInt { SP12::from_hex(g, s).into() }
        pub fn ss64(g: &str, s: &str) -> BigInt { SS64::from_hex(g, s).into() }
    }
    modular!(nms, NMS, NMSBase); modular!(nmp, NMP, NMPBase); modular!(legm, LEGM, LEG);
    macro_rules! pubmod {
        ($m:ident, $T:ident, $B:ident) => { pub mod $m { use super::*;
            fn out(x: $T) -> BigInt { let b: $B = x.into(); b.into() }
            fn inn(x: BigInt) -> $T { $B::from(x).into() }
            pub fn div(x: BigInt, y: BigInt) -> BigInt { out(inn(x) / inn(y)) }
            pub fn rem(x: BigInt, y: BigInt) -> BigInt { out(inn(x) % inn(y)) }
            pub fn eq(x: BigInt, y: BigInt) -> bool { inn(x) == inn(y) }
            pub fn ne(x: BigInt, y: BigInt) -> bool { inn(x) != inn(y) }
            pub fn lt(x: BigInt, y: BigInt) -> bool { inn(x) < inn(y) }
            pub fn gt(x: BigInt, y: BigInt) -> bool { inn(x) > inn(y) }
            pub fn le(x: BigInt, y: BigInt) -> bool { inn(x) <= inn(y) }
            pub fn ge(x: BigInt, y: BigInt) -> bool { inn(x) >= inn(y) }
            pub fn cmp(x: BigInt, y: BigInt) -> Ordering { inn(x).cmp(&inn(y)) }
            pub fn pow(x: BigInt, e: u128) -> BigInt { out(inn(x).pow(e)) }
            pub fn pow_felem(x: BigInt, e: BigInt) -> BigInt { out(inn(x).pow_felem(inn(e))) }
            pub fn inv(x: BigInt) -> BigInt { out(inn(x).inv()) }
        } }
    }
    pubmod!(nmpp, NMP, NMPBase); pubmod!(legmp, LEGM, LEG);
}

pub mod hz {
    use super::hs::*;
    use hacspec::prelude::*;
    macro_rules! wraps {
        ($m:ident, $T:ident) => { pub mod $m { use super::*;
            pub fn wrap_add(x: BigInt, y: BigInt) -> BigInt { NumericBase::wrap_add($T::from(x), $T::from(y)).into() }
            pub fn wrap_sub(x: BigInt, y: BigInt) -> BigInt { NumericBase::wrap_sub($T::from(x), $T::from(y)).into() }
            pub fn wrap_mul(x: BigInt, y: BigInt) -> BigInt { NumericBase::wrap_mul($T::from(x), $T::from(y)).into() }
            pub fn round(x: BigInt) -> BigInt { $T::from(x).into() }
        } }
    }
    wraps!(hup, HUP); wraps!(hsp, HSP); wraps!(hus, HUS); wraps!(hss, HSS);
    macro_rules! modular {
        ($m:ident, $T:ident, $B:ident) => { pub mod $m { use super::*;
            fn out(x: $T) -> BigInt { let b: $B = x.into(); b.into() }
            fn inn(x: BigInt) -> $T { $B::from(x).into() }
            pub fn wrap_add(x: BigInt, y: BigInt) -> BigInt { out(NumericBase::wrap_add(inn(x), inn(y))) }
            pub fn wrap_sub(x: BigInt, y: BigInt) -> BigInt { out(NumericBase::wrap_sub(inn(x), inn(y))) }
            pub fn wrap_mul(x: BigInt, y: BigInt) -> BigInt { out(NumericBase::wrap_mul(inn(x), inn(y))) }
            pub fn round(x: BigInt) -> BigInt { out(inn(x)) }
            pub fn max() -> BigInt { $T::max().into() }
        } }
    }
    modular!(hnm, HNM, HNMBase); modular!(hpnm, HPNM, HPNMBase);
    pub mod pnm { use super::*;
        fn out(x: HPNM) -> BigInt { let b: HPNMBase = x.into(); b.into() }
        fn inn(x: BigInt) -> HPNM { HPNMBase::from(x).into() }
        pub fn from_byte_seq_le(s: Seq<U8>) -> BigInt { out(HPNM::from_byte_seq_le(s)) }
        pub fn to_public_byte_seq_le(x: BigInt) -> Seq<u8> { inn(x).to_public_byte_seq_le() }
        pub fn to_byte_seq_le(x: BigInt) -> Seq<U8> { inn(x).to_byte_seq_le() }
        pub fn from_secret_literal(x: U128) -> BigInt { out(HPNM::from_secret_literal(x)) }
    }
}
