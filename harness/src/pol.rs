use hacspec::prelude::*;
macro_rules! slices {
    ($m:ident, $t:ident) => { pub mod $m { use hacspec::prelude::*;
        pub fn leading_coefficient(x: &[$t]) -> (usize, $t) { hacspec::prelude::leading_coefficient(x) }
        pub fn poly_sub(x: &[$t], y: &[$t], n: $t) -> Vec<$t> { hacspec::prelude::poly_sub(x, y, n) }
        pub fn poly_add(x: &[$t], y: &[$t], n: $t) -> Vec<$t> { hacspec::prelude::poly_add(x, y, n) }
        pub fn poly_mul(x: &[$t], y: &[$t], n: $t) -> Vec<$t> { hacspec::prelude::poly_mul(x, y, n) }
        pub fn poly_div(x: &[$t], y: &[$t], n: $t) -> (Vec<$t>, Vec<$t>) { hacspec::prelude::poly_div(x, y, n) }
        pub fn extended_euclid(x: &[$t], y: &[$t], n: $t) -> Result<Vec<$t>, &'static str> { hacspec::prelude::extended_euclid(x, y, n) }
    } }
}
slices!(s_u128, u128);
slices!(s_i128, i128);
slices!(s_u32, u32);

pub mod ring {
    use hacspec::prelude::*;
    poly!(R, i128, 3, 7, [(0, 1), (3, 1)]);
    pub fn new(x: &[(usize, i128)]) -> [i128; 3] { R::new(x).poly }
    pub fn add(x: [i128; 3], y: [i128; 3]) -> [i128; 3] { (R::new_full(x) + R::new_full(y)).poly }
    pub fn sub(x: [i128; 3], y: [i128; 3]) -> [i128; 3] { (R::new_full(x) - R::new_full(y)).poly }
    pub fn mul(x: [i128; 3], y: [i128; 3]) -> [i128; 3] { (R::new_full(x) * R::new_full(y)).poly }
    pub fn div(x: [i128; 3], y: [i128; 3]) -> ([i128; 3], [i128; 3]) { let r = R::new_full(x) / R::new_full(y); (r.0.poly, r.1.poly) }
    pub fn eq(x: [i128; 3], y: [i128; 3]) -> bool { R::new_full(x) == R::new_full(y) }
    pub fn inv(x: [i128; 3]) -> [i128; 3] { R::new_full(x).inv().poly }
    pub fn from_vec(x: Vec<i128>) -> [i128; 3] { R::from_vec(x).poly }
    pub fn random() -> [i128; 3] { R::random().poly }
}
