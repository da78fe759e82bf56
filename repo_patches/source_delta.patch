From 9746455bf3a7b16099ce5e74eafba386723212de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 01/24] fix: sha2: pad messages whose length is a multiple of
 the block size

---
 spec-examples/src/sha2/sha2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..1fc23ce 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -189,5 +189,13 @@ pub fn hash(msg: &ByteSeq) -> Digest {
             h = compress(compress_input, h);
         }
     }
+    if msg.len() % BLOCK_SIZE == 0 {
+        // The message fills its last block: the padding is a block of its own
+        let mut pad_block = Block::new();
+        pad_block[0] = U8(0x80);
+        let len_bist: U64 = (msg.len() * 8).into();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From 2ba3addd959b6674a13fe73fcf93a7649b41a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 02/24] fix: blake2: always finalise the last block

---
 spec-examples/src/blake2/blake2b.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..982687c 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -179,7 +179,7 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     let mut t : Counter<Word::PublicVersion> = Counter::new();
     for i in 0..data.num_chunks(128) {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if block_len == 128 && (i + 1) * 128 < data.len() {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
@@ -189,6 +189,10 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
             h = compress(h, &compress_input, t, true, alg);
         }
     }
+    if data.len() == 0 {
+        // The empty message is a single block of zeroes
+        h = compress(h, &ByteSeq::new(128), t, true, alg);
+    }
 
     let digest_size = match alg {
         BlakeVariant::Blake2S => 32,
-- 
2.43.0


From 665a4cbd92ef75fe3ae6d2e27092274af3a2864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 03/24] fix: blake2: keep the high word of the byte counter

---
 spec-examples/src/blake2/blake2b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 982687c..41ce22b 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -72,7 +72,7 @@ fn mix<Word: SecretInteger>(
 }
 
 fn inc_counter<Word: PublicInteger>(t: Counter<Word>, x: Word) -> Counter<Word> {
-    let mut result = Counter::new();
+    let mut result = t;
     let new_val: Word = t[0] + x;
     result[0] = new_val;
     if new_val.less_than(x) {
-- 
2.43.0


From 3d395e839e90ba15b0ef445c6f8866a57f7d1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 04/24] fix: curve25519: full-length base point in
 secret_to_public

---
 spec-examples/src/curve25519/curve25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..88275ed 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,7 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let base = SerializedPoint::from_hex("0900000000000000000000000000000000000000000000000000000000000000");
     scalarmult(s, base)
 }
 
-- 
2.43.0


From 88e18e8c0edea95fffc220361bc8d9a12aea7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 05/24] fix: hkdf: allow the maximal output length of 255
 blocks

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From b7b4dc0643ec11a53d6fc061859f7283f138cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 06/24] fix: xor of public sequences keeps their length

---
 hacspec/src/vec_integers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..c5f321b 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,8 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(self.b.len() == rhs.b.len());
+        let mut out = Self::new(self.b.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From c1482c21f4fc79e8b7145863cff2bd83fccb6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 07/24] fix: comparison masks of public signed integers are all
 ones

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..385e824 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -174,7 +174,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn not_equal_bm(self, other: Self) -> Self {
                 if self != other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -182,7 +182,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn equal_bm(self, other: Self) -> Self {
                 if self == other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -190,7 +190,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_bm(self, other: Self) -> Self {
                 if self > other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -198,7 +198,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_or_qual_bm(self, other: Self) -> Self {
                 if self >= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -206,7 +206,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_bm(self, other: Self) -> Self {
                 if self < other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -214,7 +214,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_or_equal_bm(self, other: Self) -> Self {
                 if self <= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
-- 
2.43.0


From 68b8ed17e6a36fa1ad8cf8a1cd3661851f07743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 08/24] fix: rotation of negative signed integers

---
 hacspec/src/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..b4a7168 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -106,16 +106,22 @@ pub trait Integer: Numeric {
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_left(self, n: u32) -> Self {
-        // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self << n) | (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        if n == 0 {
+            return self;
+        }
+        // Mask out the sign bits an arithmetic shift brings in.
+        let mask = (Self::ONE << n).wrap_sub(Self::ONE);
+        (self << n) | ((self >> (Self::NUM_BITS - n)) & mask)
     }
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_right(self, n: u32) -> Self {
-        // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self >> n) | (self << ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        if n == 0 {
+            return self;
+        }
+        Integer::rotate_left(self, Self::NUM_BITS - n)
     }
 }
 
-- 
2.43.0


From f3e619514676702ef52d1eaaf024286cb490f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 09/24] fix: get_byte of a one-byte integer

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index b4a7168..7336a48 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -271,7 +271,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From a229d66caf3181b7e7e19a9b3eff0a39043aab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 10/24] fix: do not print operands of modular arithmetic

---
 hacspec/src/machine_integers.rs | 2 --
 hacspec/src/math_util.rs        | 1 -
 hacspec/src/poly.rs             | 1 -
 3 files changed, 4 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 385e824..e1f7dfd 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,12 +17,10 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
                 let mut tmp = self;
                 while tmp < rhs {
                     tmp += n;
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
                 (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..498beeb 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -28,7 +28,6 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
     let mut new_t = T::ONE;
     let mut new_r = x;
 
-    println!("n: {:?}", n);
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..7e11970 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -420,7 +420,6 @@ macro_rules! poly {
             /// Invert this polynomial.
             /// **Panics** if the polynomial is not invertible.
             fn inv(self) -> Self {
-                println!("inv {:?}", self);
                 Self::from_vec(extended_euclid(&self.poly, &self.irr, self.n).unwrap())
             }
 
-- 
2.43.0


From c07ad8e4877577e47330f0796181055104808807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 11/24] fix: polynomial multiplication and division over the
 integers

---
 hacspec/src/poly.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 7e11970..33f56f5 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -148,7 +148,12 @@ pub fn poly_mul<T: Numeric>(x: &[T], y: &[T], n: T) -> Vec<T> {
             .map(|(i, x)| (i, x))
             .filter(|(_, &x)| !x.equal(T::default()))
         {
-            out[adx.0 + bdx.0] = out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            let i = adx.0 + bdx.0;
+            out[i] = if n.equal(T::default()) {
+                out[i] + *adx.1 * *bdx.1
+            } else {
+                out[i].add_mod(adx.1.mul_mod(*bdx.1, n), n)
+            };
         }
     }
     out
-- 
2.43.0


From f8848c4a9b2c2cd748d6bb32b5a37a570ae4e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 12/24] fix: reject a polynomial whose leading coefficient does
 not fit

---
 hacspec/src/poly.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 33f56f5..bcdd228 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -430,8 +430,8 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                debug_assert!(d < $l);
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0


From 82ffec055b0c858a99ad56dc764e49771daa4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 13/24] fix: bounded integers can hold their largest value

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..3b872bd 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 1e47addacf7655c43e0d464b9652703786e8154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 14/24] fix: lower bound of signed bounded integers

---
 abstract-integers/src/abstract_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3b872bd..3e6dc41 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -71,6 +71,7 @@ macro_rules! abstract_int {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
                 assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(!$signed || x >= -max_value, "{} is too small for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 2e9e6ed28f2b77558095e9307a249be3113780f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 15/24] fix: negative literals are not reinterpreted as
 unsigned

---
 abstract-integers/src/abstract_int.rs | 2 +-
 abstract-integers/src/nat_mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3e6dc41..7624b1a 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..09e0f44 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -67,7 +67,7 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigUint::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-- 
2.43.0


From aac20e6c61014ba2ceb1bec2f6973ee305c934e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 16/24] fix: literals of modular integers are reduced

---
 abstract-integers/src/nat_mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index 09e0f44..23cafb7 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,8 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let x: $base = big_x.into();
+                x.into()
             }
 
             #[allow(dead_code)]
@@ -71,7 +72,8 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let x: $base = big_x.into();
+                x.into()
             }
         }
     };
-- 
2.43.0


From bf2bd7ccf18dfb6b1536cff5e5601f9c4461981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 17/24] fix: poly1305: add the second key half modulo 2^128

---
 spec-examples/src/chacha20_poly1305/poly1305.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..2bff965 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -60,10 +60,13 @@ pub fn poly(m: &ByteSeq, key: Key) -> Tag {
     )));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
+    // The final addition is modulo 2^128, not in the field.
+    let a: FieldCanvas = a.into();
+    let s: FieldCanvas = s_elem.into();
+    let n = a + s;
     // Note that n might be less than 16 byte -> zero-pad; but might also be
     // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    let n_v = n.to_le_bytes();
     let mut tag = Tag::new();
     for i in 0..min(tag.len(), n_v.len()) {
         tag[i] = n_v[i];
-- 
2.43.0


From 82e8c6a350959276fbe5229544b24cb19e58f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 18/24] fix: poly_div refuses inexact division over the
 integers

---
 hacspec/src/poly.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index bcdd228..6677b45 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -190,6 +190,10 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
         let sy = poly_mul(&s[..], &y[..], n);
         quo = poly_add(&quo[..], &s[..], n);
         rem = poly_sub(&rem, &sy, n);
+        // In ℤ the leading coefficient of y might not divide that of the remainder.
+        if n.equal(T::default()) && !rem[idx].equal(T::default()) {
+            panic!("Can't divide these two polynomials");
+        }
     }
     (quo, make_fixed_length(&rem, yd))
 }
-- 
2.43.0


From 57c70a6685d9473a996c6bb6f0db8fb7369697ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 19/24] fix: hexadecimal text with a sign character is refused

---
 abstract-integers/src/abstract_int.rs | 1 +
 hacspec/src/array.rs                  | 4 ++++
 hacspec/src/util.rs                   | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 7624b1a..3257459 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -15,6 +15,7 @@ macro_rules! abstract_int {
 
             fn hex_string_to_bytes(s: &str) -> Vec<u8> {
                 assert!(s.len() % 2 == 0, "length of hex string {}: {}",s, s.len());
+                assert!(s.bytes().all(|c| c.is_ascii_hexdigit()), "Error parsing hex string");
                 let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
diff --git a/hacspec/src/array.rs b/hacspec/src/array.rs
index 4b63c8e..01ae3b7 100644
--- a/hacspec/src/array.rs
+++ b/hacspec/src/array.rs
@@ -247,6 +247,10 @@ macro_rules! _array_base {
             }
             fn hex_string_to_vec(s: &str) -> Vec<$t> {
                 debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
+                assert!(
+                    s.bytes().all(|c| c.is_ascii_hexdigit()),
+                    "Error parsing hex string"
+                );
                 let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
diff --git a/hacspec/src/util.rs b/hacspec/src/util.rs
index 6895f48..c522d88 100644
--- a/hacspec/src/util.rs
+++ b/hacspec/src/util.rs
@@ -9,6 +9,10 @@ use crate::prelude::*;
 #[cfg_attr(feature="use_attributes", internal(hacspec))]
 pub fn hex_string_to_bytes(s: &str) -> Vec<u8> {
     debug_assert!(s.len() % 2 == 0);
+    assert!(
+        s.bytes().all(|c| c.is_ascii_hexdigit()),
+        "Error parsing hex string"
+    );
     let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
         .step_by(2)
         .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From 28558a9d26537f8378d7ec62490466ba1289c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 20/24] fix: signed hexadecimal literals without a sign are not
 zero

---
 abstract-integers/src/abstract_int.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3257459..5ca18f0 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -343,9 +343,8 @@ macro_rules! abstract_signed {
             #[allow(dead_code)]
             pub fn from_hex(sign: &str, s: &str) -> Self {
                 let sign = match sign {
-                    "+" => Sign::Plus,
+                    "+" | "" => Sign::Plus,
                     "-" => Sign::Minus,
-                    "" => Sign::NoSign,
                     _ => panic!("from_hex requires the first argument to be + or -")
                 };
                 BigInt::from_bytes_be(sign, &Self::hex_string_to_bytes(s)).into()
-- 
2.43.0


From c0f55c058fda46d2244b6149c5a7be95160e8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 21/24] fix: set_bit's assertion no longer short-circuits on
 the value of a secret bit

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index 7336a48..4e11348 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -90,7 +90,7 @@ pub trait Integer: Numeric {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn set_bit(self, b: Self, i: u32) -> Self {
-        debug_assert!(b.equal(Self::ONE) || b.equal(Self::ZERO));
+        debug_assert!((b & !Self::ONE).equal(Self::ZERO));
         let tmp1 = Self::from_literal(!(1 << i));
         let tmp2 = b << i;
         (self & tmp1) | tmp2
-- 
2.43.0


From b280962cbfa9be86f35e01de6299ffb30d79fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 22/24] fix: negation of secret signed integers wraps like the
 other operators instead of panicking on the smallest value

---
 secret-integers/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/secret-integers/src/lib.rs b/secret-integers/src/lib.rs
index d3ac35f..bca31e0 100644
--- a/secret-integers/src/lib.rs
+++ b/secret-integers/src/lib.rs
@@ -398,7 +398,16 @@ macro_rules! define_secret_signed_integer {
     ($name:ident, $repr:ty, $bits:tt) => {
         // Secret signed integer.
         define_secret_integer!($name, $repr, $bits);
-        define_unary_op!($name, -, Neg, neg);
+
+        /// **Warning:** has wrapping semantics.
+        impl Neg for $name {
+            type Output = Self;
+            #[inline]
+            fn neg(self) -> Self {
+                let $name(i1) = self;
+                $name((-Wrapping(i1)).0)
+            }
+        }
 
         /// # Constant-time comparison operators
         impl $name {
-- 
2.43.0


From 7d06b8bcf378e31350ef1edb3c7b713fa05ab559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:50 +0000
Subject: [PATCH 23/24] fix: the panic of a failed inversion no longer prints
 the secret operands

---
 hacspec/src/math_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 498beeb..4c66a49 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -53,7 +53,7 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
     }
 
     if r.greater_than(T::ONE) && !x.equal(T::ZERO) {
-        panic!("{:x?} is not invertible in ℤ/{:x?}", x, n);
+        panic!("the given element is not invertible modulo the given modulus");
     }
     if t.less_than(T::ZERO) {
         if signed {
-- 
2.43.0


From 60173ef2889f4164c5b91052ecf94f6a35d5901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:19 +0000
Subject: [PATCH 24/24] fix: inverses of secret integers are refused instead of
 wrong when an intermediate product overflows

---
 hacspec/src/math_util.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 4c66a49..ce143f0 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -42,13 +42,7 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
         r = tmp;
 
         let tmp = new_t.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_t;
-        let mut tmp_t = t;
-        while tmp_t.less_than(tmp_prod) {
-            tmp_t = tmp_t + n;
-        }
-        new_t = tmp_t - tmp_prod;
+        new_t = t.sub_mod(q.mul_mod(new_t, n), n);
         t = tmp;
     }
 
-- 
2.43.0

