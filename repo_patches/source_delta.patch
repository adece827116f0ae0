From 9a13d881dbbc8e943b66e93dec36bb314e580620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 01/75] fix: recover_pub_poly interpolates over the share
 indices, not their positions

Public shares whose indices are not exactly 0..t-1 made it index a missing
map key and panic.
---
 src/share/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..b5f6a96 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -617,11 +617,11 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
             acc_poly = tmp;
             continue;
-- 
2.43.0


From 4fd8336850d3caa91bdb58abde81f3baba738212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 02/75] fix: PubPoly::equal compares the number of commitments

A strict prefix compared equal, and a longer left operand indexed out of bounds.
---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index b5f6a96..75a4bd0 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.commits.len() != q.commits.len() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From fd8729608c79350963ec110997d59850589f1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 03/75] fix: Int::little_endian pads its output to the
 requested length

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..2be97da 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -128,9 +128,9 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let mut buf = reverse(&vec![0; act], &v_bytes);
+        buf.resize(pad, 0);
+        Ok(buf)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
-- 
2.43.0


From 6bd5593867b37ebccb1a816e7dfee8fce5a8b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 04/75] fix: Int reduces negative values to the canonical range
 when initialised

---
 src/group/integer_field/integer.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 2be97da..5dcf4d1 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -93,12 +93,8 @@ impl Int {
     pub fn init64(mut self, v: i64, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = BigInt::from(v);
         // specify euclidean modulus for negative number
-        match self.v.sign() {
-            num_bigint::Sign::Minus => self.v = (self.v % m.clone()) + m.abs(),
-            _ => self.v %= m,
-        }
+        self.v = euclidean_mod(&BigInt::from(v), &m);
         self
     }
 
@@ -106,7 +102,7 @@ impl Int {
     fn init(mut self, v: BigInt, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = v % m;
+        self.v = euclidean_mod(&v, &m);
         self
     }
 
@@ -346,12 +342,8 @@ impl Scalar for Int {
     /// The `modulus` must already be initialized.
     fn set_int64(self, v: i64) -> Self {
         let mut i = self;
-        i.v = BigInt::from(v);
         // specify euclidean modulus for negative number
-        match i.v.sign() {
-            num_bigint::Sign::Minus => i.v = (i.v % i.m.clone()) + i.m.abs(),
-            _ => i.v %= i.m.clone(),
-        }
+        i.v = euclidean_mod(&BigInt::from(v), &i.m);
         i
     }
 
@@ -515,6 +507,16 @@ impl Int {
     }
 }
 
+/// [`euclidean_mod()`] returns the representative of `v` in the range `0..m`, also for
+/// negative values.
+fn euclidean_mod(v: &BigInt, m: &BigInt) -> BigInt {
+    let r = v % m;
+    match r.sign() {
+        Sign::Minus => r + m.abs(),
+        _ => r,
+    }
+}
+
 /// [`reverse()`] copies `src` into `dst` in byte-reversed order and returns `dst`,
 /// such that `src[0]` goes into `dst[len-1]` and vice versa.
 /// `dst` and `src` may be the same slice but otherwise must not overlap.
-- 
2.43.0


From c64c42f2464204053ab14b7ec65c3e87b87a8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 05/75] fix: Int::set_string reduces the parsed value modulo m

---
 src/group/integer_field/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 5dcf4d1..c59a939 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -185,7 +185,7 @@ impl Int {
     /// Returns the [`Int`] on success or an [`Error`](BigIntError)
     /// if the string failed to parse
     pub fn set_string(mut self, n: String, d: String, base: i32) -> Result<Self, IntError> {
-        self.v = BigInt::from_str_radix(n.as_str(), base as u32)?;
+        self.v = euclidean_mod(&BigInt::from_str_radix(n.as_str(), base as u32)?, &self.m);
         if !d.is_empty() {
             let mut di = Int {
                 m: self.m.clone(),
-- 
2.43.0


From 6ac084f711fffbac622366861b781a5811559b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 06/75] fix: Int::unmarshal_binary leaves the receiver
 unchanged when it refuses an encoding

---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c59a939..a5e140b 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -261,12 +261,13 @@ impl BinaryUnmarshaler for Int {
         if self.bo == LittleEndian {
             buf = reverse(&vec![0_u8; buf.len()], &buf.to_vec());
         }
-        self.v = BigInt::from_bytes_be(Plus, buf.as_slice());
-        if matches!(self.v.cmp(&self.m), Greater | Equal) {
+        let v = BigInt::from_bytes_be(Plus, buf.as_slice());
+        if matches!(v.cmp(&self.m), Greater | Equal) {
             return Err(MarshallingError::InvalidInput(
                 "unmarshal_binary: value out of range".to_owned(),
             ));
         }
+        self.v = v;
         Ok(())
     }
 }
-- 
2.43.0


From 3db7ba0b170204f7d30b174d7df4cf8a5d8296d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 07/75] fix: Int::div multiplies by the inverse of the divisor

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index a5e140b..e5a1db9 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -397,9 +397,9 @@ impl Scalar for Int {
 
     /// [`div()`] sets the target to `a * b^-1 mod m`, where `b^-1` is the modular inverse of `b`.
     fn div(mut self, a: &Self, b: &Self) -> Self {
-        let _t = BigInt::default();
-        self.v = a.v.clone() * b.v.clone();
-        self.v = self.v.clone() % self.m.clone();
+        let inv = Int::default().inv(b);
+        self.m = a.m.clone();
+        self.v = (&a.v * &inv.v) % &self.m;
         self
     }
 
-- 
2.43.0


From 24ebb97d1ac6f88545b86e67cb460523324fcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 08/75] fix: Int::exp raises its argument, also to negative
 exponents

---
 src/group/integer_field/integer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index e5a1db9..414722a 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -464,7 +464,10 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = self.v.modpow(e, &self.m);
+        self.v = match e.sign() {
+            Sign::Minus => Int::default().inv(a).v.modpow(&-e, &self.m),
+            _ => a.v.modpow(e, &self.m),
+        };
         self
     }
 
-- 
2.43.0


From 4362fb474d6286676968237eaea4cc3a7a979bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 09/75] fix: Int::big_endian pads values shorter than the
 modulus instead of panicking

---
 src/group/integer_field/integer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 414722a..080e840 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -506,6 +506,7 @@ impl Int {
         }
         let mut buf = vec![0_u8; pad];
         let b = self.v.to_bytes_be().1;
+        ofs += act - b.len();
         buf[ofs..].copy_from_slice(&b);
         Ok(buf)
     }
-- 
2.43.0


From ca1e981239126aa9692f93d95bdb673645edd537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 10/75] fix: Int::sqrt computes a modular square root

---
 src/group/integer_field/integer.rs | 49 +++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 080e840..30b83bf 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -487,7 +487,7 @@ impl Int {
         if a_s.v.sign() == Sign::Minus {
             return Err(IntError::ImaginaryRoot);
         }
-        self.v = a_s.v.sqrt() % a_s.m.clone();
+        self.v = mod_sqrt(&a_s.v, &a_s.m).ok_or(IntError::NotASquare)?;
         self.m = a_s.m.clone();
         Ok(())
     }
@@ -512,6 +512,51 @@ impl Int {
     }
 }
 
+/// [`mod_sqrt()`] returns a square root of `a` modulo the odd prime `p` (Tonelli-Shanks), or
+/// [`None`] if `a` is not a square.
+fn mod_sqrt(a: &BigInt, p: &BigInt) -> Option<BigInt> {
+    let one = &*ONE;
+    let zero = BigInt::from(0);
+    match jacobi(a, p) {
+        0 => return Some(zero),
+        1 => (),
+        _ => return None,
+    }
+    // p - 1 = q * 2^s with q odd
+    let mut q = p - one;
+    let mut s = 0_u32;
+    while &q % &*TWO == zero {
+        q = q / &*TWO;
+        s += 1;
+    }
+    // any non-square
+    let mut z = TWO.clone();
+    while jacobi(&z, p) != -1 {
+        z = z + one;
+    }
+    let mut m = s;
+    let mut c = z.modpow(&q, p);
+    let mut t = a.modpow(&q, p);
+    let mut r = a.modpow(&((&q + one) / &*TWO), p);
+    while &t != one {
+        // least i with t^(2^i) = 1
+        let mut i = 0;
+        let mut t2 = t.clone();
+        while &t2 != one {
+            t2 = (&t2 * &t2) % p;
+            i += 1;
+        }
+        for _ in 0..(m - i - 1) {
+            c = (&c * &c) % p;
+        }
+        r = (&r * &c) % p;
+        c = (&c * &c) % p;
+        t = (&t * &c) % p;
+        m = i;
+    }
+    Some(r)
+}
+
 /// [`euclidean_mod()`] returns the representative of `v` in the range `0..m`, also for
 /// negative values.
 fn euclidean_mod(v: &BigInt, m: &BigInt) -> BigInt {
@@ -545,4 +590,6 @@ pub enum IntError {
     NotRepresentable,
     #[error("input is a negative number, square root is imaginary")]
     ImaginaryRoot,
+    #[error("input has no square root modulo m")]
+    NotASquare,
 }
-- 
2.43.0


From ebe28f80425516c5a65cb6f1d279c9494b01cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 11/75] fix: SimpleCTScalar::sub computes a - b, not b - a

---
 src/group/edwards25519/scalar_test_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index ecf1afd..212073c 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -160,7 +160,7 @@ impl ScalarTrait for SimpleCTScalar {
     fn sub(self, s1: &Self, s2: &Self) -> Self {
         let mut s = self;
         // a * b + c = -1 * a + c
-        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s1.v, &s2.v);
+        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s2.v, &s1.v);
         s
     }
 
-- 
2.43.0


From e1d7eadfa592d1acd85a889e4bff879fab957746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 12/75] fix: FactoredScalar writes the results of its
 operations

---
 src/group/edwards25519/scalar_test_types.rs | 27 ++++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index 212073c..11b3cd6 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -394,7 +394,7 @@ fn sc_reduce_limbs(limbs: &mut [i64; 24]) {
         do_carry_centered(limbs, i);
     }
 
-    for i in (0..12).filter(|x| x % 2 != 1) {
+    for i in (0..12).filter(|x| x % 2 != 0) {
         do_carry_centered(limbs, i);
     }
 
@@ -411,7 +411,23 @@ fn sc_reduce_limbs(limbs: &mut [i64; 24]) {
     }
 }
 
-fn sc_add_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
+/// Packs the twelve reduced 21-bit limbs into 32 little-endian bytes.
+fn sc_write_limbs(s: &mut [u8; 32], limbs: &[i64; 24]) {
+    let (mut acc, mut bits, mut pos) = (0_u64, 0, 0);
+    for limb in &limbs[..12] {
+        acc |= (*limb as u64) << bits;
+        bits += 21;
+        while bits >= 8 {
+            s[pos] = acc as u8;
+            acc >>= 8;
+            bits -= 8;
+            pos += 1;
+        }
+    }
+    s[pos] = acc as u8;
+}
+
+fn sc_add_fact(s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -452,9 +468,10 @@ fn sc_add_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     limbs[11] = c11 + a11;
 
     sc_reduce_limbs(&mut limbs);
+    sc_write_limbs(s, &limbs);
 }
 
-fn sc_mul_fact(_s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
+fn sc_mul_fact(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -580,9 +597,10 @@ fn sc_mul_fact(_s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
     limbs[22] = a11 * b11;
 
     sc_reduce_limbs(&mut limbs);
+    sc_write_limbs(s, &limbs);
 }
 
-fn sc_sub_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
+fn sc_sub_fact(s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -624,6 +642,7 @@ fn sc_sub_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     limbs[12] = 16;
 
     sc_reduce_limbs(&mut limbs);
+    sc_write_limbs(s, &limbs);
 }
 
 fn t_suite() -> SuiteEd25519 {
-- 
2.43.0


From 9521bc08b6ac3a2c3e56468c26cb322fa361e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 13/75] fix: alternative scalars refuse encodings that are not
 exactly 32 bytes

---
 src/group/edwards25519/scalar_test_types.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index 11b3cd6..49b85c3 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -11,7 +11,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     cipher::Stream,
-    encoding::{self, BinaryMarshaler, BinaryUnmarshaler, Marshaling},
+    encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling},
 };
 
 use super::fe::{load3, load4};
@@ -76,13 +76,13 @@ impl Marshaling for SimpleCTScalar {
 
 impl BinaryMarshaler for SimpleCTScalar {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
-        encoding::marshal_binary(self)
+        self.s.marshal_binary()
     }
 }
 
 impl BinaryUnmarshaler for SimpleCTScalar {
     fn unmarshal_binary(&mut self, data: &[u8]) -> Result<(), MarshallingError> {
-        encoding::unmarshal_binary(self, data)
+        self.s.unmarshal_binary(data)
     }
 }
 
@@ -232,13 +232,13 @@ impl Marshaling for FactoredScalar {
 
 impl BinaryMarshaler for FactoredScalar {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
-        encoding::marshal_binary(self)
+        self.s.marshal_binary()
     }
 }
 
 impl BinaryUnmarshaler for FactoredScalar {
     fn unmarshal_binary(&mut self, data: &[u8]) -> Result<(), MarshallingError> {
-        encoding::unmarshal_binary(self, data)
+        self.s.unmarshal_binary(data)
     }
 }
 
-- 
2.43.0


From 5e4efe9299c13b49663d3aff27c875ac642f02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 14/75] fix: Point::is_canonical accepts canonical
 y-coordinates close to the field prime

---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..d41dfc0 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -331,7 +331,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
 
         // subtraction might underflow
         c = (((c as u16) - 1) >> 8) as u8;
-        let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
+        let d = ((0xEDu16 - 1).wrapping_sub(b[0] as u16) >> 8) as u8;
 
         1 - (c & d & 1) == 1
     }
-- 
2.43.0


From 84a728f7327d79224621a3c7a56e5fbdcbfa5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 15/75] fix: Point::embed never returns the neutral element

---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index d41dfc0..bccbc5a 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -159,7 +159,7 @@ impl group::Point for Point {
             // and retry point generation until it is.
             let mut q = Point::default();
             q = q.mul(&PRIME_ORDER_SCALAR, Some(&self));
-            if q.eq(&NULL_POINT) {
+            if q.eq(&NULL_POINT) && !self.eq(&NULL_POINT) {
                 return self; // success
             }
             // Keep trying...
-- 
2.43.0


From 7291cfae60e647944432df29d97fc36b69177732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 16/75] fix: bits does not pass off a failed random source as
 random bits

---
 src/util/random/random_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..55a437e 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -17,7 +17,8 @@ use crate::{
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("random source failure");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From 5f0084de5edaa2867a0fd148642953ac81a1aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 17/75] fix: points are ordered by their encoding, consistently
 with equality

---
 src/group/edwards25519/point.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index bccbc5a..fc753c8 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -20,7 +20,7 @@ use super::{
 
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
-#[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
@@ -240,6 +240,23 @@ impl PartialEq for Point {
     }
 }
 
+impl Ord for Point {
+    /// [`cmp()`] orders [`points`](Point) by their encoding, consistently with [`eq()`]
+    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+        let mut b1 = [0_u8; 32];
+        let mut b2 = [0_u8; 32];
+        self.ge.write_bytes(&mut b1);
+        other.ge.write_bytes(&mut b2);
+        b1.cmp(&b2)
+    }
+}
+
+impl PartialOrd for Point {
+    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl core::hash::Hash for Point {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         let mut b = [0_u8; 32];
-- 
2.43.0


From e56bc45119eebf7782b4be937500aef9988b980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 18/75] fix: scalars are compared by value modulo the group
 order

---
 src/group/edwards25519/scalar.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index 6888733..79fc66d 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -20,7 +20,7 @@ use super::constants::{FULL_ORDER, L_MINUS2};
 
 const MARSHAL_SCALAR_ID: [u8; 8] = [b'e', b'd', b'.', b's', b'c', b'a', b'l', b'a'];
 
-#[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
 pub struct Scalar {
     pub v: [u8; 32],
 }
@@ -30,6 +30,13 @@ impl Scalar {
         Self::default()
     }
 
+    /// the value reduced modulo the group order
+    fn canonical(&self) -> [u8; 32] {
+        let mut v = [0u8; 32];
+        sc_add(&mut v, &self.v, &[0u8; 32]);
+        v
+    }
+
     fn as_int(&self) -> Int {
         Int::new_int_bytes(&self.v, &PRIME_ORDER, LittleEndian)
     }
@@ -78,7 +85,20 @@ impl ScalarCanCheckCanonical for Scalar {
 impl PartialEq for Scalar {
     /// [`eq()`] is an equality test for two [`scalars`](Scalar) on the same [`Group`]
     fn eq(&self, other: &Self) -> bool {
-        bool::from(self.v.ct_eq(other.v.as_ref()))
+        bool::from(self.canonical().ct_eq(other.canonical().as_ref()))
+    }
+}
+
+impl Ord for Scalar {
+    /// [`cmp()`] orders [`scalars`](Scalar) by their canonical encoding, consistently with [`eq()`]
+    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+        self.canonical().cmp(&other.canonical())
+    }
+}
+
+impl PartialOrd for Scalar {
+    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 53b008343c2d68c47c79374894e243bc08d05f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 19/75] fix: AEAD seal and open do not panic on a dst of
 another length

The documented use of an empty slice as dst panicked.
---
 src/dh/dh_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dh/dh_impl.rs b/src/dh/dh_impl.rs
index 44d431d..43af19a 100644
--- a/src/dh/dh_impl.rs
+++ b/src/dh/dh_impl.rs
@@ -219,7 +219,8 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let encrypted = DH::aes_encrypt(&self.key, nonce, plaintext, additional_data)?;
         if let Some(d) = dst {
-            d.copy_from_slice(&encrypted);
+            let n = d.len().min(encrypted.len());
+            d[..n].copy_from_slice(&encrypted[..n]);
         }
         Ok(encrypted)
     }
@@ -244,7 +245,8 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let decrypted = DH::aes_decrypt(&self.key, nonce, ciphertext, additional_data)?;
         if let Some(d) = dst {
-            d.copy_from_slice(&decrypted);
+            let n = d.len().min(decrypted.len());
+            d[..n].copy_from_slice(&decrypted[..n]);
         }
         Ok(decrypted)
     }
-- 
2.43.0


From 63dc110856612ad5999c6e230dddec96c456c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 20/75] fix: ecies::decrypt refuses ciphertexts shorter than a
 point instead of panicking

---
 src/encrypt/ecies/ecies_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..433aab7 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(EciesError::CiphertextTooShort);
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
@@ -96,4 +99,6 @@ pub enum EciesError {
     DhError(#[from] DhError),
     #[error("hkdf-derived key too short")]
     KeyTooShort,
+    #[error("ciphertext too short")]
+    CiphertextTooShort,
 }
-- 
2.43.0


From 2fb1730b2642699ebf2a27e3f4ba42e5f74c8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 21/75] fix: writing to a read xof fails with a non-retryable
 error

Interrupted made write_all() retry for ever.
---
 src/xof/blake3/xof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..bf9d5b8 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -51,7 +51,7 @@ impl std::io::Write for Xof {
     fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
         match &mut self.implementation {
             HashState::Readable { reader: _ } => Err(std::io::Error::new(
-                std::io::ErrorKind::Interrupted,
+                std::io::ErrorKind::Other,
                 "write after read",
             )),
             HashState::Writeable { writer } => writer.write(buf),
-- 
2.43.0


From c336b759ca92dcb7b1cd6d41ac2811543b64cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 22/75] fix: flushing a xof does not panic

---
 src/xof/blake3/xof.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index bf9d5b8..05d145f 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -59,14 +59,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // nothing is buffered outside the hash state
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
-- 
2.43.0


From 969041fe89908022d47988fd78692ee99f44cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 23/75] fix: bits of exact length zero does not panic

---
 src/util/random/random_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 55a437e..c54ad4f 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -23,7 +23,7 @@ pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
     }
-    if exact {
+    if exact && bit_len > 0 {
         if highbits != 0 {
             b[0] |= 1 << (highbits - 1)
         } else {
-- 
2.43.0


From 49a50b9d7a94fd0e47feff65217fa4ce9b2c2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 24/75] fix: EdDSA keys built from a key pair have a secret
 nonce prefix

With the empty prefix the nonce was the hash of the message, so one signature
revealed the private key.
---
 src/sign/eddsa/eddsa_sig.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..a4aa15d 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -106,11 +106,14 @@ impl BinaryMarshaler for EdDSA<Curve> {
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        // there is no seed to expand: derive the secret prefix of the nonces from the
+        // private key, an empty one would make every nonce computable from the message
+        let digest = Sha512::digest(pair.private.v);
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix: digest[32..].to_vec(),
         }
     }
 }
-- 
2.43.0


From 48698d05edffb6e94cf95e169a0d268b2605b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 25/75] fix: encoding an EdDSA key without seed is refused
 instead of panicking

---
 src/sign/eddsa/eddsa_sig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index a4aa15d..665fe0e 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -94,6 +94,11 @@ impl BinaryMarshaler for EdDSA<Curve> {
     /// [`marshal_binary()`] will return the representation used by the reference
     /// implementation of `SUPERCOP ref10`, which is `"seed || Public"`.
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
+        if self.seed.len() != 32 {
+            return Err(MarshallingError::InvalidInput(
+                "EdDSA private without seed cannot be encoded".to_owned(),
+            ));
+        }
         let p_buff = self.public.marshal_binary()?;
 
         let mut eddsa = [0u8; 64];
-- 
2.43.0


From 34bde1770846e1bf945dda85af5e5a1503fbf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 26/75] fix: a justified complaint becomes an approval
 (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..705a7d5 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -970,6 +970,8 @@ where
                 return Err(err);
             }
         }
+        // the complaint is justified: it becomes an approval
+        self.responses.insert(j.index, r);
         Ok(())
     }
 
-- 
2.43.0


From 7f28c02c3b6246310e8d75fe1be200bb4889609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 27/75] fix: a justification is not stored as the verifier's
 own deal (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 705a7d5..b014257 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -877,7 +877,7 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
-        if self.deal.is_none() {
+        if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
@@ -888,11 +888,11 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if d.t != self.t {
+        if self.t != 0 && d.t != self.t {
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-        if self.sid != d.session_id {
+        if !self.sid.is_empty() && self.sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From d8cea59dc5f494f99e3c0f526cda27a513d9327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 28/75] fix: a deal cannot override the threshold set by the
 verifier (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index b014257..5170f46 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -881,14 +881,17 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            // a threshold set beforehand is the expected one
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if self.t != 0 && d.t != self.t {
+        if (self.t != 0 || self.deal.is_some()) && d.t != self.t {
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-- 
2.43.0


From 6bc4947c4cac3dde3b038d2d3c9d64ee85b048d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 29/75] fix: a deal must carry exactly t commitments (pedersen
 vss)

---
 src/share/vss/pedersen/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5170f46..3bd0660 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -903,6 +903,10 @@ where
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
         }
+        // t shares must determine the polynomial
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealDoesNotVerify);
+        }
         // compute fi * G
         let fig = self.suite.point().base().mul(&fi.v, None);
 
-- 
2.43.0


From b3583952f6c549396e4c72860408dea040566b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 30/75] fix: a deal is only approved under the session id of
 its own content (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 3bd0660..9e0adde 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -552,6 +552,8 @@ pub fn new_verifier<SUITE: Suite>(
         return Err(VSSError::PublicKeyNotFound);
     }
     let c = context(suite, dealer_key, verifiers);
+    let mut aggregator = new_empty_aggregator(suite, verifiers);
+    aggregator.dealer = dealer_key.clone();
     Ok(Verifier {
         suite,
         longterm: longterm.clone(),
@@ -560,7 +562,7 @@ pub fn new_verifier<SUITE: Suite>(
         pubb,
         index,
         hkdf_context: c,
-        aggregator: Some(new_empty_aggregator(suite, verifiers)),
+        aggregator: Some(aggregator),
     })
 }
 
@@ -899,6 +901,19 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // the session must be the one of these commitments, otherwise the dealer
+        // could have different verifiers approve different polynomials
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
+        if sid != d.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
         let fi = &d.sec_share;
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
-- 
2.43.0


From b243d17b3994da62a75b8333c423119b00d2c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 31/75] fix: responses of another session received before the
 deal do not count (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 9e0adde..1b0e9f2 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -887,6 +887,10 @@ where
             if self.t == 0 {
                 self.t = d.t;
             }
+            // the session was unknown until now: forget responses from other ones
+            let (sid, own) = (&self.sid, d.sec_share.i);
+            self.responses
+                .retain(|i, r| *i as usize == own || &r.session_id == sid);
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From cb1e1e37012e290787a3959ab0a1b26b1007ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 32/75] fix: nodes leaving in a resharing certify deals with
 the threshold of the new group

---
 src/share/dkg/pedersen/dkg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..21af723 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -651,6 +651,8 @@ where
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                // the number of approvals is that of the new group
+                agg.set_threshold(self.new_t);
                 self.old_aggregators.insert(resp.index, agg);
                 self.old_aggregators.get_mut(&resp.index).unwrap()
             }
-- 
2.43.0


From b175f8126028b56988d91ec4aa3a6703eccdf7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 33/75] fix: a deal without a valid threshold is never
 certified (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 1b0e9f2..35885c6 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1048,8 +1048,11 @@ where
             }
         }
         let enough_approvals = approvals >= self.t;
-        let too_much_absents = absent_verifiers > self.verifiers.len() - self.t;
-        let base_condition = !self.bad_dealer && enough_approvals && !is_complaint;
+        let too_much_absents = absent_verifiers > self.verifiers.len().saturating_sub(self.t);
+        let base_condition = valid_t(self.t, &self.verifiers)
+            && !self.bad_dealer
+            && enough_approvals
+            && !is_complaint;
         if self.timeout {
             return base_condition && !too_much_absents;
         }
-- 
2.43.0


From 33b2bf4dd5d3a6c756d9adf3dd45d1b47dae6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 34/75] fix: a justification must reveal the deal the complaint
 is about (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 35885c6..d5a839b 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -988,7 +988,12 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        match self.verify_deal(&j.deal, false) {
+        // a justification of another session is none for this complaint
+        if j.session_id != r.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
+        match self.verify_justified_deal(j, &r) {
             Ok(_) => r.status = STATUS_APPROVAL,
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
@@ -1001,6 +1006,26 @@ where
         Ok(())
     }
 
+    /// verifies that the revealed deal is the one the complaint is about: that of
+    /// its issuer, in its session, under the known commitments
+    fn verify_justified_deal(
+        &mut self,
+        j: &Justification<SUITE>,
+        r: &Response,
+    ) -> Result<(), VSSError> {
+        self.verify_deal(&j.deal, false)?;
+        if j.deal.sec_share.i != j.index as usize {
+            return Err(VSSError::DealWrongIndex);
+        }
+        if j.deal.session_id != r.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+        if self.deal.is_some() && j.deal.commitments != self.commits {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+        Ok(())
+    }
+
     pub fn add_response(&mut self, r: &Response) -> Result<(), VSSError> {
         if find_pub(&self.verifiers, r.index as usize).is_none() {
             return Err(VSSError::ComplaintIndexOutOfBounds);
-- 
2.43.0


From 91684910bb870dde48c61a61884bc48067766392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 35/75] fix: only a justification signed by the dealer is
 accepted (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index d5a839b..1e6497f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1001,6 +1001,9 @@ where
                 return Err(err);
             }
         }
+        // only the dealer can justify
+        let msg = j.clone().hash(self.suite)?;
+        schnorr::verify(self.suite, &self.dealer, &msg, &j.signature)?;
         // the complaint is justified: it becomes an approval
         self.responses.insert(j.index, r);
         Ok(())
-- 
2.43.0


From 8b1d5ed54aa16fcc4c6043d0c03bd696dfe9192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 36/75] fix: a verifier uses the deal that justified its own
 complaint (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 1e6497f..7ccd5b8 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -694,7 +694,14 @@ where
     /// [`v.deal_certified()`].
     pub fn process_justification(&mut self, dr: &Justification<SUITE>) -> Result<(), VSSError> {
         match &mut self.aggregator {
-            Some(a) => a.verify_justification(dr),
+            Some(a) => {
+                a.verify_justification(dr)?;
+                if dr.index as usize == self.index {
+                    // the share revealed for our own complaint is the one to use
+                    a.deal = Some(dr.deal.clone());
+                }
+                Ok(())
+            }
             None => Err(VSSError::MissingAggregator),
         }
     }
-- 
2.43.0


From 47d695a75826bcc7be5be3f488520e2ad03cf4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 37/75] fix: a dealer counts the complaints it justified as
 approvals (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 7ccd5b8..f12ca6e 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -422,6 +422,11 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // justified by the share that was dealt: for this dealer it is an approval
+        if let Some(r) = self.aggregator.responses.get_mut(&r.index) {
+            r.status = STATUS_APPROVAL;
+        }
+
         Ok(Some(j))
     }
 
-- 
2.43.0


From 15eafaea8c03a69fd957e3e6212a42f40edfad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 38/75] fix: an encrypted deal with a nonce of wrong length is
 refused instead of panicking (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index f12ca6e..b83c683 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -659,7 +659,9 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce.as_slice().try_into().map_err(|_| {
+                MarshallingError::InvalidInput("wrong nonce length in encrypted deal".to_owned())
+            })?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From 1af31832d8b3c697f4bc5d3630734c1bb743e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 39/75] fix: the justification of a node leaving in a resharing
 is signed

---
 src/share/dkg/pedersen/dkg.rs | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 21af723..cb203a9 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -663,24 +663,12 @@ where
             return Ok(None);
         }
 
-        if resp.response.status == vss::STATUS_APPROVAL {
-            return Ok(None);
-        }
-
-        let s_id = self.dealer.session_id();
-        // status is complaint and it is about our deal
-        let deal = self.dealer.plaintext_deal(resp.response.index as usize)?; // dkg: resharing response can't get deal. BUG - REPORT"
-
-        let j = Justification {
+        // if the status is complaint, it is about our deal and must be justified
+        let just = self.dealer.process_response(&resp.response)?;
+        Ok(just.map(|justification| Justification {
             index: self.oidx as u32,
-            justification: vss::Justification {
-                session_id: s_id,
-                index: resp.response.index, // good index because of signature check
-                deal: deal.clone(),
-                signature: Vec::new(),
-            },
-        };
-        Ok(Some(j))
+            justification,
+        }))
     }
 
     /// [`process_justification()`] takes a [`Justification`] and validates it. It returns an
-- 
2.43.0


From c24873cf83585106efc7a94a3bfe96882c06cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 40/75] fix: a deal declaring an empty session id does not open
 the verifier to other sessions (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index b83c683..d17d59c 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -915,7 +915,7 @@ where
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-        if !self.sid.is_empty() && self.sid != d.session_id {
+        if (self.deal.is_some() || !self.sid.is_empty()) && self.sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
 
@@ -969,7 +969,7 @@ where
     }
 
     pub(crate) fn verify_response(&mut self, r: &Response) -> Result<(), VSSError> {
-        if !self.sid.is_empty() && r.session_id != self.sid {
+        if (self.deal.is_some() || !self.sid.is_empty()) && r.session_id != self.sid {
             return Err(VSSError::ResponseInconsistentSessionId);
         }
 
-- 
2.43.0


From f2347da94198059ffd5a4469905b8a9626f17e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 41/75] fix: an encrypted deal with a nonce of wrong length is
 refused instead of panicking (rabin vss)

---
 src/share/vss/rabin/vss.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..85fe393 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -696,7 +696,9 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce.as_slice().try_into().map_err(|_| {
+                MarshallingError::InvalidInput("wrong nonce length in encrypted deal".to_owned())
+            })?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From cf3326d9ed4a52c314a5edc3a8e1b6e8a8794a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 42/75] fix: a deal must carry exactly t commitments (rabin
 vss)

---
 src/share/vss/rabin/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 85fe393..de73fc9 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -888,6 +888,10 @@ where
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
         }
+        // t shares must determine the polynomials
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealDoesNotVerify);
+        }
         // compute fi * G + gi * H
         let fig = self.suite.point().base().mul(&fi.v, None);
         let h = derive_h(self.suite, &self.verifiers);
-- 
2.43.0


From 491d35633451a731fd28a9619c9ef84293813925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 43/75] fix: a deal is only approved under the session id of
 its own content (rabin vss)

---
 src/share/vss/rabin/vss.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index de73fc9..537e476 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -880,6 +880,19 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // the session must be the one of these commitments, otherwise the dealer
+        // could have different verifiers approve different polynomials
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
+        if sid != d.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
         let fi = &d.sec_share;
         let gi = &d.rnd_share;
         if fi.i != gi.i {
-- 
2.43.0


From 41b07a88b0c80b7c208bd08f65c655360cd0862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 44/75] fix: a justification must reveal the deal the complaint
 is about (rabin vss)

---
 src/share/vss/rabin/vss.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 537e476..317c75f 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -866,7 +866,7 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
-        if self.deal.is_none() {
+        if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
@@ -969,17 +969,31 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        let verification = self.verify_deal(&j.deal, false);
-        if verification.is_err() {
-            self.bad_dealer = true;
-        } else {
-            r.approved = true
+        match self.verify_justified_deal(j) {
+            Ok(_) => r.approved = true,
+            Err(err) => {
+                // if one justification is bad, then flag the dealer as malicious
+                self.bad_dealer = true;
+                return Err(err);
+            }
         }
 
         // add the updated resp
         self.responses.insert(j.index, r);
+        Ok(())
+    }
 
-        verification
+    /// verifies that the revealed deal is the one the complaint is about: that of
+    /// its issuer, under the known threshold and commitments
+    fn verify_justified_deal(&mut self, j: &Justification<SUITE>) -> Result<(), VSSError> {
+        self.verify_deal(&j.deal, false)?;
+        if j.deal.sec_share.i != j.index as usize {
+            return Err(VSSError::DealWrongIndex);
+        }
+        if j.deal.t != self.t || j.deal.commitments != self.commits {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+        Ok(())
     }
 
     pub fn add_response(&mut self, r: &Response) -> Result<(), VSSError> {
-- 
2.43.0


From 4bca96fa351e936c8fc69ac053bcbd6f898d7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 45/75] fix: only a justification signed by the dealer for this
 session is accepted (rabin vss)

---
 src/share/vss/rabin/vss.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 317c75f..9d27e25 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -969,6 +969,11 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
+        // a justification of another session is none for this complaint
+        if j.session_id != r.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
         match self.verify_justified_deal(j) {
             Ok(_) => r.approved = true,
             Err(err) => {
@@ -978,6 +983,10 @@ where
             }
         }
 
+        // only the dealer can justify
+        let msg = j.clone().hash(self.suite)?;
+        schnorr::verify(self.suite, &self.dealer, &msg, &j.signature)?;
+
         // add the updated resp
         self.responses.insert(j.index, r);
         Ok(())
-- 
2.43.0


From c14c867d7da3827bb09349de0496d3d826e91421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 46/75] fix: a verifier uses the deal that justified its own
 complaint (rabin vss)

---
 src/share/vss/rabin/vss.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 9d27e25..ee9ec80 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -734,7 +734,14 @@ where
     /// [`v.enough_approvals()`] and if `true`, [`v.deal_certified()`].
     pub fn process_justification(&mut self, dr: &Justification<SUITE>) -> Result<(), VSSError> {
         match &mut self.aggregator {
-            Some(a) => a.verify_justification(dr),
+            Some(a) => {
+                a.verify_justification(dr)?;
+                if dr.index as usize == self.index {
+                    // the share revealed for our own complaint is the one to use
+                    a.deal = Some(dr.deal.clone());
+                }
+                Ok(())
+            }
             None => Err(VSSError::MissingAggregator),
         }
     }
-- 
2.43.0


From 663d096db2a3079b3b67d72e63eb107da64749df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 47/75] fix: a deal with an unjustified complaint of its own
 recipient is not released (rabin vss)

---
 src/share/vss/rabin/vss.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index ee9ec80..7a3726b 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -719,13 +719,15 @@ where
     /// [`deal()`] returns the [`Deal`] that this verifier has received. It returns
     /// `None` if the deal is not certified or there is not enough approvals.
     pub fn deal(&self) -> Option<Deal<SUITE>> {
-        self.aggregator.clone()?;
-        if !self.aggregator.clone().unwrap().enough_approvals()
-            || !self.aggregator.clone().unwrap().deal_certified()
-        {
+        let aggregator = self.aggregator.as_ref()?;
+        if !aggregator.enough_approvals() || !aggregator.deal_certified() {
             return None;
         }
-        self.deal.clone()
+        // the share this verifier complained about is not usable
+        match aggregator.responses.get(&(self.index as u32)) {
+            Some(r) if r.approved => aggregator.deal.clone(),
+            _ => None,
+        }
     }
 
     /// [`process_justification()`] takes a Dealer Response and returns an [`Error`](VSSError) if
-- 
2.43.0


From ea09e368914f4e98fb8ee3765045181f675257d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 48/75] fix: a dealer counts the complaints it justified as
 approvals (rabin vss)

---
 src/share/vss/rabin/vss.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 7a3726b..4cb008f 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -453,6 +453,11 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // justified by the share that was dealt: for this dealer it is an approval
+        if let Some(r) = self.aggregator.responses.get_mut(&r.index) {
+            r.approved = true;
+        }
+
         Ok(Some(j))
     }
 
-- 
2.43.0


From 9f3c8d221b33b321efb6d994fb93dd6033575db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 49/75] fix: a deal with t or more complaints is not certified
 (rabin vss)

---
 src/share/vss/rabin/vss.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 4cb008f..a3eeab9 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -1046,15 +1046,19 @@ where
     /// [`Justifications`](Justification) were correct and if [`enough_approvals()`] returns `true`.
     pub fn deal_certified(&self) -> bool {
         let mut verifiers_unstable = 0usize;
+        let mut complaints = 0usize;
         // Check either a StatusApproval or StatusComplaint for all known verifiers
         // i.e. make sure all verifiers are either timed-out or OK.
         for (i, _) in self.verifiers.iter().enumerate() {
-            if !self.responses.contains_key(&(i as u32)) {
-                verifiers_unstable += 1;
+            match self.responses.get(&(i as u32)) {
+                None => verifiers_unstable += 1,
+                Some(r) if !r.approved => complaints += 1,
+                Some(_) => (),
             }
         }
 
-        let too_much_complaints = verifiers_unstable > 0 || self.bad_dealer;
+        let too_much_complaints =
+            verifiers_unstable > 0 || complaints >= self.t || self.bad_dealer;
         self.enough_approvals() && !too_much_complaints
     }
 
-- 
2.43.0


From a6e4ed545fbda7afec8ff70e2adc4ab8b5bc8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 50/75] fix: the default threshold of a DKG is the one its
 deals and key are certified with

---
 src/share/dkg/pedersen/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index cb203a9..c971197 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -315,6 +315,7 @@ where
     } else {
         vss::minimum_t(c.new_nodes.len())
     };
+    c.threshold = new_threshold;
 
     let mut dealer = vss::Dealer::default();
     let mut can_issue = false;
-- 
2.43.0


From e0fa70e304fe0d2faf8616a92888ff5bf4620507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 51/75] fix: a DKG configuration with duplicate nodes is
 refused instead of panicking on the first deal

---
 src/share/dkg/pedersen/dkg.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index c971197..09395dd 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -389,7 +389,7 @@ where
         can_receive = true;
         old_threshold = c.public_coeffs.clone().unwrap().len();
     }
-    let dkg = DistKeyGenerator::<SUITE, READ> {
+    let mut dkg = DistKeyGenerator::<SUITE, READ> {
         dealer,
         old_aggregators: HashMap::new(),
         suite: c.suite,
@@ -411,11 +411,7 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        dkg.init_verifiers(c)?;
     }
     Ok(dkg)
 }
-- 
2.43.0


From 0b6efa38cf8a9c88f3cafbb6301dae4953f2cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 52/75] fix: a resharing deal without commitments is rejected
 instead of panicking

---
 src/share/dkg/pedersen/dkg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 09395dd..4d67267 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -568,7 +568,8 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            let committed = deal_commits.as_ref().and_then(|c| c.first());
+            if committed != Some(&expected_pub_share.v) {
                 return reject();
             }
         }
-- 
2.43.0


From 630c968d063052c3a0e8049857e877a860a105ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 53/75] fix: a resharing deal of another secret than the
 dealer's old share stays rejected

---
 src/share/dkg/pedersen/dkg.rs |  5 +----
 src/share/vss/pedersen/vss.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 4d67267..283813f 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -553,10 +553,7 @@ where
                 }
                 // indicate to VSS that this dkg's new status is complaint for this
                 // deal
-                self.verifiers
-                    .get_mut(&dd.index)
-                    .unwrap()
-                    .unsafe_set_response_dkg(self.nidx as u32, vss::STATUS_COMPLAINT);
+                self.verifiers.get_mut(&dd.index).unwrap().reject_deal();
                 resp.status = vss::STATUS_COMPLAINT;
                 let msg = resp.hash(&self.suite)?;
                 resp.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index d17d59c..c945f75 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -741,6 +741,18 @@ where
         }
     }
 
+    /// rejects the deal of this verifier for good, although its share is consistent:
+    /// no justification can make up for it
+    pub(crate) fn reject_deal(&mut self) {
+        let idx = self.index as u32;
+        if let Some(a) = self.aggregator.as_mut() {
+            if let Some(r) = a.responses.get_mut(&idx) {
+                r.status = STATUS_COMPLAINT;
+            }
+            a.bad_dealer = true;
+        }
+    }
+
     /// [`unsafe_set_response_dkg()`] is an UNSAFE bypass method to allow DKG to use VSS
     /// that works on basis of approval only.
     #[allow(unused_must_use)]
-- 
2.43.0


From 3aba1c20cac74021b312cfe45e413b389e3c75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 54/75] fix: the timeout of a resharing also reaches the nodes
 leaving the group

---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 283813f..e407c92 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -646,6 +646,7 @@ where
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                agg.timeout = self.timeout;
                 // the number of approvals is that of the new group
                 agg.set_threshold(self.new_t);
                 self.old_aggregators.insert(resp.index, agg);
@@ -686,6 +687,9 @@ where
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
+        for (_, a) in self.old_aggregators.iter_mut() {
+            a.timeout = true
+        }
     }
 
     /// [`threshold_certified()`] returns true if a `THRESHOLD` of [`deals`](Deal) are certified. To know the
-- 
2.43.0


From 08fc73938f13d7155c205543ff89dd18919415a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 55/75] fix: nodes leaving in a resharing refuse responses
 about unknown dealers

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index e407c92..67019d3 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -640,12 +640,17 @@ where
         &mut self,
         resp: &Response,
     ) -> Result<Option<Justification<SUITE>>, DKGError> {
+        let (dealer, ok) = get_pub(&self.c.old_nodes, resp.index as usize);
+        if !ok {
+            return Err(DKGError::ResponseFromUnknownDealer);
+        }
         let agg = match self.old_aggregators.contains_key(&resp.index) {
             true => self.old_aggregators.get_mut(&resp.index).unwrap(),
             false => {
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                agg.dealer = dealer;
                 agg.timeout = self.timeout;
                 // the number of approvals is that of the new group
                 agg.set_threshold(self.new_t);
-- 
2.43.0


From 7b1a8e47a47e22110ba92e2475c25dfee343f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 56/75] fix: nodes leaving in a resharing take justifications
 into account

---
 src/share/dkg/pedersen/dkg.rs | 24 ++++++++++++++++++++++++
 src/share/vss/pedersen/vss.rs |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 67019d3..5c58853 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -666,6 +666,9 @@ where
 
         // if the status is complaint, it is about our deal and must be justified
         let just = self.dealer.process_response(&resp.response)?;
+        if let Some(j) = &just {
+            agg.verify_justification(j)?;
+        }
         Ok(just.map(|justification| Justification {
             index: self.oidx as u32,
             justification,
@@ -675,6 +678,27 @@ where
     /// [`process_justification()`] takes a [`Justification`] and validates it. It returns an
     /// [`Error`](DKGError) in case the justification is wrong.
     pub fn process_justification(&mut self, j: &Justification<SUITE>) -> Result<(), DKGError> {
+        if self.is_resharing && self.can_issue && !self.new_present {
+            // a leaving node has no verifiers
+            return match self.old_aggregators.get_mut(&j.index) {
+                Some(a) => {
+                    // a consistent deal of another secret than the old share of its
+                    // dealer does not justify anything
+                    let commits = match (&self.c.public_coeffs, &self.c.share) {
+                        (Some(c), _) => c.clone(),
+                        (None, Some(s)) => s.commits.clone(),
+                        (None, None) => return Err(DKGError::NoPublicPolys),
+                    };
+                    let expected = share::poly::PubPoly::new(&self.suite, None, &commits)
+                        .eval(j.index as usize);
+                    if j.justification.deal.commitments.first() != Some(&expected.v) {
+                        return Err(DKGError::ShareDoesNotMatchPublicPoly);
+                    }
+                    Ok(a.verify_justification(&j.justification)?)
+                }
+                None => Err(DKGError::JustificationWithoutDeal),
+            };
+        }
         if !self.verifiers.contains_key(&j.index) {
             return Err(DKGError::JustificationWithoutDeal);
         }
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index c945f75..ce25434 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -997,7 +997,7 @@ where
         self.add_response(r)
     }
 
-    fn verify_justification(&mut self, j: &Justification<SUITE>) -> Result<(), VSSError> {
+    pub(crate) fn verify_justification(&mut self, j: &Justification<SUITE>) -> Result<(), VSSError> {
         let pubb = find_pub(&self.verifiers, j.index as usize);
         if pubb.is_none() {
             return Err(VSSError::JustificationIndexOutOfBounds);
-- 
2.43.0


From fa816271da7215ff496c8dccb444467239988af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 57/75] fix: a complaint about the declared session id can be
 justified (pedersen vss)

---
 src/share/vss/pedersen/vss.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index ce25434..5b14635 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -905,9 +905,17 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
         if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
-            self.sid = d.session_id.clone();
+            // whatever the deal declares, this is the session of its content
+            self.sid = sid.clone();
             self.deal = Some(d.clone());
             // a threshold set beforehand is the expected one
             if self.t == 0 {
@@ -933,13 +941,6 @@ where
 
         // the session must be the one of these commitments, otherwise the dealer
         // could have different verifiers approve different polynomials
-        let sid = session_id(
-            &self.suite,
-            &self.dealer,
-            &self.verifiers,
-            &d.commitments,
-            d.t,
-        )?;
         if sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
-- 
2.43.0


From c64b2fc7060a30ed334320c2221eabd6ecb08850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 58/75] fix: a complaint about the declared session id can be
 justified (rabin vss)

---
 src/share/vss/rabin/vss.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index a3eeab9..4837242 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -880,9 +880,17 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
         if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
-            self.sid = d.session_id.clone();
+            // whatever the deal declares, this is the session of its content
+            self.sid = sid.clone();
             self.deal = Some(d.clone());
         }
 
@@ -896,13 +904,6 @@ where
 
         // the session must be the one of these commitments, otherwise the dealer
         // could have different verifiers approve different polynomials
-        let sid = session_id(
-            &self.suite,
-            &self.dealer,
-            &self.verifiers,
-            &d.commitments,
-            d.t,
-        )?;
         if sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
-- 
2.43.0


From c912dc54376df044dc08d0f6eb462b729ced0285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 59/75] fix: a response of another session about a node's own
 deal is refused without storing it

---
 src/share/dkg/pedersen/dkg.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 5c58853..0c074ae 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -20,7 +20,7 @@ use crate::{
     share::{
         self,
         dkg::DKGError,
-        vss::{pedersen::vss, suite::Suite},
+        vss::{pedersen::vss, suite::Suite, VSSError},
     },
     sign::schnorr,
     util::random::RandStream,
@@ -600,6 +600,13 @@ where
         &mut self,
         resp: &Response,
     ) -> Result<Option<Justification<SUITE>>, DKGError> {
+        // the session of our own deal is known from the start
+        if self.can_issue
+            && resp.index as usize == self.oidx
+            && resp.response.session_id != self.dealer.session_id()
+        {
+            return Err(VSSError::ResponseInconsistentSessionId.into());
+        }
         if self.is_resharing && self.can_issue && !self.new_present {
             return self.process_resharing_response(resp);
         }
-- 
2.43.0


From 60e694f3d8d38f3cb5649f823233fffb98ea53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 60/75] fix: a dealer's implied approval also counts at nodes
 that missed its deal

In a fresh DKG a dealer does not respond to its own deal. Its approval was
only assumed by the nodes that received the deal, so with few holders a node
that missed the deal disqualified a dealer the others qualified, and they
ended with different keys. The node without the deal now fails instead.
---
 src/share/dkg/pedersen/dkg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 0c074ae..535f4cd 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -620,6 +620,13 @@ where
         };
         v.process_response(&resp.response)?;
 
+        // a dealer does not respond to its own deal in a fresh DKG: its approval is
+        // implied also when the deal itself did not reach this node, otherwise this
+        // node would disqualify a dealer that the nodes holding the deal qualify.
+        if !self.is_resharing {
+            v.unsafe_set_response_dkg(resp.index, vss::STATUS_APPROVAL);
+        }
+
         let my_idx = self.oidx as u32;
         if !self.can_issue || resp.index != my_idx {
             // no justification if we dont issue deals or the deal's not from us
-- 
2.43.0


From d2591799a14f960198be1b722d75e9c94571373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:46 +0000
Subject: [PATCH 61/75] fix: an explicit response of a dealer about its own
 deal is refused in a fresh DKG

Its approval is implied. Accepting another one made the outcome depend on which
of the two a node recorded first, so honest nodes ended with different qualified
sets.
---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 535f4cd..8c2c5d5 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -614,6 +614,10 @@ where
         if !self.verifiers.contains_key(&resp.index) {
             return Err(DKGError::ResponseFromUnknownDealer);
         }
+        // the approval of a dealer for its own deal is implied in a fresh DKG
+        if !self.is_resharing && resp.index == resp.response.index {
+            return Err(VSSError::ResponseAlreadyExisting.into());
+        }
         let v = match self.verifiers.get_mut(&resp.index) {
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
-- 
2.43.0


From c2b918c322695b5a7e5c0b4f384ba7ef9af08e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 62/75] fix: a resharing node missing a qualified deal gets an
 error instead of a share

---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 8c2c5d5..e42edf5 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1016,6 +1016,10 @@ where
             true
         });
 
+        if let Some(e) = error {
+            return Err(e);
+        }
+
         // the private polynomial is generated from the old nodes, thus inheriting
         // the old threshold condition
         let pri_poly = share::poly::recover_pri_poly(
-- 
2.43.0


From 7dd3c83645cd19be870eaad8f0609a2e49059442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 63/75] fix: a signer never holds its own partial signature
 twice

---
 src/sign/dss/dss_sig.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 9dd6ae9..3b4063f 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -228,11 +228,12 @@ impl<SUITE: Suite, DKS: DistKeyShare<SUITE>> DSS<SUITE, DKS> {
         };
         let msg = ps.hash(self.suite.clone())?;
         ps.signature = schnorr::sign(&self.suite, &self.secret, &msg)?;
-        if !self.signed {
+        // the own partial signature may also have been received back already
+        if !self.partials_idx.contains_key(&self.index) {
             self.partials_idx.insert(self.index, true);
             self.partials.push(Some(ps.partial.clone()));
-            self.signed = true
         }
+        self.signed = true;
         Ok(ps)
     }
 
-- 
2.43.0


From c728415d1a55d33e7db0eaeaf8bfd39012975545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 64/75] fix: refuse a signing threshold below that of the
 distributed keys

---
 src/sign/dss/dss_sig.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 3b4063f..acacb5d 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -164,7 +164,7 @@ impl<SUITE: Suite> PartialSig<SUITE> {
 /// node, the `list of participants`, the `longterm` and `random` distributed key
 /// (generated by the dkg module), the `message` to sign and finally the `T
 /// threshold`. It returns an [`Error`](DSSError) if the public key of the secret can't be found
-/// in the list of participants.
+/// in the list of participants, or if the threshold is lower than the one of the distributed keys.
 pub fn new_dss<SUITE: Suite, DKS: DistKeyShare<SUITE>>(
     suite: SUITE,
     secret: &<SUITE::POINT as Point>::SCALAR,
@@ -188,6 +188,13 @@ pub fn new_dss<SUITE: Suite, DKS: DistKeyShare<SUITE>>(
         return Err(DSSError::PublicKeyNotInParticipants);
     }
 
+    // t partial signatures determine the signature only if neither of the
+    // shared polynomials has more than t coefficients
+    let (nb_long, nb_random) = (long.commitments().len(), random.commitments().len());
+    if nb_long == 0 || nb_random == 0 || t < nb_long.max(nb_random) {
+        return Err(DSSError::InvalidThreshold);
+    }
+
     Ok(DSS::<SUITE, DKS> {
         suite: suite.clone(),
         secret: secret.clone(),
@@ -367,6 +374,8 @@ pub enum DSSError {
     PublicKeyNotInParticipants,
     #[error("invalid index")]
     InvalidIndex,
+    #[error("threshold too low for the distributed keys")]
+    InvalidThreshold,
     #[error("not enough partial signature to sign")]
     NotEnoughPartials,
     #[error("could not recover secret")]
-- 
2.43.0


From 281a638c7e4c0ce4f25b909f78030a2448ed9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 65/75] fix: refuse to sign with shares of another
 participant's index

---
 src/sign/dss/dss_sig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index acacb5d..c838b7f 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -188,6 +188,11 @@ pub fn new_dss<SUITE: Suite, DKS: DistKeyShare<SUITE>>(
         return Err(DSSError::PublicKeyNotInParticipants);
     }
 
+    // the shares must be the ones of this participant
+    if long.pri_share().i != i || random.pri_share().i != i {
+        return Err(DSSError::InvalidIndex);
+    }
+
     // t partial signatures determine the signature only if neither of the
     // shared polynomials has more than t coefficients
     let (nb_long, nb_random) = (long.commitments().len(), random.commitments().len());
-- 
2.43.0


From a8e8502c0adc85e39e70d21615e571b836ff752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 66/75] fix: the timeout of a rabin DKG also reaches the node's
 own dealer

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 832558f..1ea0354 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -591,6 +591,7 @@ where
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
     /// all verifiers have either responded, or have a StatusComplaint response.
     pub fn set_timeout(&mut self) {
+        self.dealer.set_timeout();
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
-- 
2.43.0


From a63afbc86b615f52cee4c7f5e53c4e63e3605683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 67/75] fix: a rabin DKG only accepts deals of its own
 threshold

---
 src/share/dkg/rabin/dkg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1ea0354..9000d14 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -50,6 +50,7 @@ use crate::{
         vss::{
             rabin::vss::{self, EncryptedDeal},
             suite::Suite,
+            VSSError,
         },
     },
     sign::{dss, schnorr},
@@ -528,6 +529,11 @@ where
 
         let resp = ver.process_encrypted_deal(&dd.deal)?;
 
+        // every dealer shares its secret with the threshold of this DKG
+        if ver.t != self.t {
+            return Err(DKGError::VSSError(VSSError::DealInvalidThreshold));
+        }
+
         // Set StatusApproval for the verifier that represents the participant
         // that distibuted the Deal
         ver.unsafe_set_response_dkg(dd.index, true);
-- 
2.43.0


From f20c4b70ab7f1431b9e8072ba9db1b3025a50c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 68/75] fix: secret commitments of a length other than the
 threshold lead to a complaint

---
 src/share/dkg/rabin/dkg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 9000d14..a6868dc 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -727,7 +727,7 @@ where
             Some(self.suite.point().base()),
             &sc.commitments,
         );
-        if !poly.check(&deal.sec_share) {
+        if sc.commitments.len() != self.t || !poly.check(&deal.sec_share) {
             let mut cc = ComplaintCommits::<SUITE> {
                 index: self.index,
                 dealer_index: sc.index,
@@ -783,7 +783,7 @@ where
 
         // the secret commits check should fail. Verification 5) in DKG Rabin's
         // paper.
-        if secret_commits.check(&cc.deal.sec_share) {
+        if secret_commits.threshold() == self.t && secret_commits.check(&cc.deal.sec_share) {
             return Err(DKGError::CommitComplaintInvalid);
         }
 
-- 
2.43.0


From 677c818983c27e6dbaddee5f2c664473f9d94dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 69/75] fix: a rabin DKG node that complained can process
 complaints and reconstruct the commitments

---
 src/share/dkg/rabin/dkg.rs | 89 ++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 27 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index a6868dc..4f4db18 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -331,6 +331,10 @@ pub struct DistKeyGenerator<SUITE: Suite> {
     /// `list of commitments` to each secret polynomial
     pub commitments: HashMap<u32, PubPoly<SUITE>>,
 
+    /// commitments that do not match the deal of their dealer, by the share of this
+    /// node or by the one revealed in a complaint
+    pub invalid_commitments: HashMap<u32, PubPoly<SUITE>>,
+
     /// `map of deals` collected to reconstruct the full polynomial of a dealer.
     /// The key is index of the dealer. Once there are enough ReconstructCommits
     /// struct, this dkg will re-construct the polynomial and stores it into the
@@ -350,6 +354,7 @@ impl<SUITE: Suite> Debug for DistKeyGenerator<SUITE> {
             .field("dealer", &self.dealer)
             .field("verifiers", &self.verifiers)
             .field("commitments", &self.commitments)
+            .field("invalid_commitments", &self.invalid_commitments)
             .field("pending_reconstruct", &self.pending_reconstruct)
             .field("reconstructed", &self.reconstructed)
             .finish()
@@ -452,6 +457,7 @@ pub fn new_dist_key_generator<SUITE: Suite>(
         dealer,
         verifiers: HashMap::new(),
         commitments: HashMap::new(),
+        invalid_commitments: HashMap::new(),
         pending_reconstruct: HashMap::new(),
         reconstructed: HashMap::new(),
         t,
@@ -691,7 +697,7 @@ where
     /// verifies and stores it. It returns an [`Error`](DKGError) in case the SecretCommits is
     /// invalid. In case the SecretCommits are valid, but this dkg can't verify its
     /// share, it returns a ComplaintCommits that must be broadcasted to every other
-    /// participant. It returns `None` otherwise.
+    /// participant, and processed by this dkg too. It returns `None` otherwise.
     pub fn process_secret_commits(
         &mut self,
         sc: &SecretCommits<SUITE>,
@@ -737,6 +743,8 @@ where
 
             let msg = cc.hash(&self.suite)?;
             cc.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
+            // complaints are about these commitments
+            self.invalid_commitments.insert(sc.index, poly);
             return Ok(Some(cc));
         }
         // commitments are fine
@@ -775,11 +783,14 @@ where
         // commits. Verification 4) in DKG Rabin's paper.
         v.verify_deal(&cc.deal, false)?;
 
-        if !self.commitments.contains_key(&cc.dealer_index) {
-            return Err(DKGError::CommitComplaintNoCommits);
-        }
-
-        let secret_commits = self.commitments.get(&cc.dealer_index).unwrap();
+        let secret_commits = match self
+            .invalid_commitments
+            .get(&cc.dealer_index)
+            .or_else(|| self.commitments.get(&cc.dealer_index))
+        {
+            Some(secret_commits) => secret_commits,
+            None => return Err(DKGError::CommitComplaintNoCommits),
+        };
 
         // the secret commits check should fail. Verification 5) in DKG Rabin's
         // paper.
@@ -792,7 +803,15 @@ where
             None => return Err(DKGError::CommitComplaintUncertifiedDeal),
         };
 
-        self.commitments.remove(&cc.dealer_index);
+        // our share is already revealed
+        if let Some(rc) = self
+            .pending_reconstruct
+            .get(&cc.dealer_index)
+            .and_then(|rcs| rcs.iter().find(|rc| rc.index == self.index))
+        {
+            return Ok(rc.clone());
+        }
+
         let mut rc = ReconstructCommits::<SUITE> {
             session_id: cc.deal.session_id.clone(),
             index: self.index,
@@ -804,6 +823,17 @@ where
         let msg = rc.hash(&self.suite)?;
         rc.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
 
+        // nothing left to reconstruct
+        if self.reconstructed.contains_key(&cc.dealer_index) {
+            return Ok(rc);
+        }
+
+        // keep the invalid commitments for the complaints of other participants
+        if let Some(poly) = self.commitments.remove(&cc.dealer_index) {
+            self.invalid_commitments
+                .entry(cc.dealer_index)
+                .or_insert(poly);
+        }
         self.pending_reconstruct
             .entry(cc.dealer_index)
             .or_insert_with(alloc::vec::Vec::new);
@@ -811,6 +841,7 @@ where
             .get_mut(&cc.dealer_index)
             .unwrap()
             .push(rc.clone());
+        self.reconstruct_commits(cc.dealer_index)?;
         Ok(rc)
     }
 
@@ -855,26 +886,30 @@ where
         // add it to list of pending shares
         arr.push(rc.clone());
 
-        // check if we can reconstruct commitments
-        if arr.len() >= self.t {
-            let mut shares = Vec::with_capacity(arr.len());
-            for _ in 0..arr.len() {
-                shares.push(None);
-            }
-            for (i, r) in arr.iter().enumerate() {
-                shares[i] = Some(r.share.clone());
-            }
-            // error only happens when you have less than t shares, but we ensure
-            // there are more just before
-            let pri = recover_pri_poly(&self.suite, &shares, self.t, self.participants.len())?;
-            self.commitments.insert(
-                rc.dealer_index,
-                pri.commit(Some(&self.suite.point().base())),
-            );
-            // note it has been reconstructed.
-            self.reconstructed.insert(rc.dealer_index, true);
-            self.pending_reconstruct.remove(&rc.dealer_index);
-        }
+        self.reconstruct_commits(rc.dealer_index)
+    }
+
+    /// [`reconstruct_commits()`] recovers the polynomial of the given dealer, and thus its
+    /// commitments, if there are enough revealed shares.
+    fn reconstruct_commits(&mut self, dealer_index: u32) -> Result<(), DKGError> {
+        let arr = match self.pending_reconstruct.get(&dealer_index) {
+            Some(arr) if arr.len() >= self.t => arr,
+            _ => return Ok(()),
+        };
+        let shares = arr
+            .iter()
+            .map(|r| Some(r.share.clone()))
+            .collect::<Vec<_>>();
+        // error only happens when you have less than t shares, but we ensure
+        // there are more just before
+        let pri = recover_pri_poly(&self.suite, &shares, self.t, self.participants.len())?;
+        self.commitments.insert(
+            dealer_index,
+            pri.commit(Some(&self.suite.point().base())),
+        );
+        // note it has been reconstructed.
+        self.reconstructed.insert(dealer_index, true);
+        self.pending_reconstruct.remove(&dealer_index);
         Ok(())
     }
 
-- 
2.43.0


From 416b057a18b9a339fa41ccac6195e9fe71c20834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 70/75] fix: secret commitments do not replace reconstructed
 ones

---
 src/share/dkg/error.rs     | 2 ++
 src/share/dkg/rabin/dkg.rs | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index 8667caf..a73187c 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -43,6 +43,8 @@ pub enum DKGError {
     SecretCommitsFromNonQUAL,
     #[error("secret commits received with wrong session id")]
     SecretCommitsWrongId,
+    #[error("secret commits from a dealer with a valid complaint")]
+    SecretCommitsInvalidated,
     #[error("verifier should exists")]
     MissingVerifier,
     #[error("deal should exists")]
diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 4f4db18..1060659 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -728,6 +728,15 @@ where
             Some(d) => d,
             None => return Err(DKGError::MissingDeal),
         };
+        // the commitments of this dealer come from the revealed shares
+        let revealed = match self.pending_reconstruct.get(&sc.index) {
+            Some(rcs) => rcs.iter().any(|rc| rc.index == self.index),
+            None => false,
+        };
+        if revealed || self.reconstructed.contains_key(&sc.index) {
+            return Err(DKGError::SecretCommitsInvalidated);
+        }
+
         let poly = PubPoly::new(
             &self.suite,
             Some(self.suite.point().base()),
-- 
2.43.0


From 7a8a55806d90313c669c239dd6880231b15e2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 71/75] fix: a revealed share only counts for its holder and
 the session of the dealer

---
 src/share/dkg/error.rs     |  2 ++
 src/share/dkg/rabin/dkg.rs | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index a73187c..7159458 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -65,6 +65,8 @@ pub enum DKGError {
     CommitmentsNotInvalidated,
     #[error("reconstruct commits with invalid verifier index")]
     ReconstructCommitsInvalidVerifierIndex,
+    #[error("reconstruct commits about an unknown dealer")]
+    ReconstructCommitsUnknownDealer,
     #[error("reconstruct commits invalid session id")]
     ReconstructCommitsInvalidId,
     #[error("distributed key not certified")]
diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1060659..cda45dc 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -874,6 +874,16 @@ where
             Some(public) => public,
             None => return Err(DKGError::ReconstructCommitsInvalidVerifierIndex),
         };
+        // a share is revealed by its holder, and the dealer cannot answer for itself
+        if rc.index == rc.dealer_index || rc.share.i != rc.index as usize {
+            return Err(DKGError::ReconstructCommitsInvalidVerifierIndex);
+        }
+
+        match self.verifiers.get(&rc.dealer_index) {
+            Some(v) if v.session_id() == rc.session_id => {}
+            Some(_) => return Err(DKGError::ReconstructCommitsInvalidId),
+            None => return Err(DKGError::ReconstructCommitsUnknownDealer),
+        }
 
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
@@ -883,14 +893,8 @@ where
             .or_insert_with(alloc::vec::Vec::new);
         let arr = self.pending_reconstruct.get_mut(&rc.dealer_index).unwrap();
         // check if packet is already received or not
-        // or if the session ID does not match the others
-        for r in arr.iter() {
-            if r.index == rc.index {
-                return Ok(());
-            }
-            if r.session_id != rc.session_id {
-                return Err(DKGError::ReconstructCommitsInvalidId);
-            }
+        if arr.iter().any(|r| r.index == rc.index) {
+            return Ok(());
         }
         // add it to list of pending shares
         arr.push(rc.clone());
-- 
2.43.0


From 393b51eb47d7b76981919f2af2c176bdd83acd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 72/75] fix: secret commitments and revealed shares are signed
 for their session

---
 src/share/dkg/rabin/dkg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index cda45dc..e1683ff 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -210,6 +210,7 @@ impl<SUITE: Suite> SecretCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("secretcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         for c in self.commitments.clone() {
             c.marshal_to(&mut h)?
@@ -304,6 +305,7 @@ impl<SUITE: Suite> ReconstructCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("reconstructcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         h.write_u32::<LittleEndian>(self.dealer_index)?;
         let share_buff = self.share.hash(*s)?;
-- 
2.43.0


From f77b34f3fe3e1aa8f2e16832a3299134129ce3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 73/75] fix: a rabin DKG without the share of a qualified
 dealer is not finished

---
 src/share/dkg/rabin/dkg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index e1683ff..bffd996 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -934,11 +934,11 @@ where
     pub fn finished(&self) -> bool {
         let mut ret = true;
         let mut nb = 0;
-        self.qual_iter(|i, _| {
+        self.qual_iter(|i, v| {
             nb += 1;
             // ALL QUAL members should have their commitments by now either given or
-            // reconstructed.
-            if !self.commitments.contains_key(&i) {
+            // reconstructed, and the share of each is needed.
+            if !self.commitments.contains_key(&i) || v.deal().is_none() {
                 ret = false;
                 return false;
             }
-- 
2.43.0


From 0d72fa246cdbe5473449fcf934f06af50fc7ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 74/75] fix: a share cannot be renewed with a polynomial of
 another degree

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index e42edf5..c5728a5 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1110,6 +1110,11 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
         suite: SUITE,
         g: DistKeyShare<SUITE>,
     ) -> Result<DistKeyShare<SUITE>, DKGError> {
+        // Check that both polynomials have the same number of coefficients
+        if g.commits.is_empty() || g.commits.len() != self.commits.len() {
+            return Err(DKGError::WrongRenewal);
+        }
+
         // Check G(0) = 0*G.
         if !g
             .public()
-- 
2.43.0


From 8bcacd99c0758052ea28acf2104f15cdbdd8dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 75/75] fix: a deserialized Ed25519 point must lie on the curve

---
 src/group/edwards25519/ge.rs    | 45 +++++++++++++++++++++++++++++++++
 src/group/edwards25519/point.rs | 23 +++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index 37a6cf6..f4a1165 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -178,6 +178,51 @@ impl ExtendedGroupElement {
         true
     }
 
+    /// [`is_on_curve()`] checks that the coordinates are those of a curve point:
+    /// bounded as the field operations require, `Z != 0`, `XY=ZT` and `Y^2-X^2=Z^2+dT^2`
+    pub fn is_on_curve(&self) -> bool {
+        let bounded = |f: &FieldElement| {
+            f.iter()
+                .enumerate()
+                .all(|(i, l)| l.unsigned_abs() <= 1 << (26 - i % 2))
+        };
+        if ![&self.x, &self.y, &self.z, &self.t].into_iter().all(bounded) {
+            return false;
+        }
+        if fe_is_non_zero(&self.z) == 0 {
+            return false;
+        }
+
+        let mut xy = FieldElement::default();
+        let mut zt = FieldElement::default();
+        fe_mul(&mut xy, &self.x, &self.y);
+        fe_mul(&mut zt, &self.z, &self.t);
+
+        let mut xx = FieldElement::default();
+        let mut yy = FieldElement::default();
+        let mut zz = FieldElement::default();
+        let mut tt = FieldElement::default();
+        let mut dtt = FieldElement::default();
+        fe_square(&mut xx, &self.x);
+        fe_square(&mut yy, &self.y);
+        fe_square(&mut zz, &self.z);
+        fe_square(&mut tt, &self.t);
+        fe_mul(&mut dtt, &tt, &D);
+        let mut left = FieldElement::default();
+        let mut right = FieldElement::default();
+        fe_sub(&mut left, &yy, &xx); // Y^2-X^2
+        fe_add(&mut right, &zz, &dtt); // Z^2+dT^2
+
+        let equal = |a: &FieldElement, b: &FieldElement| {
+            let mut a_bytes = [0_u8; 32];
+            let mut b_bytes = [0_u8; 32];
+            fe_to_bytes(&mut a_bytes, a);
+            fe_to_bytes(&mut b_bytes, b);
+            a_bytes == b_bytes
+        };
+        equal(&xy, &zt) && equal(&left, &right)
+    }
+
     #[allow(dead_code)]
     pub fn string(&self) -> String {
         "extendedGroupElement{\n\t".to_owned()
diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index fc753c8..d44d985 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -21,11 +21,34 @@ use super::{
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
 #[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedPoint")]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
 }
 
+/// The deserialized form of a [`Point`], whose coordinates are still to be checked
+#[derive(Deserialize)]
+struct UncheckedPoint {
+    ge: ExtendedGroupElement,
+    var_time: bool,
+}
+
+impl TryFrom<UncheckedPoint> for Point {
+    type Error = &'static str;
+
+    fn try_from(p: UncheckedPoint) -> Result<Self, Self::Error> {
+        // a point that was never set has no coordinates yet
+        if p.ge != ExtendedGroupElement::default() && !p.ge.is_on_curve() {
+            return Err("invalid Ed25519 curve point");
+        }
+        Ok(Self {
+            ge: p.ge,
+            var_time: p.var_time,
+        })
+    }
+}
+
 impl Point {
     pub fn new() -> Self {
         Self::default()
-- 
2.43.0

