From 169f426b47c8f4ec4e4e81eccfb8d576fd7dd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 01/14] fix: CubicExtField::is_zero must also look at c2

---
 src/ff_ext/cubic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff_ext/cubic.rs b/src/ff_ext/cubic.rs
index 70af416..27a0a39 100644
--- a/src/ff_ext/cubic.rs
+++ b/src/ff_ext/cubic.rs
@@ -201,7 +201,7 @@ where
     }
 
     fn is_zero(&self) -> subtle::Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 95506b58e02c49e2aeff7fdb639aa740466faaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 02/14] fix: projective is_on_curve must reject (x, y, 0)
 unless it is the point at infinity

---
 src/derive/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 84f4c56..9b4876c 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -430,18 +430,20 @@ macro_rules! new_curve_impl {
                 if $constant_a == $base::ZERO {
                     // Check (Y/Z)^2 = (X/Z)^3 + b
                     // <=>    Z Y^2 - X^3 = Z^3 b
+                    // At infinity (Z = 0) this forces X = 0; Y must not vanish there.
 
                     (self.z * self.y.square() - self.x.square() * self.x)
                         .ct_eq(&(self.z.square() * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 } else {
                     // Check (Y/Z)^2 = (X/Z)^3 + a(X/Z) + b
                     // <=>    Z Y^2 - X^3 - a(X Z^2) = Z^3 b
+                    // At infinity (Z = 0) this forces X = 0; Y must not vanish there.
 
                     let z2 = self.z.square();
                     (self.z * self.y.square() - (self.x.square() + $constant_a * z2) * self.x)
                         .ct_eq(&(z2 * self.z * $constant_b))
-                        | self.z.is_zero()
+                        & !(self.y.is_zero() & self.z.is_zero())
                 }
             }
 
-- 
2.43.0


From b9c6fd13167ea60cfcb9557bc27ed112b2332dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 03/14] fix: lexicographically_largest must not flag (p-1)/2,
 which is smaller than its negation

---
 derive/src/field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/field/mod.rs b/derive/src/field/mod.rs
index 566fb9e..c203f5c 100644
--- a/derive/src/field/mod.rs
+++ b/derive/src/field/mod.rs
@@ -113,7 +113,7 @@ pub(crate) fn impl_field(input: TokenStream) -> TokenStream {
     let modulus_limbs_32_ident = quote! {[#(#modulus_limbs_32,)*]};
 
     let to_token = |e: &BigUint| big_to_token(e, num_limbs);
-    let half_modulus = (&modulus - 1usize) >> 1;
+    let half_modulus = (&modulus + 1usize) >> 1;
     let half_modulus = to_token(&half_modulus);
 
     // binary modulus
-- 
2.43.0


From 720435c130fa3792c53dbeb895476675a9b2f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 04/14] fix: Fq2 decoders must reject non-canonical components
 instead of panicking

---
 src/derive/field/tower.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index 9f508fb..de55de5 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -41,13 +41,7 @@ macro_rules! impl_tower2 {
             pub fn from_bytes(bytes: &[u8; $base::SIZE * 2]) -> CtOption<$field> {
                 let c0 = $base::from_bytes(bytes[0..$base::SIZE].try_into().unwrap());
                 let c1 = $base::from_bytes(bytes[$base::SIZE..$base::SIZE * 2].try_into().unwrap());
-                CtOption::new(
-                    $field {
-                        c0: c0.unwrap(),
-                        c1: c1.unwrap(),
-                    },
-                    c0.is_some() & c1.is_some(),
-                )
+                c0.and_then(|c0| c1.map(|c1| $field { c0, c1 }))
             }
 
             /// Converts an element of `$base` into a byte representation in
@@ -132,7 +126,7 @@ macro_rules! impl_tower2 {
                 let c1: <$base as PrimeField>::Repr = c1.into();
                 let c1 = $base::from_repr(c1);
 
-                CtOption::new($field::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+                c0.and_then(|c0| c1.map(|c1| $field::new(c0, c1)))
             }
 
             fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 17777cc12b99c8e2a5366ddf93a47c7d0f487f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 05/14] fix: read_raw of curve points must reject coordinates
 off the curve, as from_raw_bytes does

---
 src/derive/curve.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index 9b4876c..f4ff983 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -647,7 +647,14 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "input is not a point on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -747,7 +754,14 @@ macro_rules! new_curve_impl {
             fn read_raw<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "input is not a point on the curve",
+                    )
+                })
             }
             fn write_raw<W: std::io::Write>(&self, writer: &mut W) -> std::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From f2cacbe0304f05536971a7a41a8aaa150c37a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 06/14] fix: remove debug printing from the bn256 G2 cofactor
 clearing

---
 src/bn256/curve.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index dadf31d..2138121 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -165,8 +165,6 @@ fn exp_by_x(g2: &G2) -> G2 {
     let x = super::BN_X;
 
     (0..62).rev().fold(g2.clone(), |mut acc, i| {
-        println!("{}", ((x >> i) & 1) == 1);
-
         acc = acc.double();
         (((x >> i) & 1) == 1).then(|| acc += g2);
         acc
-- 
2.43.0


From 02e8d6ee6a2d07d7fdd4694c85ae86888e503c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 07/14] fix: compressed points with x = 0 (e.g. on secp256r1)
 must decode

---
 src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1377993..b9cd318 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -349,9 +349,9 @@ where
                     // * sign must not be set
 
                     // identity flag not set:
-                    // * x must not be zero
+                    // * x may be zero: (0, sqrt(b)) is a point when b is a square
 
-                    let is_valid = (is_identity & is_zero & !sign) ^ (!is_identity & !is_zero);
+                    let is_valid = !is_identity | (is_zero & !sign);
 
                     (is_valid, is_identity)
                 }
-- 
2.43.0


From 962b595388bed19cc58591924e14c5077d1e1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 08/14] fix: the sign of an Fq2 element must look at c1 when c0
 is zero

---
 src/derive/curve.rs       | 6 +++---
 src/derive/field/tower.rs | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/derive/curve.rs b/src/derive/curve.rs
index f4ff983..d201e80 100644
--- a/src/derive/curve.rs
+++ b/src/derive/curve.rs
@@ -69,11 +69,11 @@ macro_rules! new_curve_impl {
             impl $crate::serde::Compressed<$name_affine> for [<$name:upper Compressed >] {
                 const CONFIG: $crate::serde::CompressedFlagConfig = $flag_config;
                 fn sign(c: &$name_affine) -> subtle::Choice {
-                    Choice::from(c.y.to_repr()[0] as u8 & 1) & !c.is_identity()
+                    c.y.is_odd() & !c.is_identity()
                 }
                 fn resolve(x: $base, sign_set: Choice) -> CtOption<$name_affine> {
                     $name_affine::y2(x).sqrt().map(|y| {
-                        let y = $base::conditional_select(&y, &-y, sign_set ^ Choice::from(y.to_repr()[0] as u8 & 1));
+                        let y = $base::conditional_select(&y, &-y, sign_set ^ y.is_odd());
                         $name_affine { x, y }
                     })
                 }
@@ -318,7 +318,7 @@ macro_rules! new_curve_impl {
 
                     let y2 = $name_affine::y2(x);
                     if let Some(y) = Option::<$base>::from(y2.sqrt()) {
-                        let sign = y.to_repr()[0] & 1;
+                        let sign = y.is_odd().unwrap_u8();
                         let y = if ysign ^ sign == 0 { y } else { -y };
 
                         let p = $name_affine {
diff --git a/src/derive/field/tower.rs b/src/derive/field/tower.rs
index de55de5..3ec3bd0 100644
--- a/src/derive/field/tower.rs
+++ b/src/derive/field/tower.rs
@@ -139,7 +139,8 @@ macro_rules! impl_tower2 {
             }
 
             fn is_odd(&self) -> Choice {
-                Choice::from(self.to_repr().as_ref()[0] & 1)
+                // sgn0 of RFC 9380: the parity of the first non-zero coefficient
+                self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
             }
         }
 
-- 
2.43.0


From 2d48ae861e4b7f9311ff49c05cf304bfe0097ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 09/14] fix: the square root of zero in pluto Fp2 must not
 recurse forever

---
 src/ff_ext/quadratic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff_ext/quadratic.rs b/src/ff_ext/quadratic.rs
index 59c779c..651f468 100644
--- a/src/ff_ext/quadratic.rs
+++ b/src/ff_ext/quadratic.rs
@@ -102,6 +102,10 @@ pub fn sqrt_algo10<F: ExtField, S: AsRef<[u64]>>(
 where
     QuadExtField<F>: QuadExtFieldArith<Base = F> + ExtField,
 {
+    if el.is_zero().into() {
+        return CtOption::new(QuadExtField::ZERO, Choice::from(1));
+    }
+
     let b = el.pow_vartime(q_minus_1_over_4);
 
     let b_2 = b.square();
-- 
2.43.0


From ae22d06f86896dc0e47db9b8d38295819b96139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 10/14] fix: batched doubling in msm_best must use the curve
 coefficient a

---
 src/msm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msm.rs b/src/msm.rs
index 615bcb5..7a7c6b5 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -91,7 +91,7 @@ fn batch_add<C: CurveAffine>(
                 // Doubling
                 let x_squared = bases[*base_idx].x.square();
                 *z = buckets[*buck_idx].y() + buckets[*buck_idx].y(); // 2y
-                *t = acc * (x_squared + x_squared + x_squared); // acc * 3x^2
+                *t = acc * (x_squared + x_squared + x_squared + C::a()); // acc * (3x^2 + a)
                 acc *= *z;
                 continue;
             }
-- 
2.43.0


From 0ad8e553bc26848820d382961793ff94ee63a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 11/14] fix: msm_best must skip identity bases

---
 src/msm.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/msm.rs b/src/msm.rs
index 7a7c6b5..28c9f0b 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -1,6 +1,6 @@
 use std::ops::Neg;
 
-use crate::CurveAffine;
+use crate::{Coordinates, CurveAffine};
 use ff::Field;
 use ff::PrimeField;
 use group::Group;
@@ -149,12 +149,17 @@ struct Affine<C: CurveAffine> {
 
 impl<C: CurveAffine> Affine<C> {
     fn from(point: &C) -> Self {
-        let coords = point.coordinates().unwrap();
-
-        Self {
-            x: *coords.x(),
-            y: *coords.y(),
-        }
+        // The identity has no coordinates, it is never scheduled for batch addition.
+        Option::<Coordinates<C>>::from(point.coordinates()).map_or(
+            Self {
+                x: C::Base::ZERO,
+                y: C::Base::ZERO,
+            },
+            |coords| Self {
+                x: *coords.x(),
+                y: *coords.y(),
+            },
+        )
     }
 
     fn neg(&self) -> Self {
@@ -495,7 +500,7 @@ pub fn msm_best<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C]) -> C::Curve {
         for (base_idx, coeff) in coeffs.iter().enumerate() {
             let buck_idx = get_booth_index(w, c, coeff.as_ref());
 
-            if buck_idx != 0 {
+            if buck_idx != 0 && !bool::from(bases[base_idx].is_identity()) {
                 // parse bucket index
                 let sign = buck_idx.is_positive();
                 let buck_idx = buck_idx.unsigned_abs() as usize - 1;
-- 
2.43.0


From 7f08289898e4558a43f6e0da14b82dd998d3c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 12/14] fix: msm_serial must panic on a length mismatch as
 documented

---
 src/msm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msm.rs b/src/msm.rs
index 28c9f0b..239398a 100644
--- a/src/msm.rs
+++ b/src/msm.rs
@@ -338,6 +338,8 @@ impl<C: CurveAffine> Schedule<C> {
 ///
 /// This function will panic if coeffs and bases have a different length.
 pub fn msm_serial<C: CurveAffine>(coeffs: &[C::Scalar], bases: &[C], acc: &mut C::Curve) {
+    assert_eq!(coeffs.len(), bases.len());
+
     let coeffs: Vec<_> = coeffs.iter().map(|a| a.to_repr()).collect();
 
     let c = if bases.len() < 4 {
-- 
2.43.0


From 61feebbb31796e92317fb6dee59d8c7393c28db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 13/14] fix: into_subgroup must return the point exactly when
 it lies in the prime-order subgroup

---
 src/bls12381/g1.rs      | 2 +-
 src/bls12381/g2.rs      | 2 +-
 src/bn256/curve.rs      | 2 +-
 src/pluto_eris/curve.rs | 3 +--
 4 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 451f1f0..7495269 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -51,7 +51,7 @@ impl group::cofactor::CofactorGroup for G1 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/bls12381/g2.rs b/src/bls12381/g2.rs
index df77bb5..a5829a2 100644
--- a/src/bls12381/g2.rs
+++ b/src/bls12381/g2.rs
@@ -123,7 +123,7 @@ impl group::cofactor::CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        CtOption::new(self, 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     /// Returns true if this point is free of an $h$-torsion component, and so it
diff --git a/src/bn256/curve.rs b/src/bn256/curve.rs
index 2138121..4e7aeca 100644
--- a/src/bn256/curve.rs
+++ b/src/bn256/curve.rs
@@ -224,7 +224,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        unimplemented!();
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
diff --git a/src/pluto_eris/curve.rs b/src/pluto_eris/curve.rs
index e0452a9..2156099 100644
--- a/src/pluto_eris/curve.rs
+++ b/src/pluto_eris/curve.rs
@@ -202,8 +202,7 @@ impl CofactorGroup for G2 {
     }
 
     fn into_subgroup(self) -> CtOption<Self::Subgroup> {
-        // TODO: Handle the case where the point is already in the subgroup.
-        CtOption::new(self.clear_cofactor(), 1.into())
+        CtOption::new(self, self.is_torsion_free())
     }
 
     fn is_torsion_free(&self) -> Choice {
-- 
2.43.0


From 294169ed15df3510a90ed8d3b0cc6bdb0c0d444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 14/14] fix: BLS12-381 G1 hash-to-curve isogeny returned (0, 0,
 0) on its kernel instead of the identity

---
 src/bls12381/g1.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bls12381/g1.rs b/src/bls12381/g1.rs
index 7495269..90e0646 100644
--- a/src/bls12381/g1.rs
+++ b/src/bls12381/g1.rs
@@ -155,11 +155,14 @@ fn iso_map(x: Fq, y: Fq, z: Fq) -> G1 {
     mapvals[2] *= y;
     mapvals[3] *= z;
 
-    G1 {
+    let p = G1 {
         x: mapvals[0] * mapvals[3], // xnum * yden,
         y: mapvals[2] * mapvals[1], // ynum * xden,
         z: mapvals[1] * mapvals[3], // xden * yden
-    }
+    };
+
+    // points in the kernel of the isogeny map to the identity
+    G1::conditional_select(&p, &G1::identity(), p.z.is_zero())
 }
 
 #[allow(clippy::type_complexity)]
-- 
2.43.0

