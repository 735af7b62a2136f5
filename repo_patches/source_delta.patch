From 1861d285626c28418afbfae38339a5fbfcdbdb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:50 +0000
Subject: [PATCH 1/3] fix: apply the pending swap at the end of the Montgomery
 ladder

The ladder defers its conditional swap to the next iteration, so the last
one has to be applied after the loop; without it the result is wrong for
every odd scalar.
---
 src/curve/montgomery/montgomery.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..5158eb5 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,7 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From 1b3846cbb0a87afcc563ba12d891ee74b60afb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:53 +0000
Subject: [PATCH 2/3] fix: is_low_order accepts non-canonical encodings of low
 order points

The u-coordinates p and p + 1 denote 0 and 1 but were not recognised,
because the raw bytes were compared.
---
 src/curve/montgomery/montgomery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index 5158eb5..d99278e 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -113,7 +113,9 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // The u-coordinate may be encoded non-canonically, so reduce it first
+        let reduced = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
+        (reduced == LOW_A) || (reduced == LOW_B) || (reduced == LOW_C)
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0


From d068dd19f9cc0a53a1bd8c89dd8f4a4ef83d8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:32 +0000
Subject: [PATCH 3/3] verif: guarded access to representations (cfg
 ed448_verif)

---
 src/lib.rs   |   2 +
 src/verif.rs | 115 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 117 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 9abe061..dcd6014 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,5 +13,7 @@ pub mod curve;
 pub mod decaf;
 mod field;
 pub mod ristretto;
+#[cfg(ed448_verif)]
+pub mod verif;
 
 pub use field::Scalar;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..23855b1
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,115 @@
+//! Access to representations for the verification harness; compiled only with
+//! `--cfg ed448_verif`.
+use crate::curve::edwards::extended::ExtendedPoint;
+use crate::curve::twedwards::extended::ExtendedPoint as TwistedPoint;
+use crate::decaf::DecafPoint;
+use crate::field::FieldElement;
+use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};
+
+/// A field element given by its limbs.
+#[derive(Copy, Clone)]
+pub struct Fe(FieldElement);
+
+#[cfg(feature = "fiat_u64_backend")]
+fn pack(l: &[u64]) -> FieldElement {
+    let mut a = [0u64; 8];
+    a.copy_from_slice(l);
+    FieldElement::from_raw_slice(a)
+}
+#[cfg(feature = "fiat_u64_backend")]
+fn unpack(f: &FieldElement) -> Vec<u64> {
+    (f.0).0.to_vec()
+}
+#[cfg(feature = "u32_backend")]
+fn pack(l: &[u64]) -> FieldElement {
+    let mut a = [0u32; 16];
+    for (x, y) in a.iter_mut().zip(l) {
+        *x = *y as u32;
+    }
+    FieldElement::from_raw_slice(a)
+}
+#[cfg(feature = "u32_backend")]
+fn unpack(f: &FieldElement) -> Vec<u64> {
+    f.0.iter().map(|x| *x as u64).collect()
+}
+
+impl Fe {
+    pub fn from_limbs(l: &[u64]) -> Fe {
+        Fe(pack(l))
+    }
+    pub fn limbs(&self) -> Vec<u64> {
+        unpack(&self.0)
+    }
+    pub fn from_bytes(b: &[u8; 56]) -> Fe {
+        Fe(FieldElement::from_bytes(b))
+    }
+    pub fn to_bytes(&self) -> [u8; 56] {
+        self.0.to_bytes()
+    }
+    pub fn add(&self, o: &Fe) -> Fe {
+        Fe(self.0 + o.0)
+    }
+    pub fn sub(&self, o: &Fe) -> Fe {
+        Fe(self.0 - o.0)
+    }
+    pub fn mul(&self, o: &Fe) -> Fe {
+        Fe(self.0 * o.0)
+    }
+    pub fn square(&self) -> Fe {
+        Fe(self.0.square())
+    }
+    pub fn negate(&self) -> Fe {
+        Fe(self.0.negate())
+    }
+    pub fn invert(&self) -> Fe {
+        Fe(self.0.invert())
+    }
+    pub fn inverse_square_root(&self) -> (Fe, bool) {
+        let (r, c) = self.0.inverse_square_root();
+        (Fe(r), c.into())
+    }
+    pub fn sqrt_ratio(&self, v: &Fe) -> (Fe, bool) {
+        let (r, c) = FieldElement::sqrt_ratio(&self.0, &v.0);
+        (Fe(r), c.into())
+    }
+    pub fn eq(&self, o: &Fe) -> bool {
+        self.0.ct_eq(&o.0).into()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero().into()
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative().into()
+    }
+    pub fn select(a: &Fe, b: &Fe, c: u8) -> Fe {
+        Fe(FieldElement::conditional_select(&a.0, &b.0, Choice::from(c)))
+    }
+    pub fn conditional_negate(&self, c: u8) -> Fe {
+        let mut x = self.0;
+        x.conditional_negate(Choice::from(c));
+        Fe(x)
+    }
+}
+
+pub fn edwards(c: &[Fe; 4]) -> ExtendedPoint {
+    ExtendedPoint {
+        X: c[0].0,
+        Y: c[1].0,
+        Z: c[2].0,
+        T: c[3].0,
+    }
+}
+pub fn edwards_coordinates(p: &ExtendedPoint) -> [Fe; 4] {
+    [Fe(p.X), Fe(p.Y), Fe(p.Z), Fe(p.T)]
+}
+pub fn decaf(c: &[Fe; 4]) -> DecafPoint {
+    DecafPoint(TwistedPoint {
+        X: c[0].0,
+        Y: c[1].0,
+        Z: c[2].0,
+        T: c[3].0,
+    })
+}
+pub fn decaf_coordinates(p: &DecafPoint) -> [Fe; 4] {
+    [Fe(p.0.X), Fe(p.0.Y), Fe(p.0.Z), Fe(p.0.T)]
+}
-- 
2.43.0

