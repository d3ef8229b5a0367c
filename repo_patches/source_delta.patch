From f3d5a2ae72a475c599ee697ff2694844255c4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:49 +0000
Subject: [PATCH 1/9] fix: rotate signed vectors without sign extension and for
 any count

---
 src/api/ops/vector_rotates.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..0673bb8 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -12,11 +12,14 @@ macro_rules! impl_ops_vector_rotates {
             /// to `slice::rotate_left`.
             #[inline]
             pub fn rotate_left(self, n: $id) -> $id {
-                const LANE_WIDTH: $elem_ty =
-                    crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
+                // The bits that wrap around must be shifted in without sign
+                // extension, so rotate the equivalent unsigned vector.
+                type U = <$id as codegen::shuffle1_dyn::Shuffle1Dyn>::Indices;
+                let (x, n): (U, U) = unsafe { (crate::mem::transmute(self), crate::mem::transmute(n)) };
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                let mask = U::splat((crate::mem::size_of::<$elem_ty>() * 8 - 1) as _);
+                let n = n & mask;
+                unsafe { crate::mem::transmute((x << n) | (x >> ((U::splat(0) - n) & mask))) }
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -27,11 +30,14 @@ macro_rules! impl_ops_vector_rotates {
             /// to `slice::rotate_right`.
             #[inline]
             pub fn rotate_right(self, n: $id) -> $id {
-                const LANE_WIDTH: $elem_ty =
-                    crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
+                // The bits that wrap around must be shifted in without sign
+                // extension, so rotate the equivalent unsigned vector.
+                type U = <$id as codegen::shuffle1_dyn::Shuffle1Dyn>::Indices;
+                let (x, n): (U, U) = unsafe { (crate::mem::transmute(self), crate::mem::transmute(n)) };
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                let mask = U::splat((crate::mem::size_of::<$elem_ty>() * 8 - 1) as _);
+                let n = n & mask;
+                unsafe { crate::mem::transmute((x >> n) | (x << ((U::splat(0) - n) & mask))) }
             }
         }
 
-- 
2.43.0


From b32fb3e62f3277133f93763f2b52461ec1c63902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:49 +0000
Subject: [PATCH 2/9] fix: casting out-of-range floats to integer vectors
 saturates instead of being undefined

---
 src/api/cast/macros.rs | 6 ++++--
 src/codegen/llvm.rs    | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/cast/macros.rs b/src/api/cast/macros.rs
index 3bb29f0..620262b 100644
--- a/src/api/cast/macros.rs
+++ b/src/api/cast/macros.rs
@@ -5,9 +5,11 @@ macro_rules! impl_from_cast_ {
         impl crate::api::cast::FromCast<$from_ty> for $id {
             #[inline]
             fn from_cast(x: $from_ty) -> Self {
-                use crate::llvm::simd_cast;
+                // note: unlike `simd_cast`, `simd_as` is defined for floats that
+                // do not fit the integer lane (it saturates like `as`).
+                use crate::llvm::simd_as;
                 debug_assert_eq!($from_ty::lanes(), $id::lanes());
-                Simd(unsafe { simd_cast(x.0) })
+                Simd(unsafe { simd_as(x.0) })
             }
         }
 
diff --git a/src/codegen/llvm.rs b/src/codegen/llvm.rs
index bb482fa..f3a1e31 100644
--- a/src/codegen/llvm.rs
+++ b/src/codegen/llvm.rs
@@ -81,6 +81,7 @@ extern "platform-intrinsic" {
     pub(crate) fn simd_extract<T, U>(x: T, idx: u32) -> U;
 
     pub(crate) fn simd_cast<T, U>(x: T) -> U;
+    pub(crate) fn simd_as<T, U>(x: T) -> U;
 
     pub(crate) fn simd_add<T>(x: T, y: T) -> T;
     pub(crate) fn simd_sub<T>(x: T, y: T) -> T;
-- 
2.43.0


From 7bbc04e4ee68a04dae3d7bc5c48e2698651598bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:49 +0000
Subject: [PATCH 3/9] fix: offset_from of pointer vectors measures from origin
 to self

---
 src/api/minimal/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index d9e47c9..290ffb5 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1166,7 +1166,7 @@ macro_rules! impl_minimal_p {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
                 // note: {-,/} currently perform wrapping_{sub, div}
-                (y - x) / (crate::mem::size_of::<T>() as isize)
+                (x - y) / (crate::mem::size_of::<T>() as isize)
             }
 
             /// Calculates the offset from a pointer (convenience for
-- 
2.43.0


From 5bfaa25deabfd5b0d553bb827a0c56c61ce33b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:49 +0000
Subject: [PATCH 4/9] fix: shuffle! of pointer vectors yields the pointer
 vector's own tuple type

---
 src/codegen/shuffle.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index d3acd48..383d1a7 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -113,28 +113,28 @@ impl_shuffle! { [u32; 8], msize, crate::codegen::msizex8 }
 
 impl<T> Seal<[u32; 2]> for *const T {}
 impl<T> Shuffle<[u32; 2]> for *const T {
-    type Output = crate::codegen::cptrx2<T>;
+    type Output = crate::codegen::cptrx2<*const T>;
 }
 impl<T> Seal<[u32; 4]> for *const T {}
 impl<T> Shuffle<[u32; 4]> for *const T {
-    type Output = crate::codegen::cptrx4<T>;
+    type Output = crate::codegen::cptrx4<*const T>;
 }
 impl<T> Seal<[u32; 8]> for *const T {}
 impl<T> Shuffle<[u32; 8]> for *const T {
-    type Output = crate::codegen::cptrx8<T>;
+    type Output = crate::codegen::cptrx8<*const T>;
 }
 
 impl<T> Seal<[u32; 2]> for *mut T {}
 impl<T> Shuffle<[u32; 2]> for *mut T {
-    type Output = crate::codegen::mptrx2<T>;
+    type Output = crate::codegen::mptrx2<*mut T>;
 }
 impl<T> Seal<[u32; 4]> for *mut T {}
 impl<T> Shuffle<[u32; 4]> for *mut T {
-    type Output = crate::codegen::mptrx4<T>;
+    type Output = crate::codegen::mptrx4<*mut T>;
 }
 impl<T> Seal<[u32; 8]> for *mut T {}
 impl<T> Shuffle<[u32; 8]> for *mut T {
-    type Output = crate::codegen::mptrx8<T>;
+    type Output = crate::codegen::mptrx8<*mut T>;
 }
 
 impl_shuffle! { [u32; 1], i128, crate::codegen::i128x1 }
-- 
2.43.0


From 4f501796b3dbf00c703a20202228c1a822552b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:03 +0000
Subject: [PATCH 5/9] fix: shuffle! supports 32-lane m16 results like the other
 16-bit elements

---
 src/codegen/shuffle.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index 383d1a7..f8b132f 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -50,6 +50,7 @@ impl_shuffle! { [u32; 2], m16, crate::codegen::m16x2 }
 impl_shuffle! { [u32; 4], m16, crate::codegen::m16x4 }
 impl_shuffle! { [u32; 8], m16, crate::codegen::m16x8 }
 impl_shuffle! { [u32; 16], m16, crate::codegen::m16x16 }
+impl_shuffle! { [u32; 32], m16, crate::codegen::m16x32 }
 
 impl_shuffle! { [u32; 2], i32, crate::codegen::i32x2 }
 impl_shuffle! { [u32; 4], i32, crate::codegen::i32x4 }
-- 
2.43.0


From 994dd1e84f314258ff278b753c17609d146f1d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:12 +0000
Subject: [PATCH 6/9] fix: casting a 128-bit integer vector to a mask yields a
 valid mask

---
 src/api/cast/v128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/cast/v128.rs b/src/api/cast/v128.rs
index 2e10b97..e310a35 100644
--- a/src/api/cast/v128.rs
+++ b/src/api/cast/v128.rs
@@ -299,4 +299,4 @@ impl_from_cast_mask!(
 // FIXME[test_v128]: 64-bit single element vectors into_cast impls
 impl_from_cast!(i128x1[test_v128]: u128x1, m128x1);
 impl_from_cast!(u128x1[test_v128]: i128x1, m128x1);
-impl_from_cast!(m128x1[test_v128]: i128x1, u128x1);
+impl_from_cast_mask!(m128x1[test_v128]: i128x1, u128x1);
-- 
2.43.0


From 196e2c135010e12c781cd7e0a0981f055ff02b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 7/9] fix: shuffle! does not evaluate its operands inside its
 unsafe block

The operands of the two-vector forms were expanded inside the macro's
own unsafe block, so a caller could run unsafe code without writing
unsafe.
---
 src/api/shuffle.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/api/shuffle.rs b/src/api/shuffle.rs
index 1c17bd7..2e28e46 100644
--- a/src/api/shuffle.rs
+++ b/src/api/shuffle.rs
@@ -73,31 +73,37 @@
 #[macro_export]
 macro_rules! shuffle {
     ($vec0:expr, $vec1:expr, [$l0:expr, $l1:expr]) => {{
+        // Evaluate the operands outside of the `unsafe` block:
+        let (vec0, vec1) = ($vec0, $vec1);
         #[allow(unused_unsafe)]
         unsafe {
             $crate::Simd($crate::__shuffle_vector2::<{[$l0, $l1]}, _, _>(
-                $vec0.0,
-                $vec1.0,
+                vec0.0,
+                vec1.0,
             ))
         }
     }};
     ($vec0:expr, $vec1:expr, [$l0:expr, $l1:expr, $l2:expr, $l3:expr]) => {{
+        // Evaluate the operands outside of the `unsafe` block:
+        let (vec0, vec1) = ($vec0, $vec1);
         #[allow(unused_unsafe)]
         unsafe {
             $crate::Simd($crate::__shuffle_vector4::<{[$l0, $l1, $l2, $l3]}, _, _>(
-                $vec0.0,
-                $vec1.0,
+                vec0.0,
+                vec1.0,
             ))
         }
     }};
     ($vec0:expr, $vec1:expr,
      [$l0:expr, $l1:expr, $l2:expr, $l3:expr,
       $l4:expr, $l5:expr, $l6:expr, $l7:expr]) => {{
+        // Evaluate the operands outside of the `unsafe` block:
+        let (vec0, vec1) = ($vec0, $vec1);
         #[allow(unused_unsafe)]
         unsafe {
             $crate::Simd($crate::__shuffle_vector8::<{[$l0, $l1, $l2, $l3, $l4, $l5, $l6, $l7]}, _, _>(
-                $vec0.0,
-                $vec1.0,
+                vec0.0,
+                vec1.0,
             ))
         }
     }};
@@ -106,6 +112,8 @@ macro_rules! shuffle {
       $l4:expr, $l5:expr, $l6:expr, $l7:expr,
       $l8:expr, $l9:expr, $l10:expr, $l11:expr,
       $l12:expr, $l13:expr, $l14:expr, $l15:expr]) => {{
+        // Evaluate the operands outside of the `unsafe` block:
+        let (vec0, vec1) = ($vec0, $vec1);
         #[allow(unused_unsafe)]
         unsafe {
             $crate::Simd($crate::__shuffle_vector16::<{
@@ -114,8 +122,8 @@ macro_rules! shuffle {
                     $l11, $l12, $l13, $l14, $l15,
                 ]
             }, _, _>(
-                $vec0.0,
-                $vec1.0,
+                vec0.0,
+                vec1.0,
             ))
         }
     }};
@@ -128,6 +136,8 @@ macro_rules! shuffle {
       $l20:expr, $l21:expr, $l22:expr, $l23:expr,
       $l24:expr, $l25:expr, $l26:expr, $l27:expr,
       $l28:expr, $l29:expr, $l30:expr, $l31:expr]) => {{
+        // Evaluate the operands outside of the `unsafe` block:
+        let (vec0, vec1) = ($vec0, $vec1);
         #[allow(unused_unsafe)]
         unsafe {
             $crate::Simd($crate::__shuffle_vector32::<{
@@ -138,8 +148,8 @@ macro_rules! shuffle {
                     $l29, $l30, $l31,
                 ]
             }, _, _>(
-                $vec0.0,
-                $vec1.0,
+                vec0.0,
+                vec1.0,
             ))
         }
     }};
@@ -160,6 +170,8 @@ macro_rules! shuffle {
       $l52:expr, $l53:expr, $l54:expr, $l55:expr,
       $l56:expr, $l57:expr, $l58:expr, $l59:expr,
       $l60:expr, $l61:expr, $l62:expr, $l63:expr]) => {{
+        // Evaluate the operands outside of the `unsafe` block:
+        let (vec0, vec1) = ($vec0, $vec1);
         #[allow(unused_unsafe)]
         unsafe {
             $crate::Simd($crate::__shuffle_vector64::<{[
@@ -171,8 +183,8 @@ macro_rules! shuffle {
                 $l47, $l48, $l49, $l50, $l51, $l52, $l53, $l54, $l55,
                 $l56, $l57, $l58, $l59, $l60, $l61, $l62, $l63,
             ]}, _, _>(
-                $vec0.0,
-                $vec1.0,
+                vec0.0,
+                vec1.0,
             ))
         }
      }};
-- 
2.43.0


From 018f9bc5d96d6f4cbb36e4d6ae277f85c247da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 8/9] fix: vector shifts by a count not below the lane width
 are defined

An over-long shift is undefined behaviour in the backend and was
reachable from safe code; shift by the count modulo the lane width, as
the rotates and wrapping_shl/wrapping_shr do.
---
 src/api/ops/vector_shifts.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/api/ops/vector_shifts.rs b/src/api/ops/vector_shifts.rs
index 8bb5ac2..af0e69d 100644
--- a/src/api/ops/vector_shifts.rs
+++ b/src/api/ops/vector_shifts.rs
@@ -7,7 +7,9 @@ macro_rules! impl_ops_vector_shifts {
             #[inline]
             fn shl(self, other: Self) -> Self {
                 use crate::llvm::simd_shl;
-                unsafe { Simd(simd_shl(self.0, other.0)) }
+                // Protect against undefined behavior for over-long bit shifts
+                let count = other & Self::splat((crate::mem::size_of::<$elem_ty>() * 8 - 1) as $elem_ty);
+                unsafe { Simd(simd_shl(self.0, count.0)) }
             }
         }
         impl crate::ops::Shr<$id> for $id {
@@ -15,7 +17,9 @@ macro_rules! impl_ops_vector_shifts {
             #[inline]
             fn shr(self, other: Self) -> Self {
                 use crate::llvm::simd_shr;
-                unsafe { Simd(simd_shr(self.0, other.0)) }
+                // Protect against undefined behavior for over-long bit shifts
+                let count = other & Self::splat((crate::mem::size_of::<$elem_ty>() * 8 - 1) as $elem_ty);
+                unsafe { Simd(simd_shr(self.0, count.0)) }
             }
         }
         impl crate::ops::ShlAssign<$id> for $id {
-- 
2.43.0


From 0cb7ca733eceb8be363dab24d995ff2327c3d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:56 +0000
Subject: [PATCH 9/9] fix: wrapping_offset_from of pointers to zero-sized types
 panics instead of dividing by zero

---
 src/api/minimal/ptr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index 290ffb5..444f4c2 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1161,10 +1161,15 @@ macro_rules! impl_minimal_p {
             /// result will be mostly useless if the two pointers aren't into
             /// the same allocated object, for example if they point to two
             /// different local variables.
+            ///
+            /// # Panics
+            ///
+            /// If `T` is a zero-sized type.
             #[inline]
             pub fn wrapping_offset_from(self, origin: Self) -> $isize_ty {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
+                assert!(crate::mem::size_of::<T>() != 0);
                 // note: {-,/} currently perform wrapping_{sub, div}
                 (x - y) / (crate::mem::size_of::<T>() as isize)
             }
-- 
2.43.0

