From 2b6dd3e3d601f342a55cdc97b026189336bfe7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:08 +0000
Subject: [PATCH 01/16] fix: XMVectorSetBinaryConstant tested a different bit
 in each lane (SSE) and overflowed in debug builds (scalar)

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..b5cc253 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = 0u32.wrapping_sub(C0 & 1) & 0x3F800000;
+        vResult.u[1] = 0u32.wrapping_sub(C1 & 1) & 0x3F800000;
+        vResult.u[2] = 0u32.wrapping_sub(C2 & 1) & 0x3F800000;
+        vResult.u[3] = 0u32.wrapping_sub(C3 & 1) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From 613fb8345501d344726082694bfa92f79e60daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:08 +0000
Subject: [PATCH 02/16] fix: XMVectorRound (scalar) rounded lane x into every
 lane

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..b08d3f8 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From 6d06c7c257ed7e7f7d57df37637ffa57695f79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:08 +0000
Subject: [PATCH 03/16] fix: XMVectorInBoundsR (scalar) recorded CR6TRUE
 instead of CR6BOUNDS

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index b08d3f8..b8093fd 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From a951ef07e7adf5e128c51ed34a4fc0feb0d2f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:48 +0000
Subject: [PATCH 04/16] fix: XMPlaneNormalize used an SSE4.1 instruction in
 builds without SSE4.1

---
 src/misc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/misc.rs b/src/misc.rs
index e3c685d..e29d2f4 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -2027,7 +2027,13 @@ pub fn XMPlaneNormalize(
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let mut vLengthSq: XMVECTOR = _mm_dp_ps(P, P, 0x7f);
+        // Perform the dot product on x,y and z only
+        let mut vLengthSq: XMVECTOR = _mm_mul_ps(P, P);
+        let mut vTemp: XMVECTOR = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(2, 1, 2, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vTemp = XM_PERMUTE_PS!(vTemp, _MM_SHUFFLE(1, 1, 1, 1));
+        vLengthSq = _mm_add_ss(vLengthSq, vTemp);
+        vLengthSq = XM_PERMUTE_PS!(vLengthSq, _MM_SHUFFLE(0, 0, 0, 0));
         // Prepare for the division
         let mut vResult: XMVECTOR = _mm_sqrt_ps(vLengthSq);
         // Failsafe on zero (Or epsilon) length planes
-- 
2.43.0


From d9e73e49d1645290cd1d828c53f20b2db8803ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:17 +0000
Subject: [PATCH 05/16] fix: XMConvertHalfToFloat (no F16C) stopped normalising
 denormals after one step

---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From 4cdb88f87c6ba9bd242a0b52936562411f8fd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:17 +0000
Subject: [PATCH 06/16] fix: XMMatrix += and -= stored every row into row 0

---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..fa4d8f8 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 9a31e0d84f9b0d913624776c8945724b34d886b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:17 +0000
Subject: [PATCH 07/16] fix: XMConvertVectorIntToFloat (scalar) divided by 1 >>
 exponent and read lanes as unsigned

---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..6e198cf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From 6102df86389c4507150e7d1cf44e9ef5c948dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:32 +0000
Subject: [PATCH 08/16] fix: XMMatrixDecompose replaced degenerate axes with
 the wrong canonical basis vectors

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index fa4d8f8..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From e84276edd87ac78501f091b85ec5066a5e8f325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:50 +0000
Subject: [PATCH 09/16] fix: load and store XMFLOAT2/XMFLOAT3/XMINT2/XMINT3
 without assuming 8-byte alignment

_mm_load_sd and _mm_store_sd dereference a *f64; these types are only 4-byte aligned.
---
 src/convert.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 6e198cf..dbfb4f5 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -234,7 +234,7 @@ pub fn XMLoadInt2(
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        return _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        return _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
     }
 }
 
@@ -280,7 +280,7 @@ pub fn XMLoadFloat2(
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        return _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        return _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
     }
 }
 
@@ -313,14 +313,14 @@ pub fn XMLoadInt3(
 
     #[cfg(_XM_SSE4_INTRINSICS_)]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(mem::transmute::<_, *const f32>(&pSource[2]));
         return _mm_insert_ps(xy, z, 0x20);
     }
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(mem::transmute::<_, *const f32>(&pSource[2]));
         return _mm_movelh_ps(xy, z);
     }
@@ -370,14 +370,14 @@ pub fn XMLoadFloat3(
 
     #[cfg(_XM_SSE4_INTRINSICS_)]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(&pSource.z);
         return _mm_insert_ps(xy, z, 0x20);
     }
 
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
-        let xy: __m128 = _mm_castpd_ps(_mm_load_sd(mem::transmute::<_, *const f64>(pSource)));
+        let xy: __m128 = _mm_castsi128_ps(_mm_loadl_epi64(mem::transmute::<_, *const __m128i>(pSource)));
         let z: __m128 = _mm_load_ss(&pSource.z);
         return _mm_movelh_ps(xy, z);
     }
@@ -1050,7 +1050,7 @@ pub fn XMStoreInt2(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
     }
 }
 
@@ -1092,7 +1092,7 @@ pub fn XMStoreFloat2(
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
         let pDestination: *mut XMFLOAT2 = mem::transmute(pDestination);
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
     }
 }
 
@@ -1131,7 +1131,7 @@ pub fn XMStoreInt3(
 
     #[cfg(all(_XM_SSE_INTRINSICS_))]
     unsafe {
-        _mm_store_sd(mem::transmute::<_, *mut f64>(&mut *pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(&mut *pDestination), _mm_castps_si128(V));
         let z: __m128 = XM_PERMUTE_PS!(V, _MM_SHUFFLE(2, 2, 2, 2));
         _mm_store_ss(mem::transmute::<_, *mut f32>(&mut pDestination[2]), z);
     }
@@ -1185,7 +1185,7 @@ pub fn XMStoreFloat3(
     #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_SSE4_INTRINSICS_)))]
     unsafe {
         let pDestination: *mut XMFLOAT3 = mem::transmute(pDestination);
-        _mm_store_sd(mem::transmute::<_, *mut f64>(pDestination), _mm_castps_pd(V));
+        _mm_storel_epi64(mem::transmute::<_, *mut __m128i>(pDestination), _mm_castps_si128(V));
         let z: __m128 = XM_PERMUTE_PS!(V, _MM_SHUFFLE(2, 2, 2, 2));
         _mm_store_ss(&mut (*pDestination).z, z);
     }
-- 
2.43.0


From 42db9dfdd639b6dfd1b88b40bfbcfb4e470d6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:50 +0000
Subject: [PATCH 10/16] fix: XMVectorSwizzle must not read outside the vector
 for selectors above 3

The SSE path dereferences a raw pointer at the selector; mask it as the AVX path does.
---
 src/vector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index b8093fd..8020c54 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -1580,10 +1580,10 @@ pub fn XMVectorSwizzle(
 
         let pWork = mem::transmute::<_, *mut u32>(&mut Result);
 
-        idx!(mut pWork[0]) = idx!(aPtr[E0]);
-        idx!(mut pWork[1]) = idx!(aPtr[E1]);
-        idx!(mut pWork[2]) = idx!(aPtr[E2]);
-        idx!(mut pWork[3]) = idx!(aPtr[E3]);
+        idx!(mut pWork[0]) = idx!(aPtr[E0 & 3]);
+        idx!(mut pWork[1]) = idx!(aPtr[E1 & 3]);
+        idx!(mut pWork[2]) = idx!(aPtr[E2 & 3]);
+        idx!(mut pWork[3]) = idx!(aPtr[E3 & 3]);
 
         return Result;
     }
-- 
2.43.0


From f9c2abf0f30338008d3844f36bedabd40ad249aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:50 +0000
Subject: [PATCH 11/16] fix: use FMA in the AVX2 matrix products only when FMA
 is available

_mm256_fmadd_ps was called whenever AVX2 was enabled, also without the fma target feature or with no_fma.
---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9d6c763..d1a2aa8 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -299,7 +299,7 @@ pub fn XMMatrixMultiply(
         unimplemented!()
     }
 
-    #[cfg(_XM_AVX2_INTRINSICS_)]
+    #[cfg(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))]
     unsafe {
         let mut t0: __m256 = _mm256_castps128_ps256(M1.r[0]);
         t0 = _mm256_insertf128_ps(t0, M1.r[1], 1);
@@ -346,7 +346,7 @@ pub fn XMMatrixMultiply(
         return mResult;
     }
 
-    #[cfg(all(_XM_AVX_INTRINSICS_, not(_XM_AVX2_INTRINSICS_)))]
+    #[cfg(all(_XM_AVX_INTRINSICS_, not(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))))]
     unsafe {
         let mut mResult: XMMATRIX = crate::undefined();
 
@@ -415,7 +415,7 @@ pub fn XMMatrixMultiply(
         return mResult;
     }
 
-    #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_AVX_INTRINSICS_), not(_XM_AVX2_INTRINSICS_)))]
+    #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_AVX_INTRINSICS_), not(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))))]
     unsafe {
         let mut mResult: XMMATRIX = crate::undefined();
 
@@ -599,7 +599,7 @@ pub fn XMMatrixMultiplyTranspose(
         unimplemented!()
     }
 
-    #[cfg(_XM_AVX2_INTRINSICS_)]
+    #[cfg(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))]
     unsafe {
         let mut t0: __m256 = _mm256_castps128_ps256(M1.r[0]);
         t0 = _mm256_insertf128_ps(t0, M1.r[1], 1);
@@ -656,7 +656,7 @@ pub fn XMMatrixMultiplyTranspose(
         return mResult;
     }
 
-    #[cfg(all(_XM_AVX_INTRINSICS_, not(_XM_AVX2_INTRINSICS_)))]
+    #[cfg(all(_XM_AVX_INTRINSICS_, not(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))))]
     unsafe {
         // Splat the component X,Y,Z then W
         let mut vX: XMVECTOR = _mm_broadcast_ss(&*mem::transmute::<_, *const f32>(&idx!(f32x4(M1.r[0])[0])));
@@ -743,7 +743,7 @@ pub fn XMMatrixMultiplyTranspose(
         return mResult;
     }
 
-    #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_AVX_INTRINSICS_), not(_XM_AVX2_INTRINSICS_)))]
+    #[cfg(all(_XM_SSE_INTRINSICS_, not(_XM_AVX_INTRINSICS_), not(all(_XM_AVX2_INTRINSICS_, _XM_FMA3_INTRINSICS_))))]
     unsafe {
         // Use vW to hold the original row
         let mut vW: XMVECTOR = M1.r[0];
-- 
2.43.0


From edb9b1b7c06648900efc229fc000b9afe5e7e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 12/16] fix: BoundingOrientedBox::CreateFromPoints rotated only
 the first point into the box frame

---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..1c378b7 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3273,10 +3273,10 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
+                vMin = Point;
                 vMax = vMin;
             } else {
                 vMin = XMVectorMin(vMin, Point);
-- 
2.43.0


From b13072730bc8761b7e4efcadb637754e0b41c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 13/16] fix: BoundingFrustum::IntersectsTriangle tested the
 world-space triangle against the local-space frustum

---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 1c378b7..9f1b428 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4434,8 +4434,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4457,9 +4457,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4480,9 +4480,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From db21b65665c373f6fc9fa0d905031b9093ce8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 14/16] fix: triangle/triangle intersection tested B's
 distances where A's were meant

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 9f1b428..5dd6e69 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5271,7 +5271,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From f729f29d572504446bb3828abab76578c429e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:22 +0000
Subject: [PATCH 15/16] fix: XMLoadFloat3x3 (SSE) lost the sign of negative
 zeros and quieted signalling NaNs in the second row

---
 src/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/convert.rs b/src/convert.rs
index dbfb4f5..084a6c4 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -668,7 +668,7 @@ pub fn XMLoadFloat3x3(
 
         let mut M: XMMATRIX  = crate::undefined();
         M.r[0] = _mm_movelh_ps(V1, T1);
-        M.r[1] = _mm_add_ps(T4, T5);
+        M.r[1] = _mm_or_ps(T4, T5);
         M.r[2] = _mm_shuffle_ps(V2, V3, _MM_SHUFFLE(1, 0, 3, 2));
         M.r[3] = *g_XMIdentityR3;
         return M;
-- 
2.43.0


From b75ff7d72c1b690fd5e1541e7047886118f788b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:59 +0000
Subject: [PATCH 16/16] fix: normalising a vector of infinite length gives QNaN
 without intrinsics too, as documented

---
 src/vector.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 8020c54..af158a8 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -8197,6 +8197,12 @@ pub fn XMVector2Normalize(
         let mut vResult: XMVECTOR = XMVector2Length(V);
         let mut fLength: f32 = vResult.vector4_f32[0];
 
+        // A vector of infinite length has no direction
+        if (fLength == f32::INFINITY)
+        {
+            return XMVectorSplatQNaN();
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -10180,6 +10186,12 @@ pub fn XMVector3Normalize(
         vResult = XMVector3Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // A vector of infinite length has no direction
+        if (fLength == f32::INFINITY)
+        {
+            return XMVectorSplatQNaN();
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
@@ -12321,6 +12333,12 @@ pub fn XMVector4Normalize(
         vResult = XMVector4Length(V);
         fLength = vResult.vector4_f32[0];
 
+        // A vector of infinite length has no direction
+        if (fLength == f32::INFINITY)
+        {
+            return XMVectorSplatQNaN();
+        }
+
         // Prevent divide by zero
         if (fLength > 0.0)
         {
-- 
2.43.0

