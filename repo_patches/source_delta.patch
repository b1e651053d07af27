From 65b64bbf6fc86ddf1a53403909054e82b5db6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:46 +0000
Subject: [PATCH 01/14] fix: partial_product overflowed computing the factor
 after the last one

---
 sci-rs/src/special/factorial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..ff0858c 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -282,6 +282,10 @@ where
 
     while start <= stop {
         result = result * start;
+        if stop - start < step {
+            // The next factor would be past `stop`, and may not be representable.
+            break;
+        }
         start = start + step;
     }
     result
-- 
2.43.0


From 40aeaec55caab47384877b6875e267cc38edd3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:46 +0000
Subject: [PATCH 02/14] fix: perm overflowed at the type maximum and for n
 beyond usize

---
 sci-rs/src/special/combinatorics.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 68cac5c..22dd4bc 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -153,10 +153,9 @@ where
         return Int::zero();
     }
 
-    let start = (n - k + Int::one()).to_usize().unwrap();
-    let end = (n + Int::one()).to_usize().unwrap();
-    (start..end).fold(Int::one(), |result, val| {
-        result * Int::from_usize(val).unwrap()
+    let n_terms = k.to_usize().unwrap();
+    (0..n_terms).fold(Int::one(), |result, i| {
+        result * (n - Int::from_usize(i).unwrap())
     })
 }
 
-- 
2.43.0


From 3cacc7d116ffcf5a808d26ed0746f7b93c84053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 03/14] fix: comb overflowed on the way to representable
 binomials

---
 sci-rs/src/special/combinatorics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 22dd4bc..8cca4ea 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -128,10 +128,12 @@ where
     if k > n || n < Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    let m = n + Int::one();
     let n_terms = (min(k, n - k) + Int::one()).to_usize().unwrap();
     (1..n_terms).fold(Int::one(), |result, i| {
-        result * (m - Int::from_usize(i).unwrap()) / Int::from_usize(i).unwrap()
+        // `result * num / den` is exact, but `result * num` may not be representable.
+        let den = Int::from_usize(i).unwrap();
+        let num = n - (den - Int::one());
+        result / den * num + result % den * num / den
     })
 }
 
-- 
2.43.0


From 7fcb438da15a95229719b46d6e25e772748adc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 04/14] fix: comb_rep overflowed for arguments whose result is
 representable

---
 sci-rs/src/special/combinatorics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 8cca4ea..3822068 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -141,10 +141,10 @@ fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
 where
     Int: PrimInt + FromPrimitive,
 {
-    if n + k == Int::zero() {
+    if n <= Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    primint_comb(n + k - Int::one(), k)
+    primint_comb(n - Int::one() + k, k)
 }
 
 fn primint_perm<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From dabc8a3e59f0af74c019857b41e20d15e47f7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 05/14] fix: chbevl folded the highest-order coefficient twice

---
 sci-rs/src/special/xsf/chbevl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/special/xsf/chbevl.rs b/sci-rs/src/special/xsf/chbevl.rs
index 9dc7b4f..d7cdfea 100644
--- a/sci-rs/src/special/xsf/chbevl.rs
+++ b/sci-rs/src/special/xsf/chbevl.rs
@@ -14,7 +14,7 @@ where
         return T::zero();
     }
 
-    let (b0, _, b2): (T, T, T) = coef.iter().fold(
+    let (b0, _, b2): (T, T, T) = coef.iter().skip(1).fold(
         (
             // Safety:: 0 len is checked above.
             *unsafe { coef.first().unwrap_unchecked() },
-- 
2.43.0


From cb95f3d4e88fbf043cdc548d2ea149ae51a47710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 06/14] fix: autocorr_fast32 dropped the samples after the last
 full tile

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 0a839e87246b0b0724e2eddebda90d904ea599c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 07/14] fix: Chebyshev II designs required rp instead of rs

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From 00d597d979139990b629b83f1413495ab5292927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 08/14] fix: companion_dyn wrote out of bounds for sequences
 longer than m

---
 sci-rs/src/linalg/companion.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..6f5960b 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -16,9 +16,11 @@ where
     I: Iterator<Item = B>,
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
+    assert!(m >= 2, "A companion matrix needs at least 2 coefficients");
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
+        .take(m - 1)
         .enumerate()
         .map(|(i, ai)| ((0, i), -*(ai.borrow()) / a0))
         .chain((0..(m - 2)).map(|i| (((i + 1), i), T::one())));
-- 
2.43.0


From cf70f155f7654e0d18d0dfae12ca6a49b0cc225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 09/14] fix: valid-mode convolution was empty when the first
 input is shorter

---
 sci-rs/src/signal/convolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..8982d5a 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -77,7 +77,7 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
             if n1 >= n2 {
                 full_convolution[(n2 - 1)..(n1)].to_vec()
             } else {
-                Vec::new()
+                full_convolution[(n1 - 1)..(n2)].to_vec()
             }
         }
         ConvolveMode::Same => {
-- 
2.43.0


From dd53d1ca79ab3e6f1a43185c41fabd3ab97f194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:38 +0000
Subject: [PATCH 10/14] fix: analog second-order sections were misaligned and
 failed for odd orders

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..a508866 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,7 +169,7 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let sos_si = if !matches!(pairing, ZpkPairing::Minimal) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(
@@ -287,7 +287,10 @@ fn single_zpksos_dyn<F>(z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F) -> Sos<F>
 where
     F: Float + RealField,
 {
-    let ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
+    let mut ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
+    // Sections are polynomials of degree 2: the last coefficient is the constant
+    ba.b.rotate_right(2 - z.len());
+    ba.a.rotate_right(2 - p.len());
     if ba.b.len() != 3 || ba.a.len() != 3 {
         panic!(
             "SOS must have 3 coefficients has {} and {}",
-- 
2.43.0


From 6d9c3054815dcbdb5045d07f59122e716d8280e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:05 +0000
Subject: [PATCH 11/14] fix: zpk2sos panicked when a single real zero was left
 among complex ones

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index a508866..87155f9 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -221,7 +221,7 @@ where
                 if !z1.im.is_zero() {
                     let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one());
                     sos.push(sos_si);
-                } else if !z.is_empty() {
+                } else if z.iter().any(|zi| zi.im.is_zero()) {
                     let z2_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                     let z2 = z.remove(z2_idx);
                     assert!(z2.im.is_zero());
-- 
2.43.0


From 9c8da6526322d74799276179373a072f187dba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:02 +0000
Subject: [PATCH 12/14] fix: cplxreal_dyn paired the wrong conjugates when real
 parts differ by rounding

---
 sci-rs/src/signal/filter/design/cplx.rs | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..5c2d149 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -126,26 +126,15 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
+        let by_imag = |a: &Complex<F>, b: &Complex<F>| -> Ordering {
+            match Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap() {
                 Ordering::Less => Ordering::Less,
                 Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
+                Ordering::Equal => a.re.partial_cmp(&b.re).unwrap(),
             }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        };
+        zp[start..stop].sort_unstable_by(by_imag);
+        zn[start..stop].sort_unstable_by(by_imag);
     }
 
     // Check that negatives match positives
-- 
2.43.0


From 7d7457cd555e1a1127dffe5d62ea79a9a71b78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:40 +0000
Subject: [PATCH 13/14] fix: cplxreal_dyn kept the imaginary part of
 numerically real values

---
 sci-rs/src/signal/filter/design/cplx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index 5c2d149..755e3c1 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -73,6 +73,10 @@ where
     let (zr, zc): (Vec<_>, Vec<_>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    let zr: Vec<_> = zr
+        .into_iter()
+        .map(|zi: Complex<F>| Complex::new(zi.re, F::zero()))
+        .collect();
 
     if zr.len() == z.len() {
         // Input is entirely real
-- 
2.43.0


From 1e845883e0ba51b1cb925a1d7cb065eeb141c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 14/14] fix: cheby1_dyn and cheby2_dyn default to a low-pass
 filter as documented

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..8f2162b 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0

