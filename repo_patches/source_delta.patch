From c8e9bf9439924848b822479e5e1a653e2e6d365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 1/8] fix: reject compositions whose sum is not a number

Composition::check compared |sum - 1| > 0.01, which is false for NaN, so a
composition with a NaN fraction was accepted by check and set_composition.
---
 src/composition.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..33297d3 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,8 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        // Negated so that a sum that is not a number is rejected too
+        if !((self.sum() - 1.0).abs() <= 1.0e-2) {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From 33c83ee7cfdf850bf29e5209712982948bcb7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 2/8] fix: GERG density with iflag > 0 reports success when the
 root is accepted

The IterationFail return stood outside the test for a possible two-phase
state, so every converged search with iflag > 0 was reported as failed.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..3e5541d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 994e351cf413ccf832cafc512cd2dfdd4a9ab703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 3/8] fix: GERG density reports PressureTooLow for zero
 pressure

As documented by DensityError and done by Detail::density; the search was
started from ln(0) and reported IterationFail.
---
 src/gerg2008.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 3e5541d..c0336f5 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4292,6 +4292,11 @@ impl Gerg2008 {
         let mut ifail: i32 = 0;
         const TOLR: f64 = 0.000_000_1;
 
+        if self.p.abs() < EPSILON {
+            self.d = 0.0;
+            return Err(DensityError::PressureTooLow);
+        }
+
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
         if self.d > -EPSILON {
-- 
2.43.0


From 0a95eee0693d5dfc9ba6a64cae9175c32a398414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 4/8] fix: DETAIL recomputes cached terms whenever composition
 or temperature changes

Changes of up to 1e-7 kept the cached terms but still moved the reference
values, so a sequence of small steps was never picked up and results
depended on the earlier calls.
---
 src/detail.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
-- 
2.43.0


From 5efe12f5944a86bb4ca53c884c175a0cc195c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 5/8] fix: GERG recomputes cached terms whenever composition or
 temperature changes

Changes of up to 1e-7 kept the cached terms but still moved the reference
values, so a sequence of small steps was never picked up and results
depended on the earlier calls.
---
 src/gerg2008.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index c0336f5..7fcbfd0 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4430,7 +4430,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4551,7 +4551,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From 4b4f0e450a61e86fe174baa26b1a45a5cea7044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 6/8] fix: Detail::default and Gerg2008::default return
 initialized models

The default values lacked the model constants, so their calculations
silently gave ideal-gas or meaningless results.
---
 src/detail.rs   | 23 +++++++++++--------
 src/gerg2008.rs | 59 +++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index f2a4252..d5281f4 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -722,6 +722,20 @@ pub struct Detail {
 
 impl Default for Detail {
     fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl Detail {
+    /// Constructs a new Detail struct
+    pub fn new() -> Self {
+        let mut item = Self::zeroed();
+        item.setup();
+        item
+    }
+
+    /// All fields zero, before the model constants are initialized.
+    fn zeroed() -> Self {
         Detail {
             dp_dd_save: 0.0,
             x: [0.0; NC],
@@ -760,15 +774,6 @@ impl Default for Detail {
             n0i: [[0.0; 7]; MAXFLDS],
         }
     }
-}
-
-impl Detail {
-    /// Constructs a new Detail struct
-    pub fn new() -> Self {
-        let mut item: Self = Default::default();
-        item.setup();
-        item
-    }
 
     /// Initialize all the constants and parameters in the DETAIL model.
     fn setup(&mut self) {
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 7fcbfd0..6c418cb 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -2350,7 +2350,6 @@ const GTIJ: [[f64; MAXFLDS + 1]; MAXFLDS + 1] = [
 /// // Compressibility factor
 /// assert!((1.175 - gerg_test.z).abs() < 1.0e-3);
 /// ```
-#[derive(Default)]
 pub struct Gerg2008 {
     /// Temperature in K
     pub t: f64,
@@ -2423,14 +2422,70 @@ pub struct Gerg2008 {
     gtij: [[f64; MAXFLDS + 1]; MAXFLDS + 1],
 }
 
+impl Default for Gerg2008 {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl Gerg2008 {
     /// Creates a new instance of the Gerg2008 struct.
     pub fn new() -> Self {
-        let mut item: Self = Default::default();
+        let mut item = Self::zeroed();
         item.setup();
         item
     }
 
+    /// All fields zero, before the model constants are initialized.
+    fn zeroed() -> Self {
+        Gerg2008 {
+            t: 0.0,
+            p: 0.0,
+            d: 0.0,
+            z: 0.0,
+            mm: 0.0,
+            dp_dd: 0.0,
+            d2p_dd2: 0.0,
+            d2p_dtd: 0.0,
+            dp_dt: 0.0,
+            u: 0.0,
+            h: 0.0,
+            s: 0.0,
+            cv: 0.0,
+            cp: 0.0,
+            w: 0.0,
+            g: 0.0,
+            jt: 0.0,
+            kappa: 0.0,
+            x: [0.0; NC_GERG + 1],
+            drold: 0.0,
+            trold: 0.0,
+            told: 0.0,
+            trold2: 0.0,
+            xold: [0.0; NC_GERG + 1],
+            a: 0.0,
+            a0: [0.0; 3],
+            ar: [[0.0; 4]; 4],
+            dpddsave: 0.0,
+            taup: [[0.0; MAXTRMP + 1]; MAXFLDS + 1],
+            taupijk: [[0.0; MAXTRMM + 1]; MAXFLDS + 1],
+            coik: [[0; MAXTRMP + 1]; MAXFLDS + 1],
+            doik: [[0; MAXTRMP + 1]; MAXFLDS + 1],
+            toik: [[0.0; MAXTRMP + 1]; MAXFLDS + 1],
+            dijk: [[0; MAXTRMM + 1]; MAXTRMM + 1],
+            tijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            cijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            eijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            gijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            nijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            n0i: [[0.0; 7 + 1]; MAXFLDS + 1],
+            bvij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            gvij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            btij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            gtij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+        }
+    }
+
     fn setup(&mut self) {
         const RS: f64 = 8.31451;
         const RSR: f64 = RS / RGERG;
-- 
2.43.0


From ac0d7d990e5547ddcca32b89b690595c931f70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 7/8] fix: do not use a NaN stored density as starting guess in
 Detail::density

A failed search for a meaningless pressure or temperature stores a NaN
density; every later search then started from it and failed too.
---
 src/detail.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index d5281f4..9163af8 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1314,10 +1314,11 @@ impl Detail {
             return Err(DensityError::PressureTooLow);
         }
         const TOLR: f64 = 0.000_000_1;
-        if self.d > -EPSILON {
-            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
-        } else {
+        // Only a negative density is an estimate, not the NaN an earlier failed calculation left behind
+        if self.d <= -EPSILON {
             self.d = self.d.abs(); // If D<0, then use as initial estimate
+        } else {
+            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
         }
         let plog = self.p.ln();
         let mut vlog = -self.d.ln();
-- 
2.43.0


From 43dbd6e3dcd23536ab8e52b897afbc13841e4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 8/8] fix: do not use a NaN stored density as starting guess in
 Gerg2008::density

A failed search for a meaningless pressure or temperature stores a NaN
density; later searches then started from it, restarted from the liquid
side and could report a liquid density for a gas.
---
 src/gerg2008.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 6c418cb..a18a11d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4354,13 +4354,14 @@ impl Gerg2008 {
 
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
-        if self.d > -EPSILON {
+        // Only a negative density is an estimate, not the NaN an earlier failed calculation left behind
+        if self.d <= -EPSILON {
+            self.d = self.d.abs();
+        } else {
             self.d = self.p / RGERG / self.t;
             if iflag == 2 {
                 self.d = dcx * 3.0;
             }
-        } else {
-            self.d = self.d.abs();
         }
 
         let plog = self.p.ln();
-- 
2.43.0

