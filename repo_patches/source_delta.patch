From decbac226b9d197feef9c171052b66164bd7dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 1/9] fix: generated C header did not compile

CompositionError and DensityError both declared an unprefixed enumerator
`Ok`, which C and C++ reject as a redeclaration. Prefix the enumerators with
the enum name.
---
 src/composition.rs | 2 ++
 src/lib.rs         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..27ea915 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -175,6 +175,8 @@ impl Composition {
 }
 
 /// Error conditions for composition
+///
+/// cbindgen:prefix-with-name
 #[repr(C)]
 #[derive(Debug, PartialEq, Eq)]
 pub enum CompositionError {
diff --git a/src/lib.rs b/src/lib.rs
index 468bdef..cc7db3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -70,6 +70,8 @@ pub mod detail;
 pub mod gerg2008;
 
 /// Error conditions for density calculation
+///
+/// cbindgen:prefix-with-name
 #[repr(C)]
 #[derive(Debug, PartialEq, Eq)]
 pub enum DensityError {
-- 
2.43.0


From daecb4d918b3810cc326137cf0759e841ca4a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 2/9] fix: GERG density(iflag > 0) reported failure for every
 converged state

The error return stood outside the block that detects a possible two-phase
state, so a converged single-phase density was returned with IterationFail.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..3e5541d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 01356c113a2b3f2ea2f48ac017c5fa3b1021a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 3/9] fix: cached composition and temperature terms could go
 stale

The caches were kept when an input moved by less than 1e-7 since the previous
call, while the remembered input was still updated: a slow drift was never
recalculated, and after a NaN input the comparison was false for the next
(valid) input as well. Recalculate whenever an input differs.
---
 src/detail.rs   | 4 ++--
 src/gerg2008.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 3e5541d..bc3f0b7 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4425,7 +4425,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4546,7 +4546,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From 9e87ac134728718b7edfe12af3384a9e5c048def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 4/9] fix: Composition::check accepted a composition with a NaN
 component

---
 src/composition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index 27ea915..683f273 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,9 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        // A NaN sum is not within the limit either
+        let in_range = (self.sum() - 1.0).abs() <= 1.0e-2;
+        if !in_range {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From 943ca0f4ded1c0778d6de8817d86b38e82988fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 5/9] fix: GERG density did not report PressureTooLow at zero
 pressure

DETAIL does, as the DensityError documentation says; GERG ran through all its
restarts and reported IterationFail.
---
 src/gerg2008.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index bc3f0b7..7fcbfd0 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4292,6 +4292,11 @@ impl Gerg2008 {
         let mut ifail: i32 = 0;
         const TOLR: f64 = 0.000_000_1;
 
+        if self.p.abs() < EPSILON {
+            self.d = 0.0;
+            return Err(DensityError::PressureTooLow);
+        }
+
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
         if self.d > -EPSILON {
-- 
2.43.0


From 97cbf12937d734290bdce7ad32f91f2dffc0757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 6/9] fix: a NaN density left by a failed call made the next
 valid density() fail

NaN is not a negative initial estimate: start from the ideal gas estimate.
---
 src/detail.rs   | 6 +++---
 src/gerg2008.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index f2a4252..53f4c1f 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1309,10 +1309,10 @@ impl Detail {
             return Err(DensityError::PressureTooLow);
         }
         const TOLR: f64 = 0.000_000_1;
-        if self.d > -EPSILON {
-            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
-        } else {
+        if self.d < -EPSILON {
             self.d = self.d.abs(); // If D<0, then use as initial estimate
+        } else {
+            self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
         }
         let plog = self.p.ln();
         let mut vlog = -self.d.ln();
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 7fcbfd0..0748cec 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4299,13 +4299,13 @@ impl Gerg2008 {
 
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
-        if self.d > -EPSILON {
+        if self.d < -EPSILON {
+            self.d = self.d.abs();
+        } else {
             self.d = self.p / RGERG / self.t;
             if iflag == 2 {
                 self.d = dcx * 3.0;
             }
-        } else {
-            self.d = self.d.abs();
         }
 
         let plog = self.p.ln();
-- 
2.43.0


From 0b51322476a02fb1478e6d601876f27edbfa0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 7/9] fix: Composition::normalize returned Ok with NaN or
 infinite fractions

when the sum had overflowed, or was too small for its inverse to be finite.
---
 src/composition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/composition.rs b/src/composition.rs
index 683f273..a96eb4b 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -123,6 +123,10 @@ impl Composition {
         let sum = self.sum();
         if sum > 0.0 {
             let factor = 1.0 / sum;
+            // The sum has overflowed, or is too small for its inverse to be represented
+            if factor == 0.0 || factor.is_infinite() {
+                return Err(CompositionError::BadSum);
+            }
 
             self.methane *= factor;
             self.nitrogen *= factor;
-- 
2.43.0


From 3cdfb352ee92c713eb671aa11d538506ba01a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 8/9] fix: density() could report success at a pressure far
 from the requested one

The convergence test only looked at the Newton step in log(P). Where the
pressure is close to zero on a steep (liquid-like) branch that step is tiny
although the pressure is off by orders of magnitude.
---
 src/detail.rs   | 5 ++++-
 src/gerg2008.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 53f4c1f..52f482d 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1333,7 +1333,10 @@ impl Detail {
                 dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]
                 vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog -= vdiff;
-                if vdiff.abs() < TOLR {
+                // The step in log(P) is also small where P is close to zero but dP/d[log(v)] is not,
+                // so the pressure has to match as well.
+                let pdiff = (p2 - self.p) / dpdlv;
+                if vdiff.abs() < TOLR && pdiff.abs() < TOLR {
                     self.d = (-vlog).exp();
                     return Ok(()); // Iteration converged
                 }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 0748cec..2964f46 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4350,7 +4350,10 @@ impl Gerg2008 {
                 let dpdlv = -self.d * self.dpddsave; // d(p)/d[log(v)]
                 let vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog += -vdiff;
-                if vdiff.abs() < TOLR {
+                // The step in log(P) is also small where P is close to zero but dP/d[log(v)] is not,
+                // so the pressure has to match as well.
+                let pdiff = (p2 - self.p) / dpdlv;
+                if vdiff.abs() < TOLR && pdiff.abs() < TOLR {
                     // Check to see if state is possibly 2-phase, and if so restart
                     if self.dpddsave < 0.0 {
                         ifail = 1;
-- 
2.43.0


From 055c81f1539a1949f31c1de8c3372ffa1a395091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 9/9] fix: calculators made by Default had no coefficients

Detail::default() and Gerg2008::default() returned calculators whose tables
were all zero: pressures of an ideal gas or NaN, without any error.
---
 src/detail.rs   | 10 ++++-----
 src/gerg2008.rs | 58 +++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 52f482d..e783bf6 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -722,7 +722,7 @@ pub struct Detail {
 
 impl Default for Detail {
     fn default() -> Self {
-        Detail {
+        let mut item = Detail {
             dp_dd_save: 0.0,
             x: [0.0; NC],
             t: 0.0,
@@ -758,16 +758,16 @@ impl Default for Detail {
             csn: [0.0; NTERMS],
             tun: [0.0; NTERMS],
             n0i: [[0.0; 7]; MAXFLDS],
-        }
+        };
+        item.setup();
+        item
     }
 }
 
 impl Detail {
     /// Constructs a new Detail struct
     pub fn new() -> Self {
-        let mut item: Self = Default::default();
-        item.setup();
-        item
+        Default::default()
     }
 
     /// Initialize all the constants and parameters in the DETAIL model.
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 2964f46..c678640 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -2350,7 +2350,6 @@ const GTIJ: [[f64; MAXFLDS + 1]; MAXFLDS + 1] = [
 /// // Compressibility factor
 /// assert!((1.175 - gerg_test.z).abs() < 1.0e-3);
 /// ```
-#[derive(Default)]
 pub struct Gerg2008 {
     /// Temperature in K
     pub t: f64,
@@ -2423,12 +2422,63 @@ pub struct Gerg2008 {
     gtij: [[f64; MAXFLDS + 1]; MAXFLDS + 1],
 }
 
+impl Default for Gerg2008 {
+    fn default() -> Self {
+        let mut item = Gerg2008 {
+            t: 0.0,
+            p: 0.0,
+            d: 0.0,
+            z: 0.0,
+            mm: 0.0,
+            dp_dd: 0.0,
+            d2p_dd2: 0.0,
+            d2p_dtd: 0.0,
+            dp_dt: 0.0,
+            u: 0.0,
+            h: 0.0,
+            s: 0.0,
+            cv: 0.0,
+            cp: 0.0,
+            w: 0.0,
+            g: 0.0,
+            jt: 0.0,
+            kappa: 0.0,
+            x: [0.0; NC_GERG + 1],
+            drold: 0.0,
+            trold: 0.0,
+            told: 0.0,
+            trold2: 0.0,
+            xold: [0.0; NC_GERG + 1],
+            a: 0.0,
+            a0: [0.0; 3],
+            ar: [[0.0; 4]; 4],
+            dpddsave: 0.0,
+            taup: [[0.0; MAXTRMP + 1]; MAXFLDS + 1],
+            taupijk: [[0.0; MAXTRMM + 1]; MAXFLDS + 1],
+            coik: [[0; MAXTRMP + 1]; MAXFLDS + 1],
+            doik: [[0; MAXTRMP + 1]; MAXFLDS + 1],
+            toik: [[0.0; MAXTRMP + 1]; MAXFLDS + 1],
+            dijk: [[0; MAXTRMM + 1]; MAXTRMM + 1],
+            tijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            cijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            eijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            gijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            nijk: [[0.0; MAXTRMM + 1]; MAXMDL + 1],
+            n0i: [[0.0; 7 + 1]; MAXFLDS + 1],
+            bvij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            gvij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            btij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+            gtij: [[0.0; MAXFLDS + 1]; MAXFLDS + 1],
+        };
+        item.setup();
+        item
+    }
+}
+
 impl Gerg2008 {
     /// Creates a new instance of the Gerg2008 struct.
     pub fn new() -> Self {
-        let mut item: Self = Default::default();
-        item.setup();
-        item
+        Default::default()
     }
 
     fn setup(&mut self) {
-- 
2.43.0

