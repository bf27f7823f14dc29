From ac869e003273c827dcad9c0b6fd85d55f2b8f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 1/4] fix: gate the std::error::Error impl so the crate builds
 without std

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From 4288b462cb2a1a4ae3c507c3f1e5cb0adc74fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 2/4] fix: use the published linear counting threshold (20) for
 precision 5

The HyperLogLog++ appendix gives the thresholds 10, 20, 40, 80, 220, ... for
precisions 4, 5, 6, 7, 8, ...; precision 5 used precision 4's value.
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..5190cde 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -421,7 +421,7 @@ where
     fn threshold(precision: u8) -> f64 {
         match precision {
             4 => 10.0,
-            5 => 10.0,
+            5 => 20.0,
             6 => 40.0,
             7 => 80.0,
             8 => 220.0,
-- 
2.43.0


From fa9ec71fa40e887864f375029720e72905e8c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 3/4] fix: linear count the sparse representation over all 2^25
 slots

Sparse codes carry a 25-bit index, so linear counting has to be done over 2^25
slots; with 2^24 the estimate is biased upwards (e.g. by 55, several standard
errors, for 60000 values at precision 18).
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 5190cde..4391e20 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0


From 0004d236c44ab3b49ece3f0157d3e26af1328b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 4/4] fix: do not return NaN when the raw estimate exceeds 2^32

Once the registers saturate the raw estimate can be larger than 2^32 and the
large range correction took the logarithm of a negative number.
---
 src/hyperloglog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..c892b00 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -190,7 +190,7 @@ where
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
             // Apply large range correction.
-            raw = -1.0 * two32 * ln(1.0 - raw / two32);
+            raw = -1.0 * two32 * ln(1.0 - raw.min(two32) / two32);
         }
 
         raw
-- 
2.43.0

