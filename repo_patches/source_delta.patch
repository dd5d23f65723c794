From 8c5af14e94d18468f85feb3fe2cde1abd97c4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 01/26] fix: beta: place the median of the symmetric case
 inside the support

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..895451f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            0.5 * (self.a + self.b)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From ccff5c70bcd8da2169c57bd958c78f9363c72ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 02/26] fix: beta, pert: make the density finite at the ends of
 the support for unit shapes

---
 src/distribution/beta.rs | 18 ++++++++++++++++--
 src/distribution/pert.rs |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 895451f..44dbce1 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,7 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            (ln_kernel(self.alpha, self.beta, x) - self.ln_beta).exp() / scale
         }
     }
 }
@@ -187,6 +186,21 @@ impl distribution::Variance for Beta {
     }
 }
 
+// ln(x^(alpha - 1) * (1 - x)^(beta - 1)) with 0 * ln(0) being 0
+pub fn ln_kernel(alpha: f64, beta: f64, x: f64) -> f64 {
+    let left = if alpha == 1.0 {
+        0.0
+    } else {
+        (alpha - 1.0) * x.ln()
+    };
+    let right = if beta == 1.0 {
+        0.0
+    } else {
+        (beta - 1.0) * (-x).ln_1p()
+    };
+    left + right
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..35d6ae8 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -70,13 +70,13 @@ impl Pert {
 
 impl distribution::Continuous for Pert {
     fn density(&self, x: f64) -> f64 {
+        use distribution::beta;
         if x < self.a || x > self.c {
             0.0
         } else {
             let scale = self.c - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            (beta::ln_kernel(self.alpha, self.beta, x) - self.ln_beta).exp() / scale
         }
     }
 }
-- 
2.43.0


From ea2bc61bccc8bf88ee9cbadc86dce73cf8186c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 03/26] fix: beta: draw well-defined samples when the
 parameters are small

---
 src/distribution/beta.rs  |  7 ++++---
 src/distribution/gamma.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 44dbce1..b494b05 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -164,9 +164,10 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        self.a + (self.b - self.a) * x / (x + y)
+        // The samples themselves might underflow when the parameters are small.
+        let x = gamma::sample_ln(self.alpha, source);
+        let y = gamma::sample_ln(self.beta, source);
+        self.a + (self.b - self.a) / (1.0 + (y - x).exp())
     }
 }
 
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..c9f1977 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -166,6 +166,20 @@ pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     }
 }
 
+/// Draw the logarithm of a sample from the standard Gamma distribution.
+pub fn sample_ln<S: Source>(k: f64, source: &mut S) -> f64 {
+    if k < 1.0 {
+        let x = sample(1.0 + k, source).ln();
+        loop {
+            let u = source.read::<f64>();
+            if u > 0.0 {
+                return x + u.ln() / k;
+            }
+        }
+    }
+    sample(k, source).ln()
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
-- 
2.43.0


From ae8de00f62f9a7531203664c8b86d2aa5d4aa3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 04/26] fix: binomial: assign no mass outside the support

---
 src/distribution/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..df13405 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -95,6 +95,10 @@ impl distribution::Discrete for Binomial {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
+        if x > self.n {
+            return 0.0;
+        }
+
         let n = self.n as f64;
         if x == 0 {
             (n * self.q.ln()).exp()
-- 
2.43.0


From f655adb7b2853dce9642c3e3fec53fa1621b98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 05/26] fix: binomial: avoid truncating the number of trials in
 the distribution function

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index df13405..a29a5bf 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -130,7 +130,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From b361f48b47f50834eff743c44ceda36e138b5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 06/26] fix: binomial: skip vanishing mass when computing the
 entropy

---
 src/distribution/binomial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a29a5bf..cf78601 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -149,7 +149,14 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1)).fold(0.0, |sum, i| {
+                let mass = self.mass(i);
+                if mass > 0.0 {
+                    sum + mass * mass.ln()
+                } else {
+                    sum
+                }
+            })
         }
     }
 }
-- 
2.43.0


From c608cf350ca7a1236707fa02f513d249cd2055ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 07/26] fix: categorical: skip impossible categories when
 computing the entropy

---
 src/distribution/categorical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From 5898987f130d4b42803c205ca00648a46ff3945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 08/26] fix: categorical: keep the cumulative sums within
 bounds and off impossible categories

---
 src/distribution/categorical.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..9a3585a 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -26,10 +26,13 @@ impl Categorical {
 
         let k = p.len();
         let mut cumsum = p.to_vec();
-        for i in 1..(k - 1) {
-            cumsum[i] += cumsum[i - 1];
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap_or(k - 1);
+        for i in 1..last {
+            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);
+        }
+        for sum in &mut cumsum[last..] {
+            *sum = 1.0;
         }
-        cumsum[k - 1] = 1.0;
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From babe088dc7935521caf644749ca9a358e809c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 09/26] fix: gamma: compute the density on the logarithmic
 scale to avoid overflow

---
 src/distribution/gamma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index c9f1977..651f0bb 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_norm: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_norm: k.ln_gamma().0 + k * theta.ln(),
         }
     }
 
@@ -47,7 +47,7 @@ impl distribution::Continuous for Gamma {
         if x <= 0.0 {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From 357c5e8f44e1304d50107fd7a3774a00ba13ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 10/26] fix: logistic: avoid overflow of the density in the
 left tail

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..d15b2b1 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,7 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 19f79cddb18c962681fe5525f5ebf732897e0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 11/26] fix: logistic: avoid cancellation in the inverse close
 to one

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index d15b2b1..09a8748 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -70,7 +70,7 @@ impl distribution::Inverse for Logistic {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.mu - self.s * (1.0 / p - 1.0).ln()
+        self.mu - self.s * ((1.0 - p) / p).ln()
     }
 }
 
-- 
2.43.0


From 6aef5880d552fd50e32ad93c0a3a1f39c6a0f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 12/26] fix: lognormal: avoid overflow of the entropy

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..17b0a00 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -75,7 +75,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        self.mu + 0.5 + (self.sigma * (2.0 * PI).sqrt()).ln()
     }
 }
 
-- 
2.43.0


From 3869136eac4cccbea74416245e3adb6eda5cd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 13/26] fix: lognormal: keep the density well defined next to
 zero

---
 src/distribution/lognormal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 17b0a00..ee3f4df 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -54,7 +54,8 @@ impl distribution::Continuous for Lognormal {
             0.0
         } else {
             let &Lognormal { mu, sigma, .. } = self;
-            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (x * sigma * (2.0 * PI).sqrt())
+            let ln = x.ln();
+            (-(ln - mu).powi(2) / (2.0 * sigma * sigma) - ln).exp() / (sigma * (2.0 * PI).sqrt())
         }
     }
 }
-- 
2.43.0


From 1c0e25d450f838803a4ce1a4bb96cd26b9675ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 14/26] fix: lognormal: avoid cancellation in the moments for
 small sigma

---
 src/distribution/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index ee3f4df..4adbaf8 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -90,7 +90,7 @@ impl distribution::Kurtosis for Lognormal {
     #[inline]
     fn kurtosis(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (4.0 * s2).exp() + 2.0 * (3.0 * s2).exp() + 3.0 * (2.0 * s2).exp() - 6.0
+        (4.0 * s2).exp_m1() + 2.0 * (3.0 * s2).exp_m1() + 3.0 * (2.0 * s2).exp_m1()
     }
 }
 
@@ -128,8 +128,8 @@ impl distribution::Sample for Lognormal {
 impl distribution::Skewness for Lognormal {
     #[inline]
     fn skewness(&self) -> f64 {
-        let es2 = (self.sigma * self.sigma).exp();
-        (es2 - 1.0).sqrt() * (2.0 + es2)
+        let s2 = self.sigma * self.sigma;
+        s2.exp_m1().sqrt() * (2.0 + s2.exp())
     }
 }
 
@@ -137,7 +137,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        s2.exp_m1() * (2.0 * self.mu + s2).exp()
     }
 }
 
-- 
2.43.0


From 5e8fce05d25acdc2b38349ee3f0fc67db7ee26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 15/26] fix: triangular: avoid cancellation in the moments far
 from the origin

---
 src/distribution/triangular.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..0eb0e82 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,9 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        let (ab, ac, cb) = (b - a, c - a, b - c);
+        let npart = (cb - ac) * (ab + ac) * (ab + cb);
+        let dpart = (ab * ab + ac * ac + cb * cb) / 2.0;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +166,7 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        ((b - a).powi(2) + (c - a).powi(2) + (b - c).powi(2)) / 36.0
     }
 }
 
-- 
2.43.0


From 2fc962b0b0bd358d75a0730d031cce9ffcc36896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 16/26] fix: pert: avoid cancellation in the shape parameters

---
 src/distribution/pert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 35d6ae8..b0b00fc 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -24,8 +24,8 @@ impl Pert {
     pub fn new(a: f64, b: f64, c: f64) -> Self {
         use special::Beta as SpecialBeta;
         should!(a < b && b < c);
-        let alpha = (4.0 * b + c - 5.0 * a) / (c - a);
-        let beta = (5.0 * c - a - 4.0 * b) / (c - a);
+        let alpha = 1.0 + 4.0 * (b - a) / (c - a);
+        let beta = 1.0 + 4.0 * (c - b) / (c - a);
         Pert {
             a,
             b,
-- 
2.43.0


From d7fe09e6d969bbfdfd31d77e0c03a31482466f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 17/26] fix: binomial: correct the terms of the normal
 asymptotic expansion

---
 src/distribution/binomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index cf78601..551bf60 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -336,15 +336,15 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
     sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em1 * w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
         w * (433.0 * p4 - 866.0 * p3 - 921.0 * p2 + 1354.0 * p - 671.0) / 38880.0
     ) +
     sd_em4 * (
-        w6 * (2.0 * p - 1.0) * (p2 - p + 1.0) * (p2 - p + 19.0) / 34020.0 +
+        -w6 * (2.0 * p - 1.0) * (p2 - p + 1.0) * (p2 - p + 19.0) / 34020.0 +
         w4 * (2.0 * p - 1.0) * (9.0 * p4 - 18.0 * p3 - 35.0 * p2 + 44.0 * p - 25.0) / 15120.0 +
         w2 * (2.0 * p - 1.0) * (
                 923.0 * p4 - 1846.0 * p3 + 5271.0 * p2 - 4348.0 * p + 5189.0
-- 
2.43.0


From 77c9d7f27e9d0854367926bfb168892a48a683bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 18/26] fix: binomial: do not round the mean down to obtain the
 median

---
 src/distribution/binomial.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 551bf60..f247c06 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -262,9 +262,6 @@ impl distribution::Median for Binomial {
             || (self.np.round() - self.np).abs() <= self.p.min(self.q)
         {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
         } else {
             self.inverse(0.5) as f64
         }
-- 
2.43.0


From 4f86ac4d0ba050a3f19d1c436c31391b6776902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:46 +0000
Subject: [PATCH 19/26] fix: binomial: prevent the summation of the inverse
 from running past the support

---
 src/distribution/binomial.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index f247c06..2fc0322 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -181,11 +181,12 @@ impl distribution::Inverse for Binomial {
         macro_rules! sum_bottom_up(
             ($prod_term: expr) => ({
                 let mut k = 1;
-                let mut a = self.q.powi(self.n as i32);
-                let mut sum = a - p;
-                while sum < 0.0 {
-                    a *= $prod_term(k);
-                    sum += a;
+                // The first terms might underflow.
+                let mut ln_a = self.n as f64 * self.q.ln();
+                let mut sum = ln_a.exp() - p;
+                while sum < 0.0 && k <= self.n {
+                    ln_a += $prod_term(k).ln();
+                    sum += ln_a.exp();
                     k += 1;
                 }
                 k - 1
@@ -194,14 +195,15 @@ impl distribution::Inverse for Binomial {
         macro_rules! sum_top_down(
             ($prod_term: expr) => ({
                 let mut k = 1;
-                let mut a = self.p.powi(self.n as i32);
-                let mut sum = (1.0 - p) - a;
-                while sum >= 0.0 {
-                    a *= $prod_term(k);
-                    sum -= a;
+                // The first terms might underflow.
+                let mut ln_a = self.n as f64 * self.p.ln();
+                let mut sum = (1.0 - p) - ln_a.exp();
+                while sum >= 0.0 && k <= self.n {
+                    ln_a += $prod_term(k).ln();
+                    sum -= ln_a.exp();
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
@@ -210,8 +212,8 @@ impl distribution::Inverse for Binomial {
         } else if p == 1.0 {
             self.n
         } else if self.n < 1000 {
-            // Find if top-down or bottom-up summation is better.
-            if p <= self.distribution((self.n / 2) as f64) {
+            // Sum up the smaller tail so that the target is not lost to rounding.
+            if p <= 0.5 {
                 sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
-- 
2.43.0


From 71496424585131c92de16005b817d8f6c17b0b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 20/26] fix: binomial: do not take the rounded mean for the
 median when p is far from one half

---
 src/distribution/binomial.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 2fc0322..d52b091 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -254,18 +254,16 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
-        use distribution::Inverse;
+        use distribution::Distribution;
 
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
+        } else if self.distribution(self.np.floor()) >= 0.5 {
+            self.np.floor()
         } else {
-            self.inverse(0.5) as f64
+            self.np.floor() + 1.0
         }
     }
 }
-- 
2.43.0


From 1b9db25356b34d937db2e1796616741c26d361fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:45 +0000
Subject: [PATCH 21/26] fix: pert: avoid cancellation in the variance

---
 src/distribution/pert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index b0b00fc..a3f6266 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -169,8 +169,10 @@ impl distribution::Skewness for Pert {
 
 impl distribution::Variance for Pert {
     fn variance(&self) -> f64 {
-        use distribution::Mean;
-        (self.mean() - self.a) * (self.c - self.mean()) / 7.0
+        let range = self.c - self.a;
+        let below = (4.0 * (self.b - self.a) + range) / 6.0;
+        let above = (4.0 * (self.c - self.b) + range) / 6.0;
+        below * above / 7.0
     }
 }
 
-- 
2.43.0


From c72d1c6e58832f1885efecbf4ff85bd40c7f4fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:35 +0000
Subject: [PATCH 22/26] fix: binomial: keep the iterations of the inverse
 within a shrinking bracket

---
 src/distribution/binomial.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index d52b091..6c6355c 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -226,12 +226,27 @@ impl distribution::Inverse for Binomial {
             const ALPHA: f64 = 0.999;
             let mut q = self.modes()[0] as f64;
             let mut alpha = 1.0;
+            let (mut lower, mut upper) = (-1.0, self.n as f64);
             loop {
-                let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
+                let value = self.distribution(q);
+                let delta = alpha * (p - value) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
                     return q as usize;
                 }
+                // Fall back to bisection when a step leaves the bracket.
+                if value < p {
+                    lower = q.floor();
+                } else {
+                    upper = q.floor();
+                }
+                let middle = (0.5 * (lower + upper)).floor();
+                if middle <= lower || middle >= upper {
+                    return upper as usize;
+                }
                 q += delta;
+                if !(q > lower && q < upper) {
+                    q = middle;
+                }
                 alpha *= ALPHA;
             }
         }
-- 
2.43.0


From 9651b9fdc35d2a39a2d6592d538fbe3857dddf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:11 +0000
Subject: [PATCH 23/26] fix: binomial: avoid overflow for the largest number of
 trials in the modes and the entropy

---
 src/distribution/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 6c6355c..6232b7d 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -149,7 +149,7 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| {
+            -(0..=self.n).fold(0.0, |sum, i| {
                 let mass = self.mass(i);
                 if mass > 0.0 {
                     sum + mass * mass.ln()
@@ -285,7 +285,7 @@ impl distribution::Median for Binomial {
 
 impl distribution::Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
-        let r = self.p * (self.n + 1) as f64;
+        let r = self.p * (self.n as f64 + 1.0);
         if r == 0.0 {
             vec![0]
         } else if self.p == 1.0 {
-- 
2.43.0


From 87c65f668932adf3f4ce43ac1ac9dbec2438c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 24/26] fix: binomial: keep tiny failure probabilities in the
 mass

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 6232b7d..0ff1837 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -91,7 +91,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From 43d556dc98bbb16485601ff9288ab2901c511787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 25/26] fix: bernoulli: avoid cancellation in the entropy for
 extreme probabilities

---
 src/distribution/bernoulli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/bernoulli.rs b/src/distribution/bernoulli.rs
index d926db0..8515c6e 100644
--- a/src/distribution/bernoulli.rs
+++ b/src/distribution/bernoulli.rs
@@ -84,7 +84,11 @@ impl distribution::Distribution for Bernoulli {
 
 impl distribution::Entropy for Bernoulli {
     fn entropy(&self) -> f64 {
-        -self.q * self.q.ln() - self.p * self.p.ln()
+        if self.p < self.q {
+            -self.q * (-self.p).ln_1p() - self.p * self.p.ln()
+        } else {
+            -self.q * self.q.ln() - self.p * (-self.q).ln_1p()
+        }
     }
 }
 
-- 
2.43.0


From f611b2df61b0fd2641e2c26601bac90738f5de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 26/26] fix: gamma: let the density vanish at infinity

---
 src/distribution/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 651f0bb..c95de77 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -44,7 +44,7 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x <= 0.0 || x == core::f64::INFINITY {
             0.0
         } else {
             ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
-- 
2.43.0

