From 09e9f2a5a4b7a5e95ca39edef67ac91a5ebb5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 01/18] verif: limb access hook for ExtendedInt (cfg
 verif_hooks)

---
 .../boostvoronoi_ext/src/extended_int.rs      |  3 ++
 .../src/extended_int/verif_hooks.rs           | 38 +++++++++++++++++++
 2 files changed, 41 insertions(+)
 create mode 100644 workspace/boostvoronoi_ext/src/extended_int/verif_hooks.rs

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 8299d28..e3c12c0 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -21,6 +21,9 @@ use std::ops;
 
 #[cfg(test)]
 mod extendedint_tests;
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+mod verif_hooks;
 
 /// the default size of the SmallVec inside ExtendedInt (in units of u32)
 const EXTENDED_INT_VEC_SIZE: usize = 8;
diff --git a/workspace/boostvoronoi_ext/src/extended_int/verif_hooks.rs b/workspace/boostvoronoi_ext/src/extended_int/verif_hooks.rs
new file mode 100644
index 0000000..8dba8a9
--- /dev/null
+++ b/workspace/boostvoronoi_ext/src/extended_int/verif_hooks.rs
@@ -0,0 +1,38 @@
+//! Verification hooks, compiled only with `--cfg verif_hooks`. Raw access to the limbs of an `ExtendedInt`.
+use super::{ExtendedInt, Zero};
+use std::num::Wrapping;
+
+impl ExtendedInt {
+    /// Builds a number from its limbs (least significant first, no leading zero limb) and its sign.
+    pub fn verif_from_limbs(limbs: &[u32], negative: bool) -> Self {
+        let mut rv = <Self as Zero>::zero();
+        for l in limbs {
+            rv.chunks_.push(Wrapping(*l));
+        }
+        rv.count_ = if negative {
+            -(limbs.len() as i32)
+        } else {
+            limbs.len() as i32
+        };
+        rv
+    }
+
+    /// The signed limb count.
+    pub fn verif_count(&self) -> i32 {
+        self.count_
+    }
+
+    /// Number of limbs held.
+    pub fn verif_len(&self) -> usize {
+        self.chunks_.len()
+    }
+
+    /// Limb `i`, zero when out of range.
+    pub fn verif_limb(&self, i: usize) -> u32 {
+        if i < self.chunks_.len() {
+            self.chunks_[i].0
+        } else {
+            0
+        }
+    }
+}
-- 
2.43.0


From 2ec68d8beaca532815d3fd5b23617df177bdf8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 02/18] fix: ExtendedInt subtraction leaves a single leading
 zero word stripped only

When more than one leading word cancelled, the result kept zero words at the top: size(), p() and d()
were wrong and later comparisons by size gave wrong results (p() of a 4-word difference could be 0).
---
 workspace/boostvoronoi_ext/src/extended_int.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index e3c12c0..ddb5bab 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -272,7 +272,6 @@ impl ExtendedInt {
             }
             sz2 = sz1;
         }
-        self.count_ = (sz1 - 1) as i32;
         let mut flag = false;
 
         for _i in self.chunks_.len()..sz1 {
@@ -287,15 +286,11 @@ impl ExtendedInt {
             self.chunks_[i] = c1_i - if flag { Wrapping(1) } else { Wrapping(0) };
             flag = (c1_i.0 == 0) && flag;
         }
-        if self.chunks_[self.count_ as usize].0 != 0 {
-            self.count_ += 1;
-            if (self.count_ as usize) > self.chunks_.len() {
-                self.chunks_.push(Wrapping(0));
-            }
-        }
-        if (self.count_ as usize) < self.chunks_.len() {
+        // several of the leading words may have cancelled out
+        while let Some(Wrapping(0)) = self.chunks_.last() {
             let _ = self.chunks_.pop();
         }
+        self.count_ = self.chunks_.len() as i32;
     }
 
     fn mul_other(&mut self, e1: &Self, e2: &Self) {
-- 
2.43.0


From 0f6eb559f0ae4f3755635f0d0a2471c10543c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 03/18] fix: ExtendedInt::from(i64::MIN) overflowed

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index ddb5bab..599cd1b 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -62,7 +62,7 @@ impl<I: InputType> From<I> for ExtendedInt {
                 }
             }
             cmp::Ordering::Less => {
-                let mut c: u64 = (-that) as u64;
+                let mut c: u64 = that.unsigned_abs();
                 rv.chunks_.push(Wrapping((c & 0xFFFFFFFF) as u32));
                 c >>= 32;
                 if c != 0 {
-- 
2.43.0


From 695b4e5775026406756ff1e9c42e92fb2564a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 04/18] fix: Zero::is_zero was unimplemented for ExtendedInt

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 599cd1b..6a58218 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -95,7 +95,7 @@ impl Zero for ExtendedInt {
     }
     #[inline]
     fn is_zero(&self) -> bool {
-        unimplemented!()
+        self.count_ == 0
     }
 }
 
-- 
2.43.0


From 8d70229d7a2a1bb521bb2c46830c3158db66d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 05/18] fix: ExtendedExponentFpt compound assignment disagreed
 with the operators

0 += b gave 2*b, 0 -= b gave -2*b, and none of the four renormalised the mantissa, which the exponent
comparisons of later additions rely on. C++: return *this = *this op that;
---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs  | 45 ++-----------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 3e29d9e..4d11805 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -454,25 +454,7 @@ impl ops::AddAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 3000000000_f64);
     /// ```
     fn add_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            // do nothing
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) + that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp;
-        }
+        *self = *self + that;
     }
 }
 
@@ -497,24 +479,7 @@ impl ops::SubAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = -that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(-that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp_;
-        }
+        *self = *self - that;
     }
 }
 
@@ -537,8 +502,7 @@ impl ops::MulAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64*2000000000_f64);
     /// ```
     fn mul_assign(&mut self, that: Self) {
-        self.val_ *= that.val_;
-        self.exp_ += that.exp_;
+        *self = *self * that;
     }
 }
 
@@ -561,8 +525,7 @@ impl ops::DivAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), -1f64);
     /// ```
     fn div_assign(&mut self, that: Self) {
-        self.val_ /= that.val_;
-        self.exp_ -= that.exp_;
+        *self = *self / that;
     }
 }
 
-- 
2.43.0


From a0cc8a6dd19268f0719cffe3be77428d4e5f0ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 06/18] fix: RobustDif::from(f64) lost the sign of negative
 values

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index b96162c..4c5d72c 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -454,7 +454,7 @@ impl From<f64> for RobustDif {
         } else {
             Self {
                 positive_sum_: RobustFpt::default(),
-                negative_sum_: RobustFpt::from(value),
+                negative_sum_: RobustFpt::from(-value),
             }
         }
     }
-- 
2.43.0


From f4673e55abf24e6cdb477caa704a90fa0d39608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 07/18] fix: RobustDif * f64 had the wrong sign for a negative
 factor

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 4c5d72c..8b5bd04 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -634,18 +634,7 @@ impl ops::Mul<f64> for RobustDif {
     type Output = RobustDif;
 
     fn mul(self, rhs_: f64) -> Self {
-        let rhs = RobustFpt::from(rhs_);
-        if is_pos_f(rhs_) {
-            Self {
-                positive_sum_: self.positive_sum_ * rhs,
-                negative_sum_: self.negative_sum_ * rhs,
-            }
-        } else {
-            Self {
-                positive_sum_: self.negative_sum_ * rhs,
-                negative_sum_: self.positive_sum_ * rhs,
-            }
-        }
+        self * RobustFpt::from(rhs_)
     }
 }
 
-- 
2.43.0


From f8ba023b8ba17b9926cd3cceef35eec257298ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 08/18] fix: the product of two RobustDif values ignored the
 cross terms

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 8b5bd04..3a68c0e 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -624,8 +624,10 @@ impl ops::Mul<RobustDif> for RobustDif {
 
     fn mul(self, rhs: RobustDif) -> Self {
         Self {
-            positive_sum_: self.positive_sum_ * rhs.positive_sum_,
-            negative_sum_: self.negative_sum_ * rhs.negative_sum_,
+            positive_sum_: self.positive_sum_ * rhs.positive_sum_
+                + self.negative_sum_ * rhs.negative_sum_,
+            negative_sum_: self.positive_sum_ * rhs.negative_sum_
+                + self.negative_sum_ * rhs.positive_sum_,
         }
     }
 }
@@ -681,8 +683,7 @@ impl ops::MulAssign<RobustFpt> for RobustDif {
 
 impl ops::MulAssign<RobustDif> for RobustDif {
     fn mul_assign(&mut self, rhs: RobustDif) {
-        self.positive_sum_ = self.positive_sum_ * rhs.positive_sum_;
-        self.negative_sum_ = self.negative_sum_ * rhs.negative_sum_;
+        *self = *self * rhs;
     }
 }
 
-- 
2.43.0


From 7274d04df21c4c237887c7ecbfd53c979a16e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 09/18] fix: adding zero to a tiny ExtendedExponentFpt gave
 zero

---
 workspace/boostvoronoi_ext/src/extended_exp_fpt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 4d11805..169064c 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -273,7 +273,9 @@ impl ops::Add for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 3000000000_f64);
     /// ```
     fn add(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        if self.val_ == 0.0
+            || (that.val_ != 0.0 && that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64)
+        {
             return that;
         }
         if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
@@ -313,7 +315,9 @@ impl ops::Sub for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        if self.val_ == 0.0
+            || (that.val_ != 0.0 && that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64)
+        {
             return Self::new(-that.val_, that.exp_);
         }
         if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-- 
2.43.0


From 7ec5903b0e27cf4de8b6fd82e3f8ce12e4623fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 10/18] verif: hooks into predicates, site events and the
 circle queue (cfg verif_hooks)

---
 workspace/boostvoronoi_core/src/lib.rs        |   4 +
 .../boostvoronoi_core/src/verif_hooks.rs      | 172 ++++++++++++++++++
 2 files changed, 176 insertions(+)
 create mode 100644 workspace/boostvoronoi_core/src/verif_hooks.rs

diff --git a/workspace/boostvoronoi_core/src/lib.rs b/workspace/boostvoronoi_core/src/lib.rs
index fe13c8f..2973c77 100644
--- a/workspace/boostvoronoi_core/src/lib.rs
+++ b/workspace/boostvoronoi_core/src/lib.rs
@@ -44,6 +44,10 @@ pub(crate) mod predicate;
 pub(crate) mod robust_sqrt_expr;
 mod site_event;
 pub mod sync_diagram;
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks;
 pub mod visual_utils;
 
 /// A feature gated print(), will only be active when the feature "console_debug" is selected.
diff --git a/workspace/boostvoronoi_core/src/verif_hooks.rs b/workspace/boostvoronoi_core/src/verif_hooks.rs
new file mode 100644
index 0000000..5e459e2
--- /dev/null
+++ b/workspace/boostvoronoi_core/src/verif_hooks.rs
@@ -0,0 +1,172 @@
+//! Access for the verification harnesses; compiled only with `--cfg verif_hooks`.
+//! Thin wrappers, no logic of their own.
+use crate::beach_line as VB;
+use crate::circle_event as VC;
+use crate::diagram as VD;
+use crate::end_point::EndPointPair;
+use crate::geometry::Point;
+use crate::predicate as VP;
+use crate::site_event as VSE;
+use crate::{BvError, GrowingVob, InputType, OutputType, VobU32};
+use std::cmp::Ordering;
+
+pub use crate::beach_line::BeachLineNodeKey;
+pub use crate::circle_event::{CircleEvent, CircleEventIndex};
+pub use crate::site_event::SiteEvent;
+
+/// site events
+pub mod site {
+    use super::*;
+    pub fn point<I: InputType, F: OutputType>(p: Point<I>, initial: usize, sorted: usize) -> SiteEvent<I, F> {
+        let mut s = SiteEvent::new(VSE::Site::Point(p), initial);
+        s.set_sorted_index(sorted);
+        s
+    }
+    pub fn segment<I: InputType, F: OutputType>(
+        a: Point<I>,
+        b: Point<I>,
+        initial: usize,
+        sorted: usize,
+    ) -> SiteEvent<I, F> {
+        let mut s = SiteEvent::new(VSE::Site::Segment(a, b), initial);
+        s.set_sorted_index(sorted);
+        s
+    }
+    pub fn inverse<I: InputType, F: OutputType>(s: &mut SiteEvent<I, F>) {
+        let _ = s.inverse();
+    }
+    pub fn is_inverse<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) -> bool {
+        s.is_inverse()
+    }
+    pub fn is_vertical<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) -> bool {
+        s.is_vertical()
+    }
+    pub fn initial_index<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) -> usize {
+        s.initial_index()
+    }
+    pub fn category<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) -> u32 {
+        s.source_category().0
+    }
+    pub fn or_category<I: InputType, F: OutputType>(s: &mut SiteEvent<I, F>, c: u32) {
+        s.or_source_category(VD::ColorBits(c))
+    }
+}
+
+/// geometric predicates
+pub mod predicate {
+    use super::*;
+    /// -1 right, 0 collinear, 1 left
+    pub fn orientation<I: InputType>(a: Point<I>, b: Point<I>, c: Point<I>) -> i32 {
+        o(VP::orientation_predicate::eval_p::<I>(a, b, c))
+    }
+    pub fn orientation_i(dx1: i64, dy1: i64, dx2: i64, dy2: i64) -> i32 {
+        o(VP::orientation_predicate::eval_i(dx1, dy1, dx2, dy2))
+    }
+    fn o(v: VP::orientation_predicate::Orientation) -> i32 {
+        match v {
+            VP::orientation_predicate::Orientation::Right => -1,
+            VP::orientation_predicate::Orientation::Collinear => 0,
+            VP::orientation_predicate::Orientation::Left => 1,
+        }
+    }
+    pub fn point_less<I: InputType>(a: Point<I>, b: Point<I>) -> bool {
+        VP::point_comparison::point_comparison(a, b)
+    }
+    pub fn ulp_comparison(a: f64, b: f64, max_ulps: u64) -> Ordering {
+        crate::ctypes::ulp_comparison(a, b, max_ulps)
+    }
+    pub fn site_before_circle<I: InputType, F: OutputType>(s: &SiteEvent<I, F>, c: &CircleEvent) -> bool {
+        VP::event_comparison_predicate::event_comparison_bif(s, c)
+    }
+    pub fn distance<I: InputType, F: OutputType>(
+        l: &SiteEvent<I, F>,
+        r: &SiteEvent<I, F>,
+        p: Point<I>,
+    ) -> bool {
+        VP::distance_predicate::distance_predicate(l, r, p)
+    }
+    pub fn node_less<I: InputType, F: OutputType>(
+        a: &BeachLineNodeKey<I, F>,
+        b: &BeachLineNodeKey<I, F>,
+    ) -> bool {
+        VP::node_comparison_predicate::node_comparison(a, b)
+    }
+    pub fn lies_outside_vertical_segment<I: InputType, F: OutputType>(
+        c: &CircleEvent,
+        s: &SiteEvent<I, F>,
+    ) -> bool {
+        VP::circle_formation_predicate::lies_outside_vertical_segment(c, s)
+    }
+    pub fn circle<I: InputType, F: OutputType>(
+        a: &SiteEvent<I, F>,
+        b: &SiteEvent<I, F>,
+        c: &SiteEvent<I, F>,
+    ) -> Option<CircleEvent> {
+        VP::circle_formation_predicate::circle_formation(a, b, c, VB::BeachLineIndex(0))
+    }
+    pub fn end_point_cmp<I: InputType>(a: Point<I>, b: Point<I>) -> Ordering {
+        EndPointPair::new(a, VB::BeachLineIndex(0)).cmp(&EndPointPair::new(b, VB::BeachLineIndex(1)))
+    }
+}
+
+/// circle events and their queue
+pub mod queue {
+    use super::*;
+    pub fn event(x: f64, y: f64, lower_x: f64) -> CircleEvent {
+        let mut c = CircleEvent::new(VB::BeachLineIndex(0));
+        c.set_3(x, y, lower_x);
+        c
+    }
+    pub fn indexed(x: f64, y: f64, lower_x: f64, i: usize) -> CircleEvent {
+        let mut c = event(x, y, lower_x);
+        c.set_index(CircleEventIndex(i));
+        c
+    }
+    pub fn parts(c: &CircleEvent) -> (f64, f64, f64) {
+        (c.x(), c.y(), c.lower_x())
+    }
+    #[derive(Default)]
+    pub struct Queue(VC::CircleEventQueue);
+    impl Queue {
+        pub fn push(&mut self, c: CircleEvent) -> CircleEventIndex {
+            self.0.associate_and_push(c)
+        }
+        pub fn deactivate(&mut self, i: Option<CircleEventIndex>) {
+            self.0.deactivate(i)
+        }
+        pub fn is_active(&self, i: CircleEventIndex) -> bool {
+            self.0.is_active(i)
+        }
+        pub fn is_empty(&self) -> bool {
+            self.0.is_empty()
+        }
+        pub fn pop_inactive_at_top(&mut self) -> Result<(), BvError> {
+            self.0.pop_inactive_at_top()
+        }
+        pub fn pop(&mut self) -> Result<(), BvError> {
+            self.0.pop_and_destroy()
+        }
+        pub fn top(&self) -> Result<Option<CircleEvent>, BvError> {
+            Ok(self.0.top()?.map(|c| c.as_ref().clone()))
+        }
+        pub fn top_index(&self) -> Option<usize> {
+            self.0.peek().and_then(|c| c.get_index()).map(|c| c.0)
+        }
+        pub fn clear(&mut self) {
+            self.0.clear()
+        }
+    }
+    /// the growing bit vector behind the set of inactive events
+    pub struct Bits(VobU32);
+    impl Bits {
+        pub fn fill(n: usize) -> Self {
+            Self(VobU32::fill(n))
+        }
+        pub fn set(&mut self, i: usize, v: bool) {
+            self.0.set_grow(i, v)
+        }
+        pub fn get(&self, i: usize) -> bool {
+            self.0.get_f(i)
+        }
+    }
+}
-- 
2.43.0


From 27ccab9e577d1a209a72511148457693fa200736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 11/18] fix: orientation of points more than 2^31 apart
 overflowed

---
 workspace/boostvoronoi_core/src/predicate.rs | 33 +++-----------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index e260225..bf3f838 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -56,35 +56,10 @@ pub(crate) fn is_vertical<I: InputType>(point1: Point<I>, point2: Point<I>) -> b
 /// with epsilon relative error equal to 1EPS.
 #[inline]
 fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I, s_b2: I) -> F {
-    // Why can't *all* integers implement is_negative()? E.g u64 would just always return false.
-    // It would make it easier to implement generic code
-    let u_a1 = if s_a1 < I::zero() { -s_a1 } else { s_a1 };
-    let u_b1 = if s_b1 < I::zero() { -s_b1 } else { s_b1 };
-    let u_a2 = if s_a2 < I::zero() { -s_a2 } else { s_a2 };
-    let u_b2 = if s_b2 < I::zero() { -s_b2 } else { s_b2 };
-
-    let l = u_a1 * u_b2;
-    let r = u_b1 * u_a2;
-
-    if (s_a1 < I::zero()) ^ (s_b2 < I::zero()) {
-        return if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-            if l > r {
-                -cast::<I, F>(l - r)
-            } else {
-                cast::<I, F>(r - l)
-            }
-        } else {
-            -cast::<I, F>(l + r)
-        };
-    }
-    if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-        return cast::<I, F>(l + r);
-    }
-    if l < r {
-        -cast::<I, F>(r - l)
-    } else {
-        cast::<I, F>(l - r)
-    }
+    // The products of two coordinate differences do not fit in an i64.
+    let (a1, b1) = (cast::<I, i128>(s_a1), cast::<I, i128>(s_b1));
+    let (a2, b2) = (cast::<I, i128>(s_a2), cast::<I, i128>(s_b2));
+    cast::<i128, F>(a1 * b2 - b1 * a2)
 }
 
 pub(crate) mod orientation_predicate {
-- 
2.43.0


From d8b7bbb5b7b19ba117282d76670a76a93cdbe67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 12/18] fix: distance predicate for vertical segments was
 inexact far from the segment

---
 workspace/boostvoronoi_core/src/predicate.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index bf3f838..226a433 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -372,6 +372,16 @@ pub(crate) mod distance_predicate {
             return fast_res == KPredicateResult::LESS;
         }
 
+        if right_site.is_vertical() {
+            // Far away from a short vertical segment both distances round to the same value,
+            // so compare (dx * dx + dy * dy) / dx with the distance to the segment exactly.
+            let dx = cast::<I, i128>(left_site.x()) - cast::<I, i128>(new_point.x);
+            let dy = cast::<I, i128>(left_site.y()) - cast::<I, i128>(new_point.y);
+            let dist = cast::<I, i128>(right_site.x()) - cast::<I, i128>(new_point.x);
+            // The sites are to the left of the new point: dx is negative.
+            return reverse_order ^ (dx * dx + dy * dy > dist * dx);
+        }
+
         let dist1 = distance_to_point_arc(left_site, new_point);
         let dist2 = distance_to_segment_arc(right_site, new_point);
 
-- 
2.43.0


From 6e1b18acd45f35ace63619c6550f20efadae9f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 13/18] fix: distance predicate of a point and a segment arc
 decides ties exactly

---
 workspace/boostvoronoi_core/src/predicate.rs | 27 +++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index 226a433..7172a6d 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -291,6 +291,7 @@ pub(crate) mod distance_predicate {
     use crate::geometry::Point;
     use crate::predicate::{orientation_predicate, robust_cross_product};
     use crate::{cast, site_event::SiteEvent, InputType, OutputType};
+    use boostvoronoi_ext::extended_int::ExtendedInt;
     use std::cmp;
 
     /// Represents the result of the epsilon robust predicate. If the
@@ -386,7 +387,31 @@ pub(crate) mod distance_predicate {
         let dist2 = distance_to_segment_arc(right_site, new_point);
 
         // The undefined ulp range is equal to 3EPS + 7EPS <= 10ULP.
-        reverse_order ^ (dist1 < dist2)
+        let less = match ulp_comparison(dist1, dist2, 10) {
+            cmp::Ordering::Equal => exact_ps(left_site, right_site, new_point),
+            ordering => ordering == cmp::Ordering::Less,
+        };
+        reverse_order ^ less
+    }
+
+    /// Exact version of `distance_to_point_arc() < distance_to_segment_arc()` for sites to the
+    /// left of the point and segments that are not vertical.
+    fn exact_ps<I: InputType, F: OutputType>(
+        point_site: &SiteEvent<I, F>,
+        segment_site: &SiteEvent<I, F>,
+        point: Point<I>,
+    ) -> bool {
+        let dif = |a: I, b: I| ExtendedInt::from(cast::<I, i64>(a) - cast::<I, i64>(b));
+        let (segment0, segment1) = (segment_site.point0(), segment_site.point1());
+        let dx = dif(point_site.x(), point.x);
+        let dy = dif(point_site.y(), point.y);
+        let a = dif(segment1.x, segment0.x);
+        let b = dif(segment1.y, segment0.y);
+        let cross = &a * &dif(point.y, segment0.y) - &b * &dif(point.x, segment0.x);
+        let square = &dx * &dx + &dy * &dy;
+        // square / (2 * dx) < cross / (b + length)  <=>  square * length > rest
+        let rest = dx * cross * 2 - &square * &b;
+        rest.is_neg() || (&square * &square * (&a * &a + &b * &b) - &rest * &rest).is_pos()
     }
 
     pub(crate) fn ss<I: InputType, F: OutputType>(
-- 
2.43.0


From fc9e46a68f4a3262933985394e377a90ae9fd7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 14/18] fix: point-point-segment circle at a segment end was
 dropped by a too small tolerance

---
 .../src/predicate/lazy_circle_formation.rs             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index d616568..efa9870 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -265,9 +265,13 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
         let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / (v_3.0 * v_3.0 + v_3.1 * v_3.1);
         tln!("pps dot:{:.12}", dot);
 
-        // allow the dot to be [0..1] + some ULP fuzz
-        let rv =
-            (-0.0..=1.0).contains(&dot) || approx::ulps_eq!(0.0, dot) || approx::ulps_eq!(1.0, dot);
+        // allow the dot to be [0..1] + some ULP fuzz: the center of the circle is
+        // accurate to ULPSX2 ULPs of its coordinates.
+        let fuzz = ULPSX2 as f64 * f64::EPSILON * (c_event.x().abs() + c_event.y().abs())
+            / (v_3.0 * v_3.0 + v_3.1 * v_3.1).sqrt();
+        let rv = (-fuzz..=1.0 + fuzz).contains(&dot)
+            || approx::ulps_eq!(0.0, dot)
+            || approx::ulps_eq!(1.0, dot);
 
         #[cfg(feature = "ce_corruption_check")]
         if !rv {
-- 
2.43.0


From ef44874e00121475e54ef7ed9e6f01b1363219cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 15/18] fix: Diagram edge accessors panicked in debug builds
 instead of reporting a missing edge

---
 workspace/boostvoronoi_core/src/diagram.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 081fc40..f5ae6dc 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1084,16 +1084,7 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     pub(crate) fn edge_get_(&self, edge_id: Option<EdgeIndex>) -> Option<&EdgeType> {
-        let rv = self.edges_.get(edge_id?.0);
-        debug_assert!({
-            if rv.is_none() {
-                dbg!(edge_id.unwrap().0);
-                // todo: remove this panic and raise error?
-                panic!();
-            };
-            true
-        });
-        rv
+        self.edges_.get(edge_id?.0)
     }
 
     /// Overwrites the content of dest with the content of source.
-- 
2.43.0


From aaf52507299d77dc976135cde06484178707851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 16/18] fix: Diagram accessors accepted ids that do not exist

---
 workspace/boostvoronoi_core/src/diagram.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index f5ae6dc..4b62839 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1045,6 +1045,7 @@ impl<F: OutputType> Diagram<F> {
         vertex_id: VertexIndex,
         color: ColorType,
     ) -> Result<(), BvError> {
+        let _ = self.vertex_get(vertex_id)?;
         self.vertex_set_color_(Some(vertex_id), color);
         Ok(())
     }
@@ -1129,8 +1130,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// Sets the color field with new value
-    // todo: raise proper error when id not found
     pub fn edge_set_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_set_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1150,8 +1151,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// OR the previous color field value with this new color value
-    // Todo: add error on edge index problems
     pub fn edge_or_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_or_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1238,7 +1239,7 @@ impl<F: OutputType> Diagram<F> {
     /// Returns false if the edge is infinite (ray, line).
     #[inline]
     pub(crate) fn edge_is_finite_(&self, edge_id: Option<EdgeIndex>) -> Option<bool> {
-        let _ = edge_id?;
+        let _ = self.edge_get_(edge_id)?;
         Some(self.edge_get_vertex0_(edge_id).is_some() && self.edge_get_vertex1_(edge_id).is_some())
     }
 
@@ -1337,8 +1338,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex0(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex0_(Some(edge_id)))
     }
 
@@ -1350,8 +1351,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex1(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex1_(Some(edge_id)))
     }
 
-- 
2.43.0


From f8899d48a6b01292ac57c9d7809255d488ceb548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 17/18] fix: point-point-segment circles were accepted for the
 wrong one of three arcs

---
 .../src/predicate/lazy_circle_formation.rs    | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index efa9870..66291e3 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -239,6 +239,9 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             recompute_lower_x,
         );
     }
+    if !middle_arc_vanishes(point1, point2, site3, segment_index, &c_event) {
+        return None;
+    }
     // All sites must be unique, or the dot calculation will be invalid
     let unique_endpoints = !(
         point1 == point2
@@ -315,6 +318,41 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
     Some(c_event)
 }
 
+/// Two points and a segment may have two common circles, and both (s,p1,p2) and (p1,p2,s) may be
+/// neighbours on the beach line when the sweep line reaches the second one. The arc that vanishes
+/// there is the middle one of the sites in the (clockwise) order they touch the circle in, starting
+/// from its rightmost point.
+/// Returns false if that is clearly not the arc of the middle site.
+fn middle_arc_vanishes<I: InputType, F: OutputType>(
+    point1: Point<I>,
+    point2: Point<I>,
+    site3: &VSE::SiteEvent<I, F>,
+    segment_index: SiteIndex,
+    c_event: &CircleEvent,
+) -> bool {
+    // Angles this close to each other, or to the rightmost point, are not told apart.
+    const MARGIN: f64 = 1e-6;
+    let (x, y) = (c_event.x(), c_event.y());
+    // clockwise "diamond angle" from the rightmost point of the circle, [0..4)
+    let angle = |dx: f64, dy: f64| {
+        let t = dx / (dx.abs() + dy.abs());
+        if dy <= 0.0 { 1.0 - t } else { 3.0 + t }
+    };
+    let point_angle = |p: Point<I>| angle(cast::<I, f64>(p.x) - x, cast::<I, f64>(p.y) - y);
+    let segment_angle = || {
+        let a = cast::<I, f64>(site3.y1()) - cast::<I, f64>(site3.y0());
+        let b = cast::<I, f64>(site3.x0()) - cast::<I, f64>(site3.x1());
+        let side = a * (cast::<I, f64>(site3.x0()) - x) + b * (cast::<I, f64>(site3.y0()) - y);
+        angle(a * side, b * side)
+    };
+    let (first, last) = match segment_index {
+        SiteIndex::One => (segment_angle(), point_angle(point2)),
+        SiteIndex::Two => (point_angle(point1), point_angle(point2)),
+        SiteIndex::Three => (point_angle(point1), segment_angle()),
+    };
+    !(last + MARGIN < first && last >= MARGIN && first <= 4.0 - MARGIN)
+}
+
 /// Lazy evaluation of point, segment, segment circle events
 #[allow(unused_parens)]
 pub(crate) fn pss<I: InputType, F: OutputType>(
-- 
2.43.0


From 8f12d5203ca6b10f4beae8d6c8c44803e3ddf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 18/18] fix: RobustDif divided by a negative value left
 negative parts

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 3a68c0e..8f6fbc0 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -697,7 +697,11 @@ impl fmt::Debug for RobustDif {
 }
 
 impl ops::DivAssign<RobustFpt> for RobustDif {
-    fn div_assign(&mut self, rhs: RobustFpt) {
+    fn div_assign(&mut self, mut rhs: RobustFpt) {
+        if rhs.is_neg() {
+            rhs = -rhs;
+            self.swap();
+        }
         self.positive_sum_ /= rhs;
         self.negative_sum_ /= rhs;
     }
-- 
2.43.0

