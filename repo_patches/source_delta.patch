From e0bef43475f176c67d98ca529994d58e4140ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:11 +0000
Subject: [PATCH 01/11] fix: complex += and -= update the imaginary part from
 the imaginary part

---
 src/complex/cartesian_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 530286f..9e64c57 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -310,7 +310,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn add_assign(&mut self, rhs: $T) {
                 self.re =  self.re+rhs.re;
-                self.im =  self.re+rhs.im;
+                self.im =  self.im+rhs.im;
             }
         }
         
@@ -326,7 +326,7 @@ macro_rules! impl_core_ops_add_sub_for_cartesian{
             #[inline]
             fn sub_assign(&mut self, rhs: $T) {
                 self.re =  self.re-rhs.re;
-                self.im =  self.re-rhs.im;
+                self.im =  self.im-rhs.im;
             }
         }
     }
-- 
2.43.0


From 850a37c6fb12300d8d6d77fa0046e4a59fcc0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:31 +0000
Subject: [PATCH 02/11] fix: complex division uses the divisor's imaginary part

---
 src/complex/cartesian_impl.rs | 4 ++--
 src/complex/ops.rs            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index 9e64c57..bf5771b 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -388,7 +388,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 return Cartesian::new((a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2)), (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2)));
             }
@@ -401,7 +401,7 @@ macro_rules! impl_core_ops_div_cartesian_for_cartesian{
                 let a = self.re;
                 let b = self.im;
                 let c = rhs.re;
-                let d = rhs.re;
+                let d = rhs.im;
         
                 self.re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
                 self.im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 5539eb9..07ba67c 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -203,7 +203,7 @@ pub fn div_cartesian<T>( numerator: Cartesian<T>, denominator: Cartesian<T>  ) -
     let a = numerator.re;
     let b = numerator.im;
     let c = denominator.re;
-    let d = denominator.re;
+    let d = denominator.im;
 
     let re = (a*c+b*d)/(c.mixed_powi(2)+d.mixed_powi(2));
     let im = (b*c-a*d)/(c.mixed_powi(2)+d.mixed_powi(2));
-- 
2.43.0


From 891a4f989fc790f192ef068eb669de673e7cdaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:45 +0000
Subject: [PATCH 03/11] fix: complex /= by a zero scalar saturates without
 dividing

---
 src/complex/cartesian_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/complex/cartesian_impl.rs b/src/complex/cartesian_impl.rs
index bf5771b..2202c95 100644
--- a/src/complex/cartesian_impl.rs
+++ b/src/complex/cartesian_impl.rs
@@ -458,6 +458,7 @@ impl <T1: MixedNumSigned + MixedOps + MixedZero, T2: MixedReal + MixedOps + Mixe
         if rhs == T1::mixed_zero() {
             self.re =T2::mixed_max_value();
             self.im =T2::mixed_max_value();
+            return;
         }
         self.re = self.re/T2::mixed_from_num(rhs);
         self.im = self.im/T2::mixed_from_num(rhs);
-- 
2.43.0


From c5015a09b345539b6559480e5f19799cca9780a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 04/11] fix: wrap_phase terminates for every angle and stays in
 range on two-integer-bit types

---
 src/trigonometry.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index bf2b450..b4e8323 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -164,17 +164,40 @@ pub fn wrap_phase<T>( phi: T ) -> T
     where T: crate::MixedNum + crate::MixedOps + crate::MixedPi + crate::MixedNumSigned
 {
     let mixed_pi  = T::mixed_pi();
+
+    // Within one turn of the range: shift by two half turns, as a full turn may not be representable in T.
+    if phi < -mixed_pi
+    {
+        let half_turn = phi + mixed_pi;
+        if -mixed_pi <= half_turn
+        {
+            return half_turn + mixed_pi;
+        }
+    }
+    else if mixed_pi <= phi
+    {
+        let half_turn = phi - mixed_pi;
+        if half_turn < mixed_pi
+        {
+            return half_turn - mixed_pi;
+        }
+    }
+    else
+    {
+        return phi;
+    }
+
+    // Further away: remove all whole turns at once, as the number of turns is only bounded by the size of T.
     let tau = T::mixed_from_num(2)*mixed_pi;
- 
-    let mut temp_scalar = phi;
-    
-    while temp_scalar < -mixed_pi
+    let temp_scalar = phi % tau;
+
+    if temp_scalar < -mixed_pi
     {
-        temp_scalar = temp_scalar + tau;
+        return temp_scalar + tau;
     }
-    while mixed_pi <= temp_scalar
+    else if mixed_pi <= temp_scalar
     {
-        temp_scalar = temp_scalar - tau;
+        return temp_scalar - tau;
     }
     return temp_scalar;
 }
-- 
2.43.0


From 021f6f94bd6b48d6d43b02767ed56856f15f346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 05/11] fix: mixed_powi of a negative exponent is the
 reciprocal power on fixed and integer types

---
 src/fixed_impl.rs | 14 ++++++++++++--
 src/int_impl.rs   |  7 ++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/fixed_impl.rs b/src/fixed_impl.rs
index e68dc8e..9f73369 100644
--- a/src/fixed_impl.rs
+++ b/src/fixed_impl.rs
@@ -168,7 +168,12 @@ macro_rules! impl_mixed_num_for_fixed_unsigned{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                let power = trigonometry::powi( *self, exp.unsigned_abs() as usize );
+                if exp < 0
+                {
+                    return Self::from_num(1)/power;
+                }
+                return power;
             }
         }
 
@@ -222,7 +227,12 @@ macro_rules! impl_mixed_num_for_fixed_signed{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                let power = trigonometry::powi( *self, exp.unsigned_abs() as usize );
+                if exp < 0
+                {
+                    return Self::from_num(1)/power;
+                }
+                return power;
             }
         }
 
diff --git a/src/int_impl.rs b/src/int_impl.rs
index 3ab4005..f9b5958 100644
--- a/src/int_impl.rs
+++ b/src/int_impl.rs
@@ -49,7 +49,12 @@ macro_rules! impl_mixed_num_for_primitive{
         {
             #[inline(always)]
             fn mixed_powi( &self, exp: i32 ) -> Self {
-                return trigonometry::powi( *self, exp as usize );
+                let power = trigonometry::powi( *self, exp.unsigned_abs() as usize );
+                if exp < 0
+                {
+                    return 1/power;
+                }
+                return power;
             }
         }
 
-- 
2.43.0


From 81aca8739d1dcd8cdba9704f268634af86ee723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:31 +0000
Subject: [PATCH 06/11] fix: niirf only uses constants representable on types
 with three integer bits

---
 src/trigonometry/sqrt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8294bec..8851fb3 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -72,12 +72,12 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
     while x_< T::mixed_from_num(0.25)
     {
         norm -=1;
-        x_ = x_*T::mixed_from_num(4);
+        x_ = x_*T::mixed_from_num(2)*T::mixed_from_num(2); // 4 may not be representable in T.
     }
     while T::mixed_from_num(1.0) <= x_
     {
         norm +=1;
-        x_ = x_/T::mixed_from_num(4);
+        x_ = x_/T::mixed_from_num(2)/T::mixed_from_num(2);
     }
 
     /// LUT for getting the acceleration factor β.
-- 
2.43.0


From 4d14a70a724f4a83c98b1b23f797dc121985b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:42 +0000
Subject: [PATCH 07/11] fix: niirf terminates for infinity and for values
 without an absolute value

---
 src/trigonometry/sqrt.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trigonometry/sqrt.rs b/src/trigonometry/sqrt.rs
index 8851fb3..970c52b 100644
--- a/src/trigonometry/sqrt.rs
+++ b/src/trigonometry/sqrt.rs
@@ -67,6 +67,12 @@ pub fn niirf<T>( x: T, iterations: usize ) -> T
 
     let mut x_ = x.mixed_abs();
 
+    // Nothing to normalize when the absolute value is infinite or does not fit in T.
+    if x_ <= T::mixed_zero() || T::mixed_max_value() < x_
+    {
+        return x_;
+    }
+
     // First we normalize x to the range 0.25 =< x < 1.
     let mut norm = 0i32; // Number of normalizations.
     while x_< T::mixed_from_num(0.25)
-- 
2.43.0


From c8c9a93f03f09ec3ea71936b73c92a7d890297a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:59 +0000
Subject: [PATCH 08/11] fix: polynomial sine only uses constants and powers
 representable on narrow types

---
 src/trigonometry.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/trigonometry.rs b/src/trigonometry.rs
index b4e8323..501cbd7 100644
--- a/src/trigonometry.rs
+++ b/src/trigonometry.rs
@@ -86,10 +86,14 @@ pub fn sin<T>( x: T ) -> T
     }
 
     // Calculate sine by using 
-    let mut sinx = x_-( x_.mixed_powi(3)/T::mixed_from_num(6) );
-    sinx += x_.mixed_powi(5)/T::mixed_from_num(120);
-    sinx -= x_.mixed_powi(7)/T::mixed_from_num(5040);
-    sinx += x_.mixed_powi(9)/T::mixed_from_num(362880);
+    // Horner form, as the factorials and the higher powers may not be representable in T.
+    let one   = T::mixed_from_num(1);
+    let x_sqr = x_.mixed_powi(2);
+    let mut sinx = one - x_sqr*T::mixed_from_num(1.0/72.0);
+    sinx = one - x_sqr*sinx*T::mixed_from_num(1.0/42.0);
+    sinx = one - x_sqr*sinx*T::mixed_from_num(1.0/20.0);
+    sinx = one - x_sqr*sinx*T::mixed_from_num(1.0/6.0);
+    sinx *= x_;
     return sinx;
 }
 
-- 
2.43.0


From 70365e4c021c9956a8c2feef98d324a2262947bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 09/11] fix: a negative zero part of a complex number prints
 without a second minus sign

---
 src/complex/cartesian_impl/num_complex_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/cartesian_impl/num_complex_impl.rs b/src/complex/cartesian_impl/num_complex_impl.rs
index 8d383d8..04eff6b 100644
--- a/src/complex/cartesian_impl/num_complex_impl.rs
+++ b/src/complex/cartesian_impl/num_complex_impl.rs
@@ -8,12 +8,12 @@ use core::fmt;
 
 macro_rules! write_complex {
     ($f:ident, $t:expr, $prefix:expr, $re:expr, $im:expr) => {{
-        let abs_re = if $re < T::mixed_zero() {
+        let abs_re = if $re <= T::mixed_zero() {
             T::mixed_zero() - $re.clone()
         } else {
             $re.clone()
         };
-        let abs_im = if $im < T::mixed_zero() {
+        let abs_im = if $im <= T::mixed_zero() {
             T::mixed_zero() - $im.clone()
         } else {
             $im.clone()
-- 
2.43.0


From ab691af6fc2c357a43d41701bcbe7439586b40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 10/11] fix: a polar number can be multiplied by a Cartesian
 number of any supported signed type

---
 src/complex/polar_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/polar_impl.rs b/src/complex/polar_impl.rs
index 0e30f4b..9c8de5e 100644
--- a/src/complex/polar_impl.rs
+++ b/src/complex/polar_impl.rs
@@ -141,7 +141,7 @@ impl <T: MixedNum + MixedNumSigned + MixedOps> core::ops::Mul<Polar<T>> for Pola
     }
 }
 
-impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan + ToPolar<T>> core::ops::Mul<Cartesian<T>> for Polar<T> {
+impl <T: MixedNum + MixedNumSigned + MixedSqrt + MixedOps + MixedAbs + MixedPowi + MixedAtan> core::ops::Mul<Cartesian<T>> for Polar<T> {
     type Output = Self;
     #[inline]
     fn mul(self, rhs: Cartesian<T>) -> Self {
-- 
2.43.0


From 2e6d16419ebe32a29fe7f873253bc11087ec19c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:31 +0000
Subject: [PATCH 11/11] fix: the integer power of a complex number takes
 exponents beyond the i32 range

---
 src/complex/ops.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/complex/ops.rs b/src/complex/ops.rs
index 07ba67c..527c480 100644
--- a/src/complex/ops.rs
+++ b/src/complex/ops.rs
@@ -159,7 +159,13 @@ pub fn powi<T>( base: Cartesian<T>, power:usize ) -> Cartesian<T>
 {   
     // Calculate raised magnitude.
     let temp:T = base.re.mixed_powi(2) + base.im.mixed_powi(2);
-    let mag:T  = temp.mixed_sqrt().mixed_powi(power as i32);
+    let root:T = temp.mixed_sqrt();
+
+    // The exponent may be larger than the i32 of mixed_powi.
+    let mut mag = <T>::from_num(1);
+    for _i in 0..power {
+        mag = mag*root;
+    }
 
     let phi:T  = base.im.mixed_atan2(base.re) *<T>::from_num(power);
 
-- 
2.43.0

