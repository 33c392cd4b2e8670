From 7eee7e1d6a732d74f2c452e8ef7c5aaa277db349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 1/8] fix: zero never carries a minus sign

---
 src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..4956286 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -65,7 +65,10 @@ impl FixedDecimal {
 
     #[inline]
     pub fn set_neg(&mut self) {
-        self.intg |= 0x80u8 as i8;
+        // zero has no sign
+        if !self.is_zero() {
+            self.intg |= 0x80u8 as i8;
+        }
     }
 
     #[inline]
-- 
2.43.0


From 5f776c7e0b866a3092eacf4add0af13315463ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 2/8] fix: parser counts digits in wide integers

Digit counts and exponents past the range of i8/i32 wrapped around, so
overlong literals panicked or were accepted as wrong values.
---
 src/serde.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..7eda6ad 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -21,7 +21,7 @@ impl FixedDecimal {
             return Err(Error::ConversionSyntax);
         }
         let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut d = 0isize; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -108,13 +108,13 @@ impl FixedDecimal {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
+                // maximum exponent is 65, check length to avoid overflow
+                if i >= firstexp + 3 {
+                    return Err(Error::ConversionSyntax);
+                }
                 exp = exp * 10 + *c as i32 - '0' as i32;
                 i += 1
             }
-            // maximum exponent is 65, with sign at most 4 chars
-            if i >= firstexp + 4 {
-                return Err(Error::ConversionSyntax);
-            }
             if (!nege && exp as usize > MAX_DIGITS) || (nege && exp as usize > MAX_FRAC) {
                 return Err(Error::ConversionSyntax);
             }
@@ -131,10 +131,11 @@ impl FixedDecimal {
             last - dotchar
         };
         // apply exponent to frac
-        let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+        // use wide integers because number of digits is not checked yet
+        let (frac, digits, heading_zeroes) = {
+            let mut frac = frac_digits - exp as isize;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0isize;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -158,6 +159,7 @@ impl FixedDecimal {
         if digits as usize > MAX_DIGITS {
             return Err(Error::ConversionSyntax);
         }
+        let (frac, digits, mut heading_zeroes) = (frac as i8, digits as i8, heading_zeroes as i8);
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
-- 
2.43.0


From eb3bb6dd334c85509f3a1822aac2975f118d5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 3/8] fix: addition and subtraction ignore leading zero groups
 and report overflow

Leading zero groups of an operand, or a carry out of the ninth group, made
add_abs and sub_abs index past the nine groups.
---
 src/arith.rs   | 33 ++++++++++++++++++++-------------
 src/decimal.rs | 11 +++++++++++
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..f659917 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -198,10 +198,14 @@ impl Rem for FixedDecimal {
 /// intg is added with 0 and carry.
 fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    // leading zero units must not enlarge the result
+    let liu = lhs.intg_non_zero_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_non_zero_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -241,9 +245,6 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             lhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
@@ -254,15 +255,17 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             rhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
-    } else if carry != 0 {
+    }
+    if carry > 0 {
         // no more intg but carry is non-zero
+        if res_idx == MAX_UNITS as isize {
+            res.set_zero();
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -291,10 +294,14 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// |      |  intg  |   common    |  frac  |
 fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    // leading zero units must not enlarge the result
+    let liu = lhs.intg_non_zero_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_non_zero_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +374,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
diff --git a/src/decimal.rs b/src/decimal.rs
index 4956286..2c14eae 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -124,6 +124,17 @@ impl FixedDecimal {
         get_units(self.frac())
     }
 
+    /// number of integral units without leading zero units.
+    #[inline]
+    pub(crate) fn intg_non_zero_units(&self) -> usize {
+        let frac_units = self.frac_units();
+        let mut intg_units = self.intg_units();
+        while intg_units > 0 && self.lsu[frac_units + intg_units - 1] == 0 {
+            intg_units -= 1;
+        }
+        intg_units
+    }
+
     #[inline]
     fn reset_units(&mut self) {
         self.lsu.iter_mut().for_each(|n| *n = 0);
-- 
2.43.0


From 38740892de922421955ac532b6f8bba7ca96ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 4/8] fix: multiplication ignores leading zeroes and survives
 tiny factors

Leading zero digits of a factor took scale away from the product or made it
overflow, and the sum of digit counts wrapped around in i8.
---
 src/arith.rs   | 20 ++++++++++++--------
 src/decimal.rs | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index f659917..582ae9a 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -396,10 +396,11 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let res_intg_digits = lhs.intg() + rhs.intg();
-    let res_intg_units = get_units(res_intg_digits);
-    let res_frac_digits = lhs.frac() + rhs.frac();
-    let mut res_frac_units = get_units(res_frac_digits);
+    // leading zeroes must not enlarge the result
+    let res_intg_digits = lhs.intg_non_zero_digits() + rhs.intg_non_zero_digits();
+    let res_intg_units = (res_intg_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
+    let res_frac_digits = lhs.frac() as usize + rhs.frac() as usize;
+    let mut res_frac_units = (res_frac_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_intg_units > MAX_UNITS {
         // integral overflow
         return Err(Error::Overflow);
@@ -412,9 +413,9 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         // exceeds maximum fractional units
         res_frac_units = MAX_FRAC_UNITS;
     }
-    let liu = lhs.intg_units();
+    let liu = lhs.intg_non_zero_units();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_non_zero_units();
     let rfu = rhs.frac_units();
     // because result fractional part may be truncated, we need to calculate
     // how many units has to be shifted and can be ignored in calculation.
@@ -446,7 +447,10 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        if res_idx < -1 {
+            // all products of this unit are truncated
+            continue;
+        }
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
@@ -454,7 +458,7 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         }
         carry = 0
     }
-    res.frac = res_frac_digits.min((res_frac_units * DIGITS_PER_UNIT) as i8);
+    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;
     res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
diff --git a/src/decimal.rs b/src/decimal.rs
index 2c14eae..87f2a70 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -1,4 +1,4 @@
-use crate::utils::get_units;
+use crate::utils::{get_units, unit_leading_zeroes};
 use std::hash::{Hash, Hasher};
 use crate::error::{Result, Error};
 
@@ -135,6 +135,17 @@ impl FixedDecimal {
         intg_units
     }
 
+    /// number of integral digits without leading zeroes.
+    #[inline]
+    pub(crate) fn intg_non_zero_digits(&self) -> usize {
+        let intg_units = self.intg_non_zero_units();
+        if intg_units == 0 {
+            return 0;
+        }
+        let highest_unit = self.lsu[self.frac_units() + intg_units - 1];
+        intg_units * DIGITS_PER_UNIT - unit_leading_zeroes(highest_unit)
+    }
+
     #[inline]
     fn reset_units(&mut self) {
         self.lsu.iter_mut().for_each(|n| *n = 0);
-- 
2.43.0


From 83e7a073b33c96f0927bd6d3654692473f24a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 5/8] fix: division corrects its quotient estimate and keeps
 all scales

The estimate was neither clamped to one unit nor added back properly, digit
counts wrapped around in i8, and the dividend buffer was too short, so some
quotients came out wrong or panicked.
---
 src/arith.rs | 56 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 582ae9a..86e7a84 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 use std::ops::{Add, Div, Mul, Rem, Sub};
 
 use crate::cmp::cmp_abs_lsu;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, MAX_FRAC_UNITS, MAX_UNITS, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, MAX_DIGITS, MAX_FRAC_UNITS, MAX_UNITS, UNIT};
 use crate::error::{Error, Result};
 use crate::utils::{get_units, unit_leading_zeroes, units_greater_equal};
 
@@ -83,7 +83,7 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
-        div_abs(lhs, rhs, res, incr_frac as isize)?;
+        div_abs(lhs, rhs, res, incr_frac.min(MAX_DIGITS) as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
         }
@@ -522,7 +522,8 @@ fn div_abs(
         incr_frac = 0;
     }
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
+    let res_frac = (lhs_ext_frac + rhs_ext_frac + incr_frac) as usize;
+    let mut res_frac_units = (res_frac + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_frac_units > MAX_FRAC_UNITS {
         // exceeds maximum fractional digits
         res_frac_units = MAX_FRAC_UNITS;
@@ -543,7 +544,7 @@ fn div_abs(
     let res_intg_units: usize;
     let res_start_idx: isize;
     if res_intg > 0 {
-        res_intg_units = get_units(res_intg as i8);
+        res_intg_units = (res_intg as usize + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
         if res_intg_units > MAX_UNITS {
             return Err(Error::Overflow);
         }
@@ -553,9 +554,9 @@ fn div_abs(
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-        let res_start_offset = get_units((1 - res_intg) as i8) as isize;
+        let res_start_offset =
+            (1 - res_intg + DIGITS_PER_UNIT as isize - 1) / DIGITS_PER_UNIT as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
-        res_intg = 0;
     }
     let res_units = res_intg_units + res_frac_units;
 
@@ -582,7 +583,7 @@ fn div_abs(
             i -= 1;
             j -= 1;
         }
-        res.intg = res_intg as i8;
+        res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
         res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
         return Ok(());
     }
@@ -591,17 +592,19 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    let mut buf1 = [0i32; MAX_UNITS * 3]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
+    // zero units below lhs, enough for each quotient unit and all units of rhs
+    let buf1_start = res_units + rhs_non_zero as usize;
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[buf1_start..buf1_start + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = buf1_start + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[buf1_start..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -627,7 +630,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = buf1_start as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -639,16 +642,18 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
+        // qhat cannot be greater or equal to UNIT
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
             // check if qhat can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
+            if rhat >= UNIT as i64 {
+                break;
+            }
         }
         // D4. multiply and subtract
         let mut ms_idx: isize = i - rhs_non_zero;
@@ -673,23 +678,24 @@ fn div_abs(
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut carry = 0;
+            for (b1, b2) in buf1[(i - rhs_non_zero) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..rhs_non_zero as usize + 1].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, carry);
+                *b1 = r0;
+                carry = c0;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
     }
-    res.intg = res_intg as i8;
+    res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
-- 
2.43.0


From 2faaf74fdccfb6cefbf93680c2a3bde1ae90e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 6/8] fix: remainder corrects its quotient estimate and aligns
 wide dividends

The estimate was neither clamped to one unit nor added back properly, and a
smaller dividend with leading zero groups was copied past nine groups.
---
 src/arith.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 86e7a84..523c9af 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -747,9 +747,11 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         Ordering::Less => {
             if rfu > lfu {
                 // rhs has higher fractional precision
-                res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+                // leading zero units of lhs may not fit, so drop them
+                let lhs_units = lhs_non_zero as usize + 1;
+                res.lsu[rfu - lfu..rfu - lfu + lhs_units].copy_from_slice(&lhs.lsu[..lhs_units]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
+                res.intg = lhs_intg.min((lhs.intg_non_zero_units() * DIGITS_PER_UNIT) as i8);
                 return Ok(());
             }
             // lhs has higher or same fractional precision
@@ -873,15 +875,18 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
+        // qhat cannot be greater or equal to UNIT
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
             // check if qhat can satisfy next unit
             qhat -= 1;
             rhat += d0;
+            if rhat >= UNIT as i64 {
+                break;
+            }
         }
         // D4. multiply and subtract
         let mut carry: i64 = 0;
@@ -901,13 +906,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut carry = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, carry);
+                *b1 = r0;
+                carry = c0;
             }
         }
         buf1[(i + 1) as usize] = 0;
-- 
2.43.0


From bb48c5aa8086b89070e107560a32abaf87801d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 7/8] fix: rounding keeps the value at group boundaries and at
 capacity

Rounding left of the point at a group boundary ignored the dropped digit,
rounding at the top digit gave zero, widening left garbage in the new groups
or ran past nine groups, and a carry out of the ninth group panicked.
---
 src/round.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..de53702 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,5 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_FRAC, MAX_UNITS, UNIT};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -17,15 +17,19 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is greater than current decimal's precision
+            let frac = self.limit_frac(frac);
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
                 self.frac = frac as i8;
                 return;
             }
-            // copy with offset
+            // copy with offset, leading zero units may not fit
+            let intg_units = intg_units.min(MAX_UNITS - round_frac_units);
             self.lsu
                 .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
+            self.lsu[..round_frac_units - frac_units].fill(0);
+            self.limit_intg(intg_units);
             self.frac = frac as i8;
             return;
         }
@@ -34,8 +38,8 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 self.set_zero();
                 return;
             }
@@ -43,6 +47,10 @@ impl FixedDecimal {
             for v in &mut self.lsu[intg_units..frac_units + intg_units] {
                 *v = 0; // reset higher units to zero
             }
+            if mod9(intg as i8) == 0 && self.lsu[div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                // at edge of one unit
+                carry = 1;
+            }
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
@@ -90,6 +98,7 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is larger than or equal to current decimal's precision
+            let frac = self.limit_frac(frac);
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -98,10 +107,12 @@ impl FixedDecimal {
                 res.lsu = self.lsu;
                 return;
             }
-            // copy with offset
+            // copy with offset, leading zero units may not fit
+            let intg_units = intg_units.min(MAX_UNITS - round_frac_units);
             res.lsu[round_frac_units - frac_units..round_frac_units + intg_units]
                 .copy_from_slice(&self.lsu[..frac_units + intg_units]);
             res.intg = self.intg;
+            res.limit_intg(intg_units);
             res.frac = frac as i8;
             return;
         }
@@ -110,12 +121,16 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 res.set_zero();
                 return;
             }
             res.lsu[..intg_units].copy_from_slice(&self.lsu[frac_units..frac_units + intg_units]); // remove fractional units
+            if mod9(intg as i8) == 0 && res.lsu[div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                // at edge of one unit
+                carry = 1;
+            }
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
@@ -154,6 +169,23 @@ impl FixedDecimal {
         }
         round_half_up(res, intg_units, frac_units, trunc, round_frac, carry);
     }
+
+    /// limits frac so that all integral digits can still be stored.
+    #[inline]
+    fn limit_frac(&self, frac: isize) -> isize {
+        let max_frac = (MAX_UNITS - self.intg_non_zero_units()) * DIGITS_PER_UNIT;
+        frac.min((max_frac.min(MAX_FRAC) as isize).max(self.frac() as isize))
+    }
+
+    /// limits integral digits to given number of units.
+    #[inline]
+    fn limit_intg(&mut self, intg_units: usize) {
+        let neg = self.is_neg();
+        self.intg = self.intg().min((intg_units * DIGITS_PER_UNIT) as i8);
+        if neg {
+            self.set_neg();
+        }
+    }
 }
 
 fn round_half_up(
@@ -161,7 +193,7 @@ fn round_half_up(
     mut intg_units: usize,
     frac_units: usize,
     trunc: isize,
-    round_frac: i8,
+    mut round_frac: i8,
     mut carry: i32,
 ) {
     let mut round_idx = div9(trunc as i8);
@@ -250,7 +282,15 @@ fn round_half_up(
             }
         }
         if carry > 0 {
-            fd.lsu[end_idx] = 1;
+            if end_idx == MAX_UNITS {
+                // no unit left for carry, all kept units are zero,
+                // so give up the lowest fractional unit.
+                assert!(frac_units > 0, "rounding overflow");
+                fd.lsu[end_idx - 1] = 1;
+                round_frac = round_frac.min(((frac_units - 1) * DIGITS_PER_UNIT) as i8);
+            } else {
+                fd.lsu[end_idx] = 1;
+            }
             intg_units += 1;
         }
     }
-- 
2.43.0


From abaa3f1d14262728055e574f517300665dd774a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 8/8] fix: parsing without reset clears units left by the
 previous value

---
 src/serde.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serde.rs b/src/serde.rs
index 7eda6ad..f07c2ed 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -247,6 +247,8 @@ impl FixedDecimal {
             }
             self.lsu[up as usize] = out; // write lsu
         }
+        // units of the previous value may be left above
+        self.lsu[intg_units + frac_units..].fill(0);
         self.intg = digits - frac;
         self.frac = frac;
         if neg {
-- 
2.43.0

