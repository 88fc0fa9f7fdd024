From a551f3cd3d54f8ac36d0501e30b8986846b2e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 1/9] fix: addition and subtraction of operands that fill all
 nine units

The scan for the leading non-zero unit started one unit too high and read
past the array when the aligned operands occupy all units. Operands that do
not fit when aligned, and a carry out of the ninth unit, now return
Error::Overflow instead of panicking.
---
 src/arith.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..1cdf9fd 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -202,6 +202,10 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     let lfu = lhs.frac_units();
     let riu = rhs.intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        // aligned operands do not fit into the units
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -242,6 +246,10 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             lhs_idx += 1;
         }
         if carry > 0 {
+            if res_idx == MAX_UNITS as isize {
+                res.set_zero();
+                return Err(Error::Overflow);
+            }
             res.lsu[res_idx as usize] = carry;
         }
     } else if intg_unit_diff < 0 {
@@ -255,14 +263,22 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             rhs_idx += 1;
         }
         if carry > 0 {
+            if res_idx == MAX_UNITS as isize {
+                res.set_zero();
+                return Err(Error::Overflow);
+            }
             res.lsu[res_idx as usize] = carry;
         }
     } else if carry != 0 {
         // no more intg but carry is non-zero
+        if res_idx == MAX_UNITS as isize {
+            res.set_zero();
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -295,6 +311,10 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     let lfu = lhs.frac_units();
     let riu = rhs.intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        // aligned operands do not fit into the units
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +387,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
-- 
2.43.0


From 9f30d3ebbe495094279286d33608fa04c0682fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 2/9] fix: multiplication panics on large digit counts and
 truncated rows

The sum of the integral digits can exceed i8, and rows whose products are
all below the kept fraction are legal: skip them instead of asserting.
---
 src/arith.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arith.rs b/src/arith.rs
index 1cdf9fd..f39ea52 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -409,6 +409,10 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
+    if lhs.intg() as usize + rhs.intg() as usize > MAX_UNITS * DIGITS_PER_UNIT {
+        // integral overflow, the sum of digits may not even fit into i8
+        return Err(Error::Overflow);
+    }
     let res_intg_digits = lhs.intg() + rhs.intg();
     let res_intg_units = get_units(res_intg_digits);
     let res_frac_digits = lhs.frac() + rhs.frac();
@@ -459,7 +463,10 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        if res_idx < -1 {
+            // all products of this unit are truncated
+            continue;
+        }
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
-- 
2.43.0


From 1aa5523d60150d168754fe6cc5e6c3f069e6f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 3/9] fix: long division and remainder compute wrong digits

The add-back step of Knuth's algorithm D negated the partial remainder
instead of adding the divisor back, a quotient guess of UNIT or more was
asserted impossible although it is legal and must be decreased, the partial
remainder was truncated below the dividend, and its buffer was one unit
short. A huge incr_frac no longer wraps when narrowed.
---
 src/arith.rs | 64 +++++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index f39ea52..998f9d0 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -83,6 +83,8 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
+        // result never has more than MAX_FRAC_UNITS, larger increment has no effect
+        let incr_frac = incr_frac.min(MAX_FRAC_UNITS * DIGITS_PER_UNIT);
         div_abs(lhs, rhs, res, incr_frac as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
@@ -607,17 +609,19 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    let mut buf1 = [0i32; MAX_UNITS * 3]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
+    // keep enough units below lhs, so the partial remainder is never truncated
+    let buf1_start = res_units + rhs_non_zero as usize;
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[buf1_start..buf1_start + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = buf1_start + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[buf1_start..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -643,7 +647,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = buf1_start as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -655,13 +659,11 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
             // check if qhat can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
@@ -675,32 +677,26 @@ fn div_abs(
             let mul_v = qhat * buf2[k as usize] as i64 + carry; // mul
             carry = mul_v / UNIT as i64; // update carry
             let mul_v0 = mul_v - carry * UNIT as i64; // in current unit
-            if ms_idx < 0 {
-                let (_, b0) = sub_with_borrow(0, mul_v0 as i32, borrow);
-                borrow = b0;
-            } else {
-                let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
-                buf1[ms_idx as usize] = sub_v;
-                borrow = b0;
-            }
+            let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
+            buf1[ms_idx as usize] = sub_v;
+            borrow = b0;
             k += 1;
             ms_idx += 1;
         }
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut add_carry: i32 = 0;
+            for k in 0..=rhs_non_zero {
+                let idx = (i - rhs_non_zero + k) as usize;
+                let (r0, c0) = add_with_carry(buf1[idx], buf2[k as usize], add_carry);
+                buf1[idx] = r0;
+                add_carry = c0;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // highest unit of partial remainder is always consumed
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
@@ -883,12 +879,11 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
             // check if qhat can satisfy next unit
             qhat -= 1;
             rhat += d0;
@@ -911,13 +906,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut add_carry: i32 = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, add_carry);
+                add_carry = c0;
+                *b1 = r0;
             }
         }
         buf1[(i + 1) as usize] = 0;
-- 
2.43.0


From 8071aa30777d4a99808c166f39a46823282e28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 4/9] fix: remainder panics when leading zero units of dividend
 do not fit

Only the units up to the leading non-zero one are moved to the scale of the
divisor.
---
 src/arith.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 998f9d0..2ef21d4 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -753,9 +753,11 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         Ordering::Less => {
             if rfu > lfu {
                 // rhs has higher fractional precision
-                res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+                // leading zeroes of lhs may not fit, only copy till leading non-zero
+                let lhs_len = lhs_non_zero as usize + 1;
+                res.lsu[rfu - lfu..rfu - lfu + lhs_len].copy_from_slice(&lhs.lsu[..lhs_len]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
+                res.intg = lhs_intg.min(((MAX_UNITS - rfu) * DIGITS_PER_UNIT) as i8);
                 return Ok(());
             }
             // lhs has higher or same fractional precision
-- 
2.43.0


From cfc88e83a2d6e16143b76ced2106a6dbddc7550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 5/9] fix: rounding of integral digits and to a larger scale

Rounding in place to a larger scale left stale units behind, a scale beyond
the capacity panicked, rounding at the leading digit always gave zero, and
rounding at a multiple of nine integral digits never rounded up.
---
 src/round.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..011a192 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,7 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{
+    FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_FRAC_UNITS, MAX_UNITS, UNIT,
+};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -17,6 +19,7 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is greater than current decimal's precision
+            let frac = frac.min(max_frac_digits(intg_units));
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -26,6 +29,7 @@ impl FixedDecimal {
             // copy with offset
             self.lsu
                 .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
+            self.lsu[..round_frac_units - frac_units].fill(0); // reset units vacated by the copy
             self.frac = frac as i8;
             return;
         }
@@ -34,8 +38,8 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 self.set_zero();
                 return;
             }
@@ -90,6 +94,7 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is larger than or equal to current decimal's precision
+            let frac = frac.min(max_frac_digits(intg_units));
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -110,8 +115,8 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 res.set_zero();
                 return;
             }
@@ -156,6 +161,13 @@ impl FixedDecimal {
     }
 }
 
+/// maximum fractional digits that can be stored together with given
+/// integral units.
+#[inline]
+fn max_frac_digits(intg_units: usize) -> isize {
+    (MAX_FRAC_UNITS.min(MAX_UNITS - intg_units) * DIGITS_PER_UNIT) as isize
+}
+
 fn round_half_up(
     fd: &mut FixedDecimal,
     mut intg_units: usize,
@@ -238,6 +250,9 @@ fn round_half_up(
         }
         fd.lsu[round_idx] = u;
         round_idx += 1;
+    } else if round_idx > 0 && fd.lsu[round_idx - 1] >= HALF_UNIT {
+        // at edge of one unit, check rounding on the unit below
+        carry = 1;
     }
     let end_idx = intg_units + frac_units;
     if carry > 0 {
-- 
2.43.0


From a466656ad985455b71423ef651ed70c2fbf6f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 6/9] fix: negative zero is distinct from zero

Parsing "-0", rounding a small negative number and set_neg on zero created
a negative zero that compares less than zero and fails to convert to u64.
---
 src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..4956286 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -65,7 +65,10 @@ impl FixedDecimal {
 
     #[inline]
     pub fn set_neg(&mut self) {
-        self.intg |= 0x80u8 as i8;
+        // zero has no sign
+        if !self.is_zero() {
+            self.intg |= 0x80u8 as i8;
+        }
     }
 
     #[inline]
-- 
2.43.0


From a4497567a102c7579dbf283d64229b21afa9337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 7/9] fix: equal decimals with different number of units hash
 differently

Eq compares numeric value, so Hash must not depend on leading or trailing
zero units.
---
 src/decimal.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4956286..366f74d 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -170,20 +170,28 @@ impl FixedDecimal {
 
 /// Simple hash implementation on FixedDecimal.
 ///
-/// NOTE: Same numeric values with different number of
-/// internal units will have different hash code.
+/// Leading zero units of integral part and trailing zero units
+/// of fractional part are ignored, so same numeric values always
+/// have same hash code.
 impl Hash for FixedDecimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
         // hash neg flag
         state.write_u8(if self.is_neg() { 1 } else { 0 });
+        let frac_units = self.frac_units();
+        let mut end = self.intg_units() + frac_units;
+        while end > frac_units && self.lsu[end - 1] == 0 {
+            end -= 1;
+        }
+        let mut start = 0;
+        while start < frac_units && self.lsu[start] == 0 {
+            start += 1;
+        }
         // hash nbr of intg units
-        let intg_units = self.intg_units();
-        state.write_u8(intg_units as u8);
+        state.write_u8((end - frac_units) as u8);
         // hash nbr of frac units
-        let frac_units = self.frac_units();
-        state.write_u8(frac_units as u8);
+        state.write_u8((frac_units - start) as u8);
         // hash all units
-        for v in &self.lsu[..intg_units + frac_units] {
+        for v in &self.lsu[start..end] {
             state.write_u32(*v as u32)
         }
     }
-- 
2.43.0


From 6e76b2a38f521dd84700cc59263721c1b3f4e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 8/9] fix: parsing panics or wraps on long input and
 out-of-range scale

More than 127 digits, an exponent of ten digits, or a digit count beyond i8
after applying the exponent overflowed, and a scale above MAX_FRAC was
accepted although later operations can not represent it.
---
 src/serde.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..56f5c3b 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -34,6 +34,9 @@ impl FixedDecimal {
                 // test for digit char
                 last = i as isize;
                 d += 1;
+                if d as usize > MAX_DIGITS {
+                    return Err(Error::ConversionSyntax);
+                }
                 continue;
             }
             if *c == b'.' && dotchar == -1 {
@@ -108,13 +111,13 @@ impl FixedDecimal {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
+                // maximum exponent is 65, with sign at most 4 chars
+                if i >= firstexp + 3 {
+                    return Err(Error::ConversionSyntax);
+                }
                 exp = exp * 10 + *c as i32 - '0' as i32;
                 i += 1
             }
-            // maximum exponent is 65, with sign at most 4 chars
-            if i >= firstexp + 4 {
-                return Err(Error::ConversionSyntax);
-            }
             if (!nege && exp as usize > MAX_DIGITS) || (nege && exp as usize > MAX_FRAC) {
                 return Err(Error::ConversionSyntax);
             }
@@ -148,6 +151,9 @@ impl FixedDecimal {
                     }
                 }
                 Ordering::Less => {
+                    if d as isize - frac as isize > MAX_DIGITS as isize {
+                        return Err(Error::ConversionSyntax);
+                    }
                     digits = d - frac;
                     frac = 0;
                 }
@@ -155,7 +161,7 @@ impl FixedDecimal {
             (frac, digits, heading_zeroes)
         };
 
-        if digits as usize > MAX_DIGITS {
+        if digits as usize > MAX_DIGITS || frac as usize > MAX_FRAC {
             return Err(Error::ConversionSyntax);
         }
 
-- 
2.43.0


From f16b83324334275c4aefc22dcbc1fe9c6562d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 9/9] fix: division quotient with an integral digit count that
 covers its digits

The digit count was derived from the operands' digit counts and a group-wise
comparison, so 5000000000 / 20 = 250000000 claimed eight integral digits and
multiplying it by 7 lost the top group.
---
 src/arith.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 2ef21d4..555b195 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -573,7 +573,6 @@ fn div_abs(
         res_intg_units = 0;
         let res_start_offset = get_units((1 - res_intg) as i8) as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
-        res_intg = 0;
     }
     let res_units = res_intg_units + res_frac_units;
 
@@ -600,7 +599,7 @@ fn div_abs(
             i -= 1;
             j -= 1;
         }
-        res.intg = res_intg as i8;
+        res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
         res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
         return Ok(());
     }
@@ -701,7 +700,7 @@ fn div_abs(
         i -= 1;
         j -= 1;
     }
-    res.intg = res_intg as i8;
+    res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
-- 
2.43.0

