From 1e8db62dfbced4ecbaa01201311a665f2f4997b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 01/14] fix: subtract a primitive of two decimal digits as a
 two-digit number

Truncating to the digit count of the part above the lowest digit lost digits,
and subtracting from zero or from an equal low digit indexed past the end.
---
 src/ubig/ops.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..12d9838 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -862,12 +862,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         else
         {
             let (high, low) = DecimalDigit::split(n);
-            *self -= low;
-            match super::sub::sub_assign_digit(&mut self.digits[1..], high)
-            {
-                Ok(nd) => { self.digits.truncate(nd); },
-                Err(err) => { panic!("Failed to subtract: {}", err); }
-            }
+            *self -= UBig { digits: vec![low, high] };
         }
     }
 }
-- 
2.43.0


From 5695351ffdf0811c252b64837521ba4887c3c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 02/14] fix: drop the leading zero when a digit is subtracted
 from itself

---
 src/ubig/sub.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..bf888a2 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -73,7 +73,7 @@ where T: Digit
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
-- 
2.43.0


From b8bd220c9b1f51db9b9c2546ac72934b236b507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 03/14] fix: drop all leading zeros when a borrow consumes the
 leading digits

---
 src/ubig/sub.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index bf888a2..9fee92b 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -95,7 +95,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(nr0, n1 + nd))
         }
         else
         {
@@ -136,7 +136,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(diff, n1 + nd))
         }
         else
         {
-- 
2.43.0


From f0beffe647d7e55723d1a8fe1eaaacb43eed42af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 04/14] fix: keep zero without digits when it is shifted left
 by whole digits

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 12d9838..9295b07 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -713,7 +713,7 @@ where BinaryDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        if high != 0
+        if high != 0 && !self.digits.is_empty()
         {
             self.digits.splice(..0, std::iter::repeat(BinaryDigit::zero()).take(high));
         }
-- 
2.43.0


From 8b3fe21ab86f5d5e2753eeb1a4039aaab6e9b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 05/14] fix: shift right beyond the length of a binary number
 gives zero

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 9295b07..4d6288c 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -772,7 +772,7 @@ where BinaryDigit<T>: Digit
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
         if high != 0
         {
-            self.digits.drain(..high);
+            self.digits.drain(..high.min(self.digits.len()));
         }
         if low != 0
         {
-- 
2.43.0


From bfb7e1f2dd05a3862584fc79809935dff3cb1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 06/14] fix: implement right shift of decimal numbers over any
 distance

---
 src/ubig/ops.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 4d6288c..e1ad92c 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -790,18 +790,17 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 {
     fn shr_assign(&mut self, n: usize)
     {
-        if n <= 4 * DecimalDigit::<T>::MAX_HEX_PLACES
+        // Larger shifts are done in steps that fit in a digit
+        let mut n = n;
+        while n > 0 && !self.digits.is_empty()
         {
-            let (nd, _) = super::shr::shr_carry_assign_within_digit(&mut self.digits, n, DecimalDigit::zero());
+            let step = n.min(4 * DecimalDigit::<T>::MAX_HEX_PLACES);
+            let (nd, _) = super::shr::shr_carry_assign_within_digit(&mut self.digits, step, DecimalDigit::zero());
             if nd < self.nr_digits()
             {
                 self.digits.truncate(nd);
             }
-        }
-        else
-        {
-            // FIXME
-            unimplemented!()
+            n -= step;
         }
     }
 }
-- 
2.43.0


From 2314f663552bc50a1057b391a00a65cdcaa9136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 07/14] fix: leave the dividend alone when division by zero is
 refused

---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..552fc90 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -233,7 +233,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if nden == 0
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From 8de92e752724e11f6bf2db534f8193668d53803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 08/14] fix: do not store a first quotient digit that is
 corrected to zero

The quotient need not have space for it.
---
 src/ubig/div/long.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..c026855 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -95,8 +95,15 @@ where T: Digit
             }
         }
 
-        let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
-- 
2.43.0


From 6dfdc2b40140126632b27b6306aac66b4c7689d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 09/14] fix: limit estimated quotient digits to the largest
 digit

When the remainder and the divisor start with the same digit, the estimate
overflowed, giving a wrong quotient.
---
 src/ubig/div.rs      | 10 ++++++++--
 src/ubig/div/long.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..bd26d14 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -99,8 +99,14 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    // When the leading digits are equal, the quotient by the leading digit does
+                    // not fit in a single digit, and the largest digit is the estimate.
+                    let mut quot = T::MAX;
+                    if rem_high < den_high
+                    {
+                        quot = rem_low;
+                        quot.div_carry_assign(den_high, rem_high);
+                    }
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index c026855..3fef235 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -109,8 +109,14 @@ where T: Digit
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        // When the leading digits are equal, the quotient of the first two digits by the first does
+        // not fit in a single digit, and the largest digit is the estimate.
+        q = T::MAX;
+        if num[iq+nden] < msd
+        {
+            q = num[iq+nden-1];
+            q.div_carry_assign(msd, num[iq+nden]);
+        }
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From dce488ddfc7d86b66e14e618c83b298515e6094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 10/14] fix: scale decimal divisors without overflowing their
 leading digit

The carry from the lower digits was not taken into account when determining how
far a divisor can be shifted, and was lost.
---
 src/ubig/div.rs      |  7 +++----
 src/ubig/div/bz.rs   |  7 +++----
 src/ubig/div/long.rs |  5 ++---
 src/ubig/shl.rs      | 20 ++++++++++++++++++++
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index bd26d14..9a52638 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -86,13 +86,12 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
-                let (mut den_low, mut den_high) = (fac_low, fac_high);
+                let mut den = [fac_low, fac_high];
+                let shift = crate::ubig::shl::shl_assign_max(&mut den);
+                let [den_low, den_high] = den;
                 let mut rem_high = T::zero();
                 if shift > 0
                 {
-                    let carry = den_low.shl_carry_assign(shift, T::zero());
-                    den_high.shl_carry_assign(shift, carry);
                     rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
                 }
                 let mut rem_low = std::mem::replace(&mut nr[n-1], T::zero());
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..fbbc8e4 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,12 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = crate::ubig::shl::shl_assign_max(&mut sden);
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +57,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 3fef235..eee7452 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -39,8 +39,7 @@ where T: Digit
         || (quot.len() >= nnum - nden && crate::ubig::cmp::lt(&num[nnum-nden..], den)));
     debug_assert!(work.len() >= calc_div_long_work_size(nden));
 
-    let shift = den[nden-1].max_shift() as usize;
-    if shift == 0
+    if den[nden-1].max_shift() == 0
     {
         div_big_long_scaled(num, T::zero(), den, quot, work)
     }
@@ -50,7 +49,7 @@ where T: Digit
         // is at least half the radix of this number. This way, estimates for the quotient digits
         // in div_big_long_scaled() are at most 2 too high.
         let mut scaled_den = den.to_vec();
-        crate::ubig::shl::shl_carry_assign_within_digit(&mut scaled_den, shift, T::zero());
+        let shift = crate::ubig::shl::shl_assign_max(&mut scaled_den);
         let num_msd = crate::ubig::shl::shl_carry_assign_within_digit(num, shift, T::zero());
         let qden = &mut work[..nden+1];
         let (nquot, nrem) = div_big_long_scaled(num, num_msd, &scaled_den, quot, qden);
diff --git a/src/ubig/shl.rs b/src/ubig/shl.rs
index e4eb487..a0cf462 100644
--- a/src/ubig/shl.rs
+++ b/src/ubig/shl.rs
@@ -31,6 +31,26 @@ where T: Digit
     }
 }
 
+/// Shift the number represented by the digits in `nr` left by as many bits as possible without
+/// overflowing its most significant digit, which should not be zero, making that digit at least half
+/// the base. Returns the number of bits the number was shifted by.
+pub fn shl_assign_max<T>(nr: &mut [T]) -> usize
+where T: Digit
+{
+    let shift = nr[nr.len()-1].max_shift() as usize;
+    let carry = shl_carry_assign_within_digit(nr, shift, T::zero());
+    if carry.is_zero()
+    {
+        shift
+    }
+    else
+    {
+        // For decimal numbers, the carry from the lower digits can make the leading digit overflow
+        super::shr::shr_carry_assign_within_digit(nr, 1, carry);
+        shift - 1
+    }
+}
+
 #[cfg(test)]
 mod tests
 {
-- 
2.43.0


From a365c674912fbe131cd4221e8858badf27624200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 11/14] fix: clear the result before evaluating points in
 Toom-Cook squaring

---
 src/ubig/mul/toom3.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..f70b35a 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,6 +306,9 @@ where T: Digit
 
     let n = 2*nd0;
 
+    // The evaluation points below are extended in place, which requires that the digits above
+    // their current length are zero.
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
-- 
2.43.0


From 7b2baf215e1fef728cd53277ef7777f28650fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 12/14] fix: do not accept a sign inside the denotation of a
 number

---
 src/digit.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/digit.rs b/src/digit.rs
index 0852fde..03b9749 100644
--- a/src/digit.rs
+++ b/src/digit.rs
@@ -46,6 +46,20 @@ impl DigitStorage for u64
     const DECIMAL_RADIX: Self = 10_000_000_000_000_000_000;
 }
 
+/// Check that `s` contains only digits in base `base`. In contrast to the `from_str_radix()`
+/// functions on primitive types, a leading sign is not accepted.
+fn check_base_str(s: &str, base: u32) -> Result<()>
+{
+    if s.chars().all(|c| c.is_digit(base))
+    {
+        Ok(())
+    }
+    else
+    {
+        Err(Error::InvalidNumber)
+    }
+}
+
 /// Trait for a type that can be used as a digit in a big number
 pub trait Digit:
       Clone + Copy + Eq + Ord
@@ -161,6 +175,7 @@ macro_rules! impl_digit_binary
             #[inline]
             fn from_base_str(s: &str, base: u32) -> Result<Self>
             {
+                check_base_str(s, base)?;
                 let d = <$dt>::from_str_radix(s, base).map_err(|_| Error::InvalidNumber)?;
                 Ok(BinaryDigit(d))
             }
@@ -292,6 +307,7 @@ impl Digit for BinaryDigit<u64>
     #[inline]
     fn from_base_str(s: &str, base: u32) -> Result<Self>
     {
+        check_base_str(s, base)?;
         let d = u64::from_str_radix(s, base).map_err(|_| Error::InvalidNumber)?;
         Ok(BinaryDigit(d))
     }
@@ -522,6 +538,7 @@ macro_rules! impl_digit_decimal
             #[inline]
             fn from_base_str(s: &str, base: u32) -> Result<Self>
             {
+                check_base_str(s, base)?;
                 let d = <$dt>::from_str_radix(s, base).map_err(|_| Error::InvalidNumber)?;
                 if d < <$dt>::DECIMAL_RADIX
                 {
@@ -694,6 +711,7 @@ impl Digit for DecimalDigit<u64>
     #[inline]
     fn from_base_str(s: &str, base: u32) -> Result<Self>
     {
+        check_base_str(s, base)?;
         let d = <u64>::from_str_radix(s, base).map_err(|_| Error::InvalidNumber)?;
         if d < u64::DECIMAL_RADIX
         {
-- 
2.43.0


From f3ff2327469d3ea3b02bdeb3b78a30043b950b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 13/14] fix: pad the low part of a number converted to decimal
 in parts

---
 src/ubig.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 552fc90..6a5ca12 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -336,7 +336,13 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
-                res.digits.extend(high_dec.digits);
+                if !high_dec.is_zero()
+                {
+                    // scales[idx] is the decimal radix to the power 2**idx, the digits of the
+                    // high part start beyond that many digits
+                    res.digits.resize(1 << idx, DecimalDigit(T::zero()));
+                    res.digits.extend(high_dec.digits);
+                }
                 res
             }
         }
-- 
2.43.0


From aaa9f249705670d3ebb3866595adc7ff79dc10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 14/14] fix: shift a decimal zero left over any distance

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index e1ad92c..1b917a1 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -733,7 +733,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        else
+        else if !self.digits.is_empty()
         {
             let two = UBig::one() + UBig::one();
             let scale = two.pow(n);
-- 
2.43.0

