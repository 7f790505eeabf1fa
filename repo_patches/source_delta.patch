From bff1ea546d466ba950d11d01465551ebeb6352b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 01/12] fix: right shift of a binary number by its whole length
 or more is zero

---
 src/ubig/ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..61147ee 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -770,7 +770,11 @@ where BinaryDigit<T>: Digit
     fn shr_assign(&mut self, n: usize)
     {
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
-        if high != 0
+        if high >= self.nr_digits()
+        {
+            self.digits.clear();
+        }
+        else if high != 0
         {
             self.digits.drain(..high);
         }
-- 
2.43.0


From 30ad514f499df38751d80fee7b690ef943e8ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 02/12] fix: left shift of a binary zero by whole digits stays
 zero

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 61147ee..6783c41 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -713,7 +713,7 @@ where BinaryDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        if high != 0
+        if high != 0 && !self.is_zero()
         {
             self.digits.splice(..0, std::iter::repeat(BinaryDigit::zero()).take(high));
         }
-- 
2.43.0


From 5869ca2ea802965fb2ea04b9323ad84054306d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 03/12] fix: right shift of a decimal number by many bits is no
 longer unimplemented

---
 src/ubig/ops.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 6783c41..93584cf 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -802,10 +802,16 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.truncate(nd);
             }
         }
+        else if n >= 8 * std::mem::size_of::<T>() * self.nr_digits()
+        {
+            // All bits are shifted out
+            self.digits.clear();
+        }
         else
         {
-            // FIXME
-            unimplemented!()
+            let two = UBig::one() + UBig::one();
+            let scale = two.pow(n);
+            *self /= scale;
         }
     }
 }
-- 
2.43.0


From 4875bd7be32a6d6f71d3dbe80a8c53f3325b70d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 04/12] fix: subtracting a machine integer leaves no leading
 zeros, and keeps the top digit of decimal numbers

---
 src/ubig/ops.rs | 13 +++++++++++--
 src/ubig/sub.rs |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 93584cf..25e3815 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -873,9 +873,18 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         {
             let (high, low) = DecimalDigit::split(n);
             *self -= low;
-            match super::sub::sub_assign_digit(&mut self.digits[1..], high)
+            let res = match self.digits.get_mut(1..)
             {
-                Ok(nd) => { self.digits.truncate(nd); },
+                Some(upper) => super::sub::sub_assign_digit(upper, high),
+                None => Err(crate::result::Error::Underflow)
+            };
+            match res
+            {
+                Ok(nd) => {
+                    self.digits.truncate(nd + 1);
+                    let nd = super::support::drop_leading_zeros(&self.digits, nd + 1);
+                    self.digits.truncate(nd);
+                },
                 Err(err) => { panic!("Failed to subtract: {}", err); }
             }
         }
diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..bf888a2 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -73,7 +73,7 @@ where T: Digit
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
-- 
2.43.0


From 85bd7b7c4f47a07752951b7d7e660a4126869264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 05/12] fix: subtraction with a borrow out of the shorter
 number leaves no leading zeros

---
 src/ubig/sub.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index bf888a2..9fee92b 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -95,7 +95,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(nr0, n1 + nd))
         }
         else
         {
@@ -136,7 +136,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(diff, n1 + nd))
         }
         else
         {
-- 
2.43.0


From 19aeea008e84f769740e9dbd962ddab843288c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 06/12] fix: parsing rejects empty numbers and signs between
 digits

---
 src/ubig.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..8362b7a 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -399,6 +399,20 @@ where T: DigitStorage, DecimalDigit<T>: Digit
     }
 }
 
+/// Check that `s` consists of one or more digits in base `radix`, and nothing else. If not, an
+/// `InvalidNumber` error is returned.
+fn check_number_str(s: &str, radix: u32) -> Result<()>
+{
+    if s.is_empty() || !s.bytes().all(|c| char::from(c).is_digit(radix))
+    {
+        Err(Error::InvalidNumber)
+    }
+    else
+    {
+        Ok(())
+    }
+}
+
 impl<T> std::str::FromStr for UBig<BinaryDigit<T>>
 where T: DigitStorage, BinaryDigit<T>: Digit
 {
@@ -412,6 +426,7 @@ where T: DigitStorage, BinaryDigit<T>: Digit
         }
         else if let Some(s) = s.strip_prefix("0x")
         {
+            check_number_str(s, 16)?;
             let mut digits = Vec::with_capacity(s.len() / BinaryDigit::<T>::NR_HEX_PLACES + 1);
             for part in s.as_bytes().rchunks(BinaryDigit::<T>::NR_HEX_PLACES)
             {
@@ -422,6 +437,8 @@ where T: DigitStorage, BinaryDigit<T>: Digit
         }
         else
         {
+            let s = s.strip_prefix('+').unwrap_or(s);
+            check_number_str(s, 10)?;
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let ten = (T::one() << 3) + (T::one() << 1);
             let scale = BinaryDigit(ten.pow(BinaryDigit::<T>::MAX_DECIMAL_PLACES));
@@ -449,6 +466,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else if let Some(s) = s.strip_prefix("0x")
         {
+            check_number_str(s, 16)?;
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let scale = DecimalDigit(T::one() << (4 * DecimalDigit::<T>::MAX_HEX_PLACES));
             let mut result = Self::zero();
@@ -461,6 +479,8 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else
         {
+            let s = s.strip_prefix('+').unwrap_or(s);
+            check_number_str(s, 10)?;
             let mut digits = Vec::with_capacity(s.len() / DecimalDigit::<T>::NR_DECIMAL_PLACES + 1);
             for part in s.as_bytes().rchunks(DecimalDigit::<T>::NR_DECIMAL_PLACES)
             {
-- 
2.43.0


From 84f478139d2de894bc2d0634035e4fbc6a7577e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 07/12] fix: decimal conversion keeps zero digits between the
 high and low parts

---
 src/ubig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 8362b7a..1c54204 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -332,7 +332,12 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
-                res.digits.extend(high_dec.digits);
+                if !high_dec.is_zero()
+                {
+                    // scales[idx] is 10^nr_dec, so the low part takes up exactly 2^idx digits
+                    res.digits.resize(1 << idx, DecimalDigit::zero());
+                    res.digits.extend(high_dec.digits);
+                }
                 res
             }
         }
-- 
2.43.0


From 4977e2a0ad29f6169b9eb2e064233891149f41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 08/12] fix: quotient digit estimates in long division stay
 within a single digit

---
 src/ubig/div.rs      |  8 ++++++--
 src/ubig/div/long.rs | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..a7371a2 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -99,8 +99,12 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    let mut quot = T::MAX;
+                    if rem_high < den_high
+                    {
+                        quot = rem_low;
+                        quot.div_carry_assign(den_high, rem_high);
+                    }
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..a26f115 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -96,14 +96,25 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        q = T::MAX;
+        if num[iq+nden] < msd
+        {
+            q = num[iq+nden-1];
+            q.div_carry_assign(msd, num[iq+nden]);
+        }
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From 61bd358dbf36e7dc3a8459f55d1e9182db5a96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 09/12] fix: division by decimal numbers does not overflow the
 divisor when normalising it

---
 src/ubig/div.rs      | 19 ++++++++++++++++++-
 src/ubig/div/bz.rs   |  8 ++++----
 src/ubig/div/long.rs |  2 +-
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index a7371a2..135ba9e 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -22,6 +22,23 @@ use crate::ubig::support::drop_leading_zeros;
 /// Minimum number of digits in denominator for using Burnikel-Ziegler division
 const BZ_CUTOFF: usize = 20;
 
+/// Return the maximum number of places the number represented by the digits in `nr` can be shifted
+/// left without the result needing more digits. Note that for decimal numbers, the carry from the
+/// lower digits can make this one less than the maximum shift of the most significant digit. The
+/// number `nr` should not be empty.
+fn max_shift<T>(nr: &[T]) -> usize
+where T: Digit
+{
+    let shift = nr[nr.len()-1].max_shift() as usize;
+    if shift == 0
+    {
+        return 0;
+    }
+
+    let carry = nr.iter().fold(T::zero(), |carry, &d| { let mut d = d; d.shl_carry_assign(shift, carry) });
+    if carry.is_zero() { shift } else { shift - 1 }
+}
+
 /// Calculate the remainder after dividing the number or number part represented by the digits in
 /// `nr` by the single digit `fac`. If `fac` is zero, a `DivisionByZero` error is returned.
 pub fn rem_digit<T>(nr: &[T], fac: T) -> Result<T>
@@ -86,7 +103,7 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
+                let shift = max_shift(&[fac_low, fac_high]);
                 let (mut den_low, mut den_high) = (fac_low, fac_high);
                 let mut rem_high = T::zero();
                 if shift > 0
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..b67f5f3 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,13 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = super::max_shift(den);
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift, T::zero());
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +58,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index a26f115..785bcc1 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -39,7 +39,7 @@ where T: Digit
         || (quot.len() >= nnum - nden && crate::ubig::cmp::lt(&num[nnum-nden..], den)));
     debug_assert!(work.len() >= calc_div_long_work_size(nden));
 
-    let shift = den[nden-1].max_shift() as usize;
+    let shift = super::max_shift(den);
     if shift == 0
     {
         div_big_long_scaled(num, T::zero(), den, quot, work)
-- 
2.43.0


From 3fbf39cda01dc2d40750941f8518ac09706c65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 10/12] fix: division by zero leaves the dividend unchanged

---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 1c54204..4a98dad 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -233,7 +233,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if nden == 0
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From cefef17b29655cbb33bd75f111c6151452596098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 11/12] hook: small algorithm cutoffs under cfg(babs_verif)

---
 src/ubig.rs     | 3 +++
 src/ubig/div.rs | 3 +++
 src/ubig/mul.rs | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/src/ubig.rs b/src/ubig.rs
index 4a98dad..5e8b5b7 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -30,7 +30,10 @@ use std::fmt::Write;
 
 /// Minimum number size (in digits) for which the conversion from binary to decimal numbers uses
 /// division by powers of 10 instead of building up the result by shifting and adding
+#[cfg(not(babs_verif))]
 const TO_DEC_DIV_CUTOFF: usize = 16;
+#[cfg(babs_verif)] // small sizes, for verification only
+const TO_DEC_DIV_CUTOFF: usize = 4;
 
 /// Structure describing a big number as a series of digits. The base of the number is determined
 /// by the digit type `T`. The digits are stored in little-endian order, i.e. the least significant
diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index 135ba9e..ae57bee 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -20,7 +20,10 @@ use crate::result::{Error, Result};
 use crate::ubig::support::drop_leading_zeros;
 
 /// Minimum number of digits in denominator for using Burnikel-Ziegler division
+#[cfg(not(babs_verif))]
 const BZ_CUTOFF: usize = 20;
+#[cfg(babs_verif)] // small sizes, for verification only
+const BZ_CUTOFF: usize = 6;
 
 /// Return the maximum number of places the number represented by the digits in `nr` can be shifted
 /// left without the result needing more digits. Note that for decimal numbers, the carry from the
diff --git a/src/ubig/mul.rs b/src/ubig/mul.rs
index 6dbb334..6d42193 100644
--- a/src/ubig/mul.rs
+++ b/src/ubig/mul.rs
@@ -19,9 +19,15 @@ mod toom3;
 use crate::digit::Digit;
 
 /// The minimum size of a number (in digits) for Karatsuba multiplication. Should be at least 4.
+#[cfg(not(babs_verif))]
 const KARATSUBA_CUTOFF: usize = 20;
+#[cfg(babs_verif)] // small sizes, for verification only
+const KARATSUBA_CUTOFF: usize = 4;
 /// The minimum size of a number (in digits) for Toom-Cook multiplication.
+#[cfg(not(babs_verif))]
 const TOOM3_CUTOFF: usize = 128;
+#[cfg(babs_verif)] // small sizes, for verification only
+const TOOM3_CUTOFF: usize = 8;
 
 /// Double the number or number part in `nr`, and add carry to the result. Returns `true` if the
 /// result overflows, `flase` otherwise.
-- 
2.43.0


From 09e589c8afcfbb05bd82185639be34463a7c9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 12/12] fix: squaring large numbers does not depend on the
 contents of the scratch space

---
 src/ubig/mul/toom3.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..ab38e54 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,9 +306,11 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
+    work.fill(T::zero());
     let (r1, work) = work.split_at_mut(2*b+3);
     let (rm1, rm2) = work.split_at_mut(2*b+3);
 
-- 
2.43.0

