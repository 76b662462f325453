From 7e124c9ef740aebe4f074aea3b8ec17052f2da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 01/11] fix: free NumericBuf's buffer with the layout it was
 allocated with

---
 src/num.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..b6010d9 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -203,8 +203,14 @@ impl Drop for NumericBuf {
     #[inline]
     fn drop(&mut self) {
         if !self.buf.is_null() {
+            // the buffer was allocated as digits, so it must be freed as digits
+            let len = self.len / NUMERIC_DIGIT_SIZE;
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    len as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 2610088c1a73149d7b2029401939ffcb77c1e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 02/11] fix: keep the numeric when round_mut or apply_typmod
 overflows

---
 src/num.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index b6010d9..1fccc8e 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,12 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
-        var.round(scale);
-        match var.make_result() {
-            Some(result) => *self = result,
-            None => panic!(VALUE_OVERFLOW_MSG),
-        }
+        // Rounding may overflow, so leave `self` as it is until there is a result.
+        *self = self.round(scale);
     }
 
     /// Truncate a value to have `scale` digits after the decimal point.
@@ -137,9 +133,11 @@ impl NumericBuf {
     ///
     /// Returns true if overflows.
     ///
-    /// Notes that no matter whether overflows, `self` will be rounded.
+    /// Notes that no matter whether overflows, `self` will be rounded,
+    /// unless the rounded value cannot be represented at all.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
-        let mut var = self.as_var_owned();
+        // The result may overflow, so leave `self` as it is until there is one.
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From 69a9e937bec8dd519d41a557cebc216f659aa34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 03/11] fix: apply_typmod leaves NaN as NaN

---
 src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 1fccc8e..eacdd9b 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -136,6 +136,10 @@ impl NumericBuf {
     /// Notes that no matter whether overflows, `self` will be rounded,
     /// unless the rounded value cannot be represented at all.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        if self.is_nan() {
+            return false;
+        }
+
         // The result may overflow, so leave `self` as it is until there is one.
         let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
-- 
2.43.0


From 7463b1fcff246ba21165b1296cd2a129bc36abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 04/11] fix: Debug of NumericBuf no longer prints uninitialized
 memory

---
 src/num.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index eacdd9b..ccd5521 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -232,7 +232,8 @@ impl fmt::Debug for NumericBuf {
         let buf = if self.buf.is_null() {
             &[]
         } else {
-            unsafe { std::slice::from_raw_parts(self.buf, self.len as usize) }
+            // the buffer outside of the numeric may be uninitialized
+            self.as_bytes()
         };
 
         f.debug_struct("NumericBuf")
-- 
2.43.0


From 849c708fc70aab96d42dcf450520a12440f8df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 05/11] fix: converting a floating-point number no longer
 depends on the locale

---
 src/convert.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..baf2546 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -20,8 +20,6 @@ use crate::error::NumericTryFromError;
 use crate::num::{Numeric, NumericBuf};
 use crate::var::{NumericVar, NBASE};
 use std::convert::{TryFrom, TryInto};
-use std::ffi::CStr;
-use std::mem::MaybeUninit;
 
 /// Zero value.
 trait Zero: Copy + PartialEq {
@@ -289,11 +287,6 @@ macro_rules! impl_floating {
 impl_floating!(f32, 6);
 impl_floating!(f64, 15);
 
-extern "C" {
-    // format function in libc
-    fn snprintf(dest: *mut u8, size: usize, format: *const u8, ...);
-}
-
 /// Converts a floating-point number to numeric.
 fn from_floating<T: Floating>(f: T) -> Result<NumericBuf, NumericTryFromError> {
     if f.is_nan() {
@@ -304,21 +297,18 @@ fn from_floating<T: Floating>(f: T) -> Result<NumericBuf, NumericTryFromError> {
         return Err(NumericTryFromError::invalid());
     }
 
-    const BUF_SIZE: usize = 128;
+    // `snprintf` would depend on the locale of the process, so we use `format!`,
+    // which needs the trailing zeroes of the mantissa to be removed.
+    let s = format!("{:.*e}", T::PRECISION - 1, f.as_f64());
+    let (mantissa, exponent) = s.split_at(s.find('e').unwrap_or_else(|| s.len()));
+    let mantissa = if mantissa.contains('.') {
+        mantissa.trim_end_matches('0').trim_end_matches('.')
+    } else {
+        mantissa
+    };
 
-    unsafe {
-        let mut buf: [MaybeUninit<u8>; BUF_SIZE] = MaybeUninit::uninit().assume_init();
-        snprintf(
-            buf.as_mut_ptr() as *mut u8,
-            BUF_SIZE,
-            "%.*g\0".as_ptr(),
-            T::PRECISION,
-            f.as_f64(),
-        );
-        let s = CStr::from_ptr(buf.as_ptr() as *const i8).to_string_lossy();
-        let n = s.parse::<NumericBuf>()?;
-        Ok(n)
-    }
+    let n = [mantissa, exponent].concat().parse::<NumericBuf>()?;
+    Ok(n)
 }
 
 macro_rules! impl_from_signed {
-- 
2.43.0


From 2ca13c5c269b62db96005480520fa1ecb60c13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 06/11] fix: deserializing bytes that are not a well-formed
 numeric is an error

---
 src/binary.rs | 78 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/num.rs    |  8 ++++++
 2 files changed, 86 insertions(+)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..5f7e43a 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -43,6 +43,8 @@
 // The weight is arbitrary in that case, but we normally set it to zero.
 
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::{DEC_DIGITS, NBASE};
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
 use std::mem::size_of;
@@ -329,6 +331,82 @@ impl NumericBinary {
         }
     }
 
+    /// Checks that `bytes` are exactly one well-formed numeric.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        if bytes.len() < NUMERIC_HEADER_SIZE_SHORT || bytes.len() > 0x3FFF_FFFF {
+            return false;
+        }
+
+        let vl_len = u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        if vl_len != NumericBinary::encode_len(bytes.len() as u32) {
+            return false;
+        }
+
+        let word = |i: usize| u16::from_ne_bytes([bytes[i], bytes[i + 1]]);
+        let header = word(VAR_HEADER_SIZE as usize);
+        let flag_bits = header & NUMERIC_SIGN_MASK;
+
+        if flag_bits == NUMERIC_NAN {
+            return bytes.len() == NUMERIC_HEADER_SIZE_SHORT || bytes.len() == NUMERIC_HEADER_SIZE;
+        }
+
+        let (negative, weight, dscale, digits) = if flag_bits == NUMERIC_SHORT {
+            let mut weight = (header & NUMERIC_SHORT_WEIGHT_MASK) as i32;
+            if header & NUMERIC_SHORT_WEIGHT_SIGN_MASK != 0 {
+                weight += NUMERIC_SHORT_WEIGHT_MIN as i32;
+            }
+            let dscale = (header & NUMERIC_SHORT_DSCALE_MASK) >> NUMERIC_SHORT_DSCALE_SHIFT;
+            (
+                header & NUMERIC_SHORT_SIGN_MASK != 0,
+                weight,
+                dscale as i32,
+                NUMERIC_HEADER_SIZE_SHORT..bytes.len(),
+            )
+        } else {
+            if bytes.len() < NUMERIC_HEADER_SIZE {
+                return false;
+            }
+            (
+                flag_bits == NUMERIC_NEG,
+                word(NUMERIC_HEADER_SIZE_SHORT) as i16 as i32,
+                (header & NUMERIC_DSCALE_MASK) as i32,
+                NUMERIC_HEADER_SIZE..bytes.len(),
+            )
+        };
+
+        if digits.len() % NUMERIC_DIGIT_SIZE as usize != 0 {
+            return false;
+        }
+
+        if digits.len() == 0 {
+            // zero is stored without sign and weight
+            return !negative && weight == 0;
+        }
+
+        let first = word(digits.start);
+        let mut last = word(digits.end - NUMERIC_DIGIT_SIZE as usize);
+        if first == 0 || last == 0 {
+            // leading and trailing zeroes are always stripped
+            return false;
+        }
+
+        // the display scale never hides digits
+        let ndigits = (digits.len() / NUMERIC_DIGIT_SIZE as usize) as i32;
+        let mut fraction_digits = (ndigits - weight - 1) * DEC_DIGITS;
+        while last % 10 == 0 {
+            last /= 10;
+            fraction_digits -= 1;
+        }
+        if fraction_digits > dscale {
+            return false;
+        }
+
+        digits
+            .step_by(NUMERIC_DIGIT_SIZE as usize)
+            .all(|i| (word(i) as i32) < NBASE)
+    }
+
     #[inline]
     pub fn set_len(&mut self, len: u32) {
         self.vl_len = NumericBinary::encode_len(len);
diff --git a/src/num.rs b/src/num.rs
index ccd5521..8742fa0 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -358,6 +358,10 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self));
+                }
+
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n.to_owned())
             }
@@ -1060,6 +1064,10 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v) {
+                    return Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self));
+                }
+
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n)
             }
-- 
2.43.0


From 8455f64a8165aa036c6aa8965b3e24470f92357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 07/11] fix: serialize the binary form as bytes, as it is
 deserialized

---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 8742fa0..45e6c91 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -323,7 +323,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1037,7 +1037,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From 84ac8e9f3ee30225b381dc78537972507d8cd580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 08/11] fix: multiplying zeroes with large scales is an
 overflow, not a failed assertion

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..49299ce 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,8 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        // a scale that is too large is reported as overflow by `make_result`
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From debc17a48f0356e09aa67414230b8fc7ac7dd183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 09/11] fix: numerics are 2-byte aligned, so NumericBinary must
 not require more

---
 src/binary.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index 5f7e43a..e2ec93e 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -290,7 +290,8 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+/// Digits are only 2-byte aligned, and so is the header in front of them.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
-- 
2.43.0


From 6059b737ba8b080a02b4409a9d8e4cf14263fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 10/11] fix: scientific notation of very small numbers no
 longer panics

---
 src/var.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 49299ce..c7d2c5a 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1611,6 +1611,17 @@ impl<'a> NumericVar<'a> {
         result
     }
 
+    /// Returns 10 raised to the power of `exp`, exactly.
+    fn power_of_ten(exp: i32) -> Self {
+        const POWERS: [[NumericDigit; 1]; 4] = [[1], [10], [100], [1000]];
+
+        let weight = exp.div_euclid(DEC_DIGITS);
+        let dscale = if exp < 0 { -exp } else { 0 };
+        let digits = &POWERS[exp.rem_euclid(DEC_DIGITS) as usize];
+
+        Self::borrowed(1, weight, dscale, NUMERIC_POS, digits)
+    }
+
     /// Raise `self` to the power of exp, where exp is an integer.
     ///
     /// Returns `None` if overflows.
@@ -2219,12 +2230,9 @@ impl<'a> NumericVar<'a> {
         // The denominator is set to 10 raised to the power of the exponent.
         //
         // We then divide var by the denominator to get the significand, rounding
-        // to rscale decimal digits in the process.
-        let denom_scale = if exponent < 0 { -exponent } else { 0 };
-
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
-            .expect("attempt to multiply with overflow");
+        // to rscale decimal digits in the process.  The denominator must be exact,
+        // which `power_int` is not for very small numbers.
+        let denominator = Self::power_of_ten(exponent);
         let significand = self
             .div_common(&denominator, rscale, true)
             .expect(DIVIDE_BY_ZERO_MSG);
-- 
2.43.0


From a528afaf40c587b6a3a84caf28e7453b0210e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 11/11] fix: deserializing an owned numeric no longer reads
 misaligned digits

A format may hand over its bytes at any address, but digits and header
fields are read as 2-byte integers.
---
 src/num.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index 45e6c91..33461ad 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -362,7 +362,15 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
                     return Err(E::invalid_value(serde::de::Unexpected::Bytes(v), &self));
                 }
 
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                // the bytes may lie anywhere in the input, but a numeric is 2-byte aligned
+                let mut buf: Vec<NumericDigit> = vec![0; (v.len() + 1) / NUMERIC_DIGIT_SIZE as usize];
+                let bytes = unsafe {
+                    let ptr = buf.as_mut_ptr() as *mut u8;
+                    std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, v.len());
+                    std::slice::from_raw_parts(ptr, v.len())
+                };
+
+                let n = unsafe { Numeric::from_bytes_unchecked(bytes) };
                 Ok(n.to_owned())
             }
         }
-- 
2.43.0

