From 90cd979c5371787235f7d8a033b1a75c1adec8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 01/16] fix: compare numbers by value without wrapping on large
 exponent differences

---
 src/number.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..45f60b4 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -204,18 +204,14 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
         if e_diff == 0 {
             return self.mantissa == other.mantissa;
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
-
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            checked_scale(self.mantissa, e_diff as u32) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
-
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            Some(self.mantissa) == checked_scale(other.mantissa, -e_diff as u32)
         }
 
     }
@@ -541,6 +537,18 @@ impl ops::Neg for Number {
 //     }
 // }
 
+// Multiply the mantissa by a power of ten, `None` if the result exceeds `u64`.
+#[inline]
+fn checked_scale(mantissa: u64, e: u32) -> Option<u64> {
+    if e < 20 {
+        mantissa.checked_mul(decimal_power(e as u16))
+    } else if mantissa == 0 {
+        Some(0)
+    } else {
+        None
+    }
+}
+
 #[inline]
 fn decimal_power(mut e: u16) -> u64 {
     static CACHED: [u64; 20] = [
-- 
2.43.0


From e25e9cb29ba0d17c7f993a504e434e51aa860564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 02/16] fix: exact fixed point conversion for large exponents
 and out of range results

---
 src/number.rs | 69 ++++++++++++++++++++++++++-------------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 45f60b4..9e74bde 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -130,7 +130,8 @@ impl Number {
     /// converting monetary values and doing arithmetic on them without
     /// rounding errors introduced by floating point operations.
     ///
-    /// Will return `None` if `Number` is negative or a NaN.
+    /// Will return `None` if `Number` is negative or a NaN, or if the result
+    /// does not fit in `u64`.
     ///
     /// ```
     /// # use json::number::Number;
@@ -147,19 +148,12 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
-        } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+        self.fixed_point_magnitude(point)
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
-    /// `i64`, properly handling negative numbers.
+    /// `i64`, properly handling negative numbers. Will return `None` if the
+    /// result does not fit in `i64`.
     ///
     /// ```
     /// # use json::number::Number;
@@ -174,21 +168,27 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
+        let magnitude = self.fixed_point_magnitude(point)?;
+
+        if self.is_sign_positive() {
+            i64::try_from(magnitude).ok()
         } else {
-            -(self.mantissa as i64)
-        };
+            negate_to_i64(magnitude)
+        }
+    }
 
-        let e_diff = point as i16 + self.exponent;
+    // Absolute value of the number at a fixed decimal point, truncated
+    // towards zero, or `None` if that exceeds `u64`.
+    fn fixed_point_magnitude(&self, point: u16) -> Option<u64> {
+        let e_diff = point as i32 + self.exponent as i32;
 
-        Some(if e_diff == 0 {
-            num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
+        if e_diff >= 0 {
+            checked_scale(self.mantissa, e_diff as u32)
+        } else if e_diff > -20 {
+            Some(self.mantissa / decimal_power(-e_diff as u16))
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
-        })
+            Some(0)
+        }
     }
 }
 
@@ -549,8 +549,19 @@ fn checked_scale(mantissa: u64, e: u32) -> Option<u64> {
     }
 }
 
+// Negate the magnitude, `None` if the result is below `i64::MIN`.
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn negate_to_i64(magnitude: u64) -> Option<i64> {
+    if magnitude <= 1 << 63 {
+        Some((magnitude as i64).wrapping_neg())
+    } else {
+        None
+    }
+}
+
+// Powers of ten that fit in `u64`, `e` must be less than 20.
+#[inline]
+fn decimal_power(e: u16) -> u64 {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -574,15 +585,5 @@ fn decimal_power(mut e: u16) -> u64 {
         10000000000000000000,
     ];
 
-    if e < 20 {
-        CACHED[e as usize]
-    } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
-    }
+    CACHED[e as usize]
 }
-- 
2.43.0


From c4e6701825515aba5d11f854c43c38ab005c5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 03/16] fix: reject NaN and out of range magnitudes when
 converting to signed integers

---
 src/number.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 9e74bde..a335ff8 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -454,17 +454,17 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if exponent != 0 || num.is_nan() {
                     return Err(NumberOutOfScope);
                 }
 
-                let mantissa = if positive {
-                    mantissa as i64
+                let integer = if positive {
+                    i64::try_from(mantissa).ok()
                 } else {
-                    -(mantissa as i64)
+                    negate_to_i64(mantissa)
                 };
 
-                TryFrom::try_from(mantissa).map_err(Into::into)
+                TryFrom::try_from(integer.ok_or(NumberOutOfScope)?).map_err(Into::into)
             }
         }
 
-- 
2.43.0


From 3b3bba186f4100077c9717954ea8c4ec6dfbc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 04/16] fix: convert the minimum value of signed integer types

---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index a335ff8..67403f4 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -436,7 +436,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From ea5b6b8a31b39adc9a2491b1664184475b59ba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 05/16] fix: convert zero with a large exponent to zero instead
 of NaN

---
 src/number.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/number.rs b/src/number.rs
index 67403f4..b56dacb 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -288,6 +288,10 @@ impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
 
+        if num.is_zero() {
+            return if num.is_sign_positive() { 0.0 } else { -0.0 };
+        }
+
         let mut n = num.mantissa as f64;
         let mut e = num.exponent;
 
-- 
2.43.0


From b2c6dfb20b9fcda03bdd2d78efecf6ffdf978127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/16] fix: do not underflow to zero when converting small
 numbers to f32

---
 src/number.rs | 44 ++++----------------------------------------
 1 file changed, 4 insertions(+), 40 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index b56dacb..797c54d 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -1,4 +1,4 @@
-use std::{ ops, fmt, f32, f64 };
+use std::{ ops, fmt, f64 };
 use std::convert::{TryFrom, Infallible};
 use std::num::{FpCategory, TryFromIntError};
 use crate::util::grisu2;
@@ -257,33 +257,6 @@ fn exponentiate_f64(n: f64, e: i16) -> f64 {
     }
 }
 
-
-fn exponentiate_f32(n: f32, e: i16) -> f32 {
-    static CACHE_POWERS: [f32; 23] = [
-          1.0,    1e1,    1e2,    1e3,    1e4,    1e5,    1e6,    1e7,
-          1e8,    1e9,   1e10,   1e11,   1e12,   1e13,   1e14,   1e15,
-         1e16,   1e17,   1e18,   1e19,   1e20,   1e21,   1e22
-    ];
-
-    if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
-    } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
-    }
-}
-
 impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
@@ -307,18 +280,9 @@ impl From<Number> for f64 {
 
 impl From<Number> for f32 {
     fn from(num: Number) -> f32 {
-        if num.is_nan() { return f32::NAN; }
-
-        let mut n = num.mantissa as f32;
-        let mut e = num.exponent;
-
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
-        }
-
-        let f = exponentiate_f32(n, e);
-        if num.is_sign_positive() { f } else { -f }
+        // Powers of ten needed to scale the mantissa down can exceed the range
+        // of `f32` even if the number itself doesn't.
+        f64::from(num) as f32
     }
 }
 
-- 
2.43.0


From 8de24d338b66da51df6fc5eec03faf55b5aaa998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 07/16] fix: compute pretty printing indentation without
 overflowing u16

---
 src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..af7138b 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -230,7 +230,7 @@ impl Generator for DumpGenerator {
 /// Pretty In-Memory Generator, this uses a Vec to store the JSON result and add indent.
 pub struct PrettyGenerator {
     code: Vec<u8>,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -321,7 +321,7 @@ impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write {
 /// Pretty Writer Generator, this uses a custom writer to store the JSON result and add indent.
 pub struct PrettyWriterGenerator<'a, W: 'a + Write> {
     writer: &'a mut W,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 7d1ea15a2786d57e5d89a78b4f5130c14233bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 08/16] fix: do not overflow the exponent while reading very
 long fractions

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..1e3734f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -333,7 +333,9 @@ macro_rules! expect_fraction {
             match ch {
                 b'0' ..= b'9' => {
                     $parser.bump();
-                    if $num < MAX_PRECISION {
+                    if $e == i16::min_value() {
+                        // Out of exponent range, ignore any further digits
+                    } else if $num < MAX_PRECISION {
                         $num = $num * 10 + (ch - b'0') as u64;
                         $e -= 1;
                     } else {
-- 
2.43.0


From 64d894add2cbebde9f4c8b474427721be6dfe4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 09/16] fix: read exponents near the limits of i16 without
 clamping them early

---
 src/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1e3734f..5ddda2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -604,7 +604,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i32,
             _ => return self.unexpected_character(),
         };
 
@@ -616,13 +616,18 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i32);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        // Saturate only the sum, either of the parts can be out of range on its own
+        let e = (big_e as i32).saturating_add(e * sign)
+                              .max(i16::min_value() as i32)
+                              .min(i16::max_value() as i32) as i16;
+
+        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
     }
 
     // Parse away!
-- 
2.43.0


From 2037f0b91a902f57f47905fce512c889a505c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 10/16] fix: report the right position of an unexpected
 character that starts a line

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5ddda2d..319bddb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -413,8 +413,10 @@ impl<'a> Parser<'a> {
                      .next()
                      .expect("Must have a character");
 
+        // `str::lines` doesn't yield an empty line after a trailing line break,
+        // which is where the character is if it's the first one on its line.
         let (lineno, col) = self.source[..at]
-                                .lines()
+                                .split('\n')
                                 .enumerate()
                                 .last()
                                 .unwrap_or((0, ""));
-- 
2.43.0


From 91836a6869ee7e10f05af7d6eecf18a92ed539b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 11/16] fix: compare short strings with String by contents

---
 src/value/implements.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..57429f5 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -143,7 +143,30 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        *self == other.as_str()
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == other.as_str()
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        *other == self.as_str()
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0


From 0047b1639d63967adcfd33eeaf438f7ed46675b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 12/16] fix: clearing a short string leaves an empty string

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..6e09370 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -559,6 +559,7 @@ impl JsonValue {
     /// on a string will clear the string. Numbers and booleans become null.
     pub fn clear(&mut self) {
         match *self {
+            JsonValue::Short(_)               => *self = "".into(),
             JsonValue::String(ref mut string) => string.clear(),
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
-- 
2.43.0


From 6d5c0c61a18e6af8ba2b3ffd22b286afb6c3788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 13/16] fix: report exact size_hint on object iterators

---
 src/object.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 7ff2165..3b2c7c5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -593,6 +593,11 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &node.value))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
@@ -628,6 +633,11 @@ impl<'a> Iterator for IterMut<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &mut node.value))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for IterMut<'a> {
-- 
2.43.0


From 2cdf41a62224a3a888339bd5c949f4c3d46715b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 14/16] fix: evaluate expressions in array! and object! only
 once

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..66e73cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        let size = 0 $( + {let _ = stringify!($i); 1} )*;
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +404,7 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        let size = 0 $( + {let _ = stringify!($k); 1} )*;
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0


From bbf467c1e735286a67e4a12e2c8e6107c24af0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 15/16] fix: convert numbers to the nearest f64 so that floats
 survive a round trip

---
 src/number.rs | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 797c54d..5d4c703 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -231,6 +231,7 @@ impl fmt::Display for Number {
     }
 }
 
+// Exponents outside of the -22 ..= 22 range have no exact power of ten in `f64`.
 fn exponentiate_f64(n: f64, e: i16) -> f64 {
     static CACHE_POWERS: [f64; 23] = [
           1.0,    1e1,    1e2,    1e3,    1e4,    1e5,    1e6,    1e7,
@@ -239,21 +240,9 @@ fn exponentiate_f64(n: f64, e: i16) -> f64 {
     ];
 
     if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f64.powf(index as f64)
-        }
+        n * CACHE_POWERS[e as usize]
     } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f64.powf(index as f64)
-        }
+        n / CACHE_POWERS[-e as usize]
     }
 }
 
@@ -265,15 +254,14 @@ impl From<Number> for f64 {
             return if num.is_sign_positive() { 0.0 } else { -0.0 };
         }
 
-        let mut n = num.mantissa as f64;
-        let mut e = num.exponent;
-
-        if e < -308 {
-            n = exponentiate_f64(n, e + 308);
-            e = -308;
-        }
+        let f = if num.mantissa <= 1 << 53 && num.exponent >= -22 && num.exponent <= 22 {
+            // Both the mantissa and the power of ten are exact, so the result
+            // is rounded only once.
+            exponentiate_f64(num.mantissa as f64, num.exponent)
+        } else {
+            format!("{}e{}", num.mantissa, num.exponent).parse().unwrap_or(f64::NAN)
+        };
 
-        let f = exponentiate_f64(n, e);
         if num.is_sign_positive() { f } else { -f }
     }
 }
-- 
2.43.0


From 8634325186f22d0ccd16491f40511a2b5494dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 16/16] fix: count fraction digits beyond the exponent range of
 a number

Digits after the 32768th in a fraction were ignored before the exponent
was applied, so 0.(40000 zeros)1e40000 was read as 0.
---
 src/parser.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 319bddb..38f94aa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -250,7 +250,7 @@ macro_rules! expect_number {
                     num = num * 10 + (ch - b'0') as u64;
                 },
                 _             => {
-                    let mut e = 0;
+                    let mut e = 0i64;
                     result = allow_number_extensions!($parser, num, e, ch);
                     break;
                 }
@@ -287,7 +287,7 @@ macro_rules! allow_number_extensions {
             0.into()
         } else {
             let mut num = 0;
-            let mut e = 0;
+            let mut e = 0i64;
             let ch = $parser.read_byte();
             allow_number_extensions!($parser, num, e, ch)
         }
@@ -325,7 +325,7 @@ macro_rules! expect_fraction {
 
         loop {
             if $parser.is_eof() {
-                result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                result = unsafe { Number::from_parts_unchecked(true, $num, saturate_exponent($e)) };
                 break;
             }
             let ch = $parser.read_byte();
@@ -333,9 +333,7 @@ macro_rules! expect_fraction {
             match ch {
                 b'0' ..= b'9' => {
                     $parser.bump();
-                    if $e == i16::min_value() {
-                        // Out of exponent range, ignore any further digits
-                    } else if $num < MAX_PRECISION {
+                    if $num < MAX_PRECISION {
                         $num = $num * 10 + (ch - b'0') as u64;
                         $e -= 1;
                     } else {
@@ -356,7 +354,7 @@ macro_rules! expect_fraction {
                     break;
                 }
                 _ => {
-                    result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                    result = unsafe { Number::from_parts_unchecked(true, $num, saturate_exponent($e)) };
                     break;
                 }
             }
@@ -558,10 +556,10 @@ impl<'a> Parser<'a> {
     // the exponent. Note that no digits are actually read here, as we already
     // exceeded the precision range of f64 anyway.
     fn read_big_number(&mut self, mut num: u64) -> Result<Number> {
-        let mut e = 0i16;
+        let mut e = 0i64;
         loop {
             if self.is_eof() {
-                return Ok(unsafe { Number::from_parts_unchecked(true, num, e) });
+                return Ok(unsafe { Number::from_parts_unchecked(true, num, saturate_exponent(e)) });
             }
             let ch = self.read_byte();
             match ch {
@@ -571,7 +569,12 @@ impl<'a> Parser<'a> {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => num = result,
-                        None         => e = e.checked_add(1).ok_or_else(|| Error::ExceededDepthLimit)?,
+                        None         => {
+                            if e == i16::max_value() as i64 {
+                                return Err(Error::ExceededDepthLimit);
+                            }
+                            e += 1;
+                        }
                     }
                 },
                 b'.' => {
@@ -586,12 +589,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
+        Ok(unsafe { Number::from_parts_unchecked(true, num, saturate_exponent(e)) })
     }
 
     // Called in the rare case that a number with `e` notation has been
     // encountered. This is pretty straight forward, I guess.
-    fn expect_exponent(&mut self, num: u64, big_e: i16) -> Result<Number> {
+    fn expect_exponent(&mut self, num: u64, big_e: i64) -> Result<Number> {
         let mut ch = expect_byte!(self);
         let sign = match ch {
             b'-' => {
@@ -606,7 +609,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i32,
+            b'0' ..= b'9' => (ch - b'0') as i64,
             _ => return self.unexpected_character(),
         };
 
@@ -618,16 +621,14 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i32);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i64);
                 },
                 _  => break
             }
         }
 
         // Saturate only the sum, either of the parts can be out of range on its own
-        let e = (big_e as i32).saturating_add(e * sign)
-                              .max(i16::min_value() as i32)
-                              .min(i16::max_value() as i32) as i16;
+        let e = saturate_exponent(big_e.saturating_add(e * sign));
 
         Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
     }
@@ -763,6 +764,12 @@ impl<'a> Parser<'a> {
     }
 }
 
+// Exponents are collected in a type they can't overflow, see to it that the
+// final result fits the `Number`.
+fn saturate_exponent(e: i64) -> i16 {
+    e.max(i16::min_value() as i64).min(i16::max_value() as i64) as i16
+}
+
 struct StackBlock(JsonValue, usize);
 
 // All that hard work, and in the end it's just a single function in the API.
-- 
2.43.0

