From 94e8e23a240c6506827a92a24e751c6bdbc09dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 01/44] fix: WrappingAdd on primitive ints subtracted instead
 of adding

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From 3b4a4d4a09f3388fb72ce6c7d6d39c8afee3f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 02/44] fix: checked shifts on primitive ints narrowed the
 shift amount before checking it

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..fdb05ee 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
     };
@@ -266,7 +266,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -274,7 +274,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
 
-- 
2.43.0


From 2ec9716c3389e42477c31a3c3a7151d8a784d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 03/44] fix: Signed::is_positive on primitive ints is
 documented to include zero

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index fdb05ee..a9eda7c 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -325,7 +325,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From 73358d54bea71a1fd7a4d51e9d58ac479319e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:43 +0000
Subject: [PATCH 04/44] fix: One::is_one on NonZero types was true for every
 value

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From 110d0893f4a30ff5f4a1960aa8e1b36479506cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:12 +0000
Subject: [PATCH 05/44] fix: saturating isize to a narrower signed int
 truncated instead of clamping

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index a9eda7c..1fd04e1 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -860,8 +860,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -893,15 +893,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From 88d49f7584708682137a9bd8dd6b41628be717b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 06/44] fix: ElementCmp compared from the least significant
 element

---
 crates/bits/src/algos/element/cmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..9d77093 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,7 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 7b42ae884b9088baeed50fddefe6fed508d53172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 07/44] fix: sub of a larger value returned a wrong magnitude
 (negation did not carry)

---
 crates/bits/src/algos/bitwise/sub.rs | 6 +++---
 crates/bits/src/algos/element/sub.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..a6e9892 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementMul, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,8 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
             ElementNot::not(&mut out);
+            out.add_item(0, Self::Bit::one());
         }
 
         (out, carry)
diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..21ca7f2 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementMul, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,8 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
             ElementNot::not(&mut out);
+            out.add_item(0, one);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From d63b32fcb5ee6d52c10f7410db2595b04045c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 08/44] fix: mul_overflowing missed overflow of partial
 products beyond the slice

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..4ed8a10 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // Anything beyond the end of the slice is lost
+        let mut carry = val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From 0556e940affcb69a885df88000b495626b3cb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 09/44] fix: BitIter::len underflowed after the first element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From a35d223d90f377f2d598cf77c6ca689ee771bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 10/44] fix: set_push dropped a value set past the end

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From b315bca4892e9ae368762ff9e4032851aa8eb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 11/44] fix: right shift by a whole element or the full length
 underflowed an index

---
 crates/bits/src/algos/element/shr.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..4a4ec95 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
@@ -63,7 +63,7 @@ pub trait ElementShr: BitSliceExt {
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = left.len() + 1 - arr_shift;
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From bc5311200b914ba2ab9aa1d8eeda7e7a61cbc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 12/44] fix: wrapping shifts masked the amount wrongly unless
 the length is a power of two

---
 crates/bits/src/algos/element/shl.rs | 4 +---
 crates/bits/src/algos/element/shr.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..80ec049 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -82,8 +81,7 @@ pub trait ElementShl: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shl_wrap_and_mask(left, right.checked_rem(bit_len).unwrap_or(0))
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 4a4ec95..3394bbb 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -83,8 +83,7 @@ pub trait ElementShr: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shr_wrap_and_mask(left, right.checked_rem(bit_len).unwrap_or(0))
     }
 }
 
-- 
2.43.0


From 7137c2ba8121edbb278f5d4b1e3d982c364b545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 13/44] fix: BitwiseAdd::add_in_place always indexed out of
 bounds

---
 crates/bits/src/algos/bitwise/add.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..fa41d4a 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -56,12 +56,12 @@ pub trait BitwiseAdd: BitSliceExt {
     where
         T: BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(left.bit_len(), right.bit_len());
+        let bit_len = left.bit_len();
 
         let mut carry = false;
-        for idx in 0..=bit_len {
+        for idx in 0..bit_len {
             let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
-- 
2.43.0


From 1f236772603bf97bc73eca85fecb7394756b50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:39 +0000
Subject: [PATCH 14/44] fix: add_overflowing missed overflow when the right
 side is longer

---
 crates/bits/src/algos/element/add.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..337cf92 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -47,6 +47,7 @@ pub trait ElementAdd: BitSliceExt {
         let one = Self::Bit::one();
 
         let mut carry = false;
+        let mut overflow = false;
 
         for idx in 0..len {
             let l = left.get_opt(idx).unwrap_or(zero);
@@ -61,10 +62,12 @@ pub trait ElementAdd: BitSliceExt {
                 carry = true;
             }
 
-            left.set_ignore(idx, res);
+            if left.set_opt(idx, res).is_none() && res != zero {
+                overflow = true;
+            }
         }
 
-        (left, carry)
+        (left, carry || overflow)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From e27714743bb4d664ddae5c0bb201a7fe6cfa9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 15/44] fix: in-place right shift kept the old high bits of the
 top element

---
 crates/bits/src/algos/element/shr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 3394bbb..4d3698f 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,9 +58,9 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
-
-                left.set_ignore(idx, low);
+                // The existing value was already shifted out. `high` of the next element goes
+                // into it after `low` since we're iterating forwards.
+                left.set_ignore(idx, low & !elem_mask);
             }
         });
         let empty = left.len() + 1 - arr_shift;
-- 
2.43.0


From 5043b338dfdcc327267777518ece225f38abf535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 16/44] fix: division panicked when the divisor has more
 elements than the dividend

---
 crates/bits/src/algos/bitwise/div.rs | 6 +++---
 crates/bits/src/algos/element/div.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..5fc6934 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -19,7 +19,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(&mut remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(&remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(&mut remainder, div);
@@ -39,7 +39,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
             remainder.set_bit(0, num.get_bit(idx));
@@ -93,7 +93,7 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
-        let bit_len = usize::max(num.bit_len(), div.bit_len());
+        let bit_len = num.bit_len();
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From bbc0e7fbcd9a2a5de1a509d9c41b4889aaf43e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 17/44] fix: division by zero returned all ones (or never
 ended) instead of being reported

---
 crates/bits/src/algos/bitwise/div.rs | 18 ++++++++++++++++++
 crates/bits/src/algos/element/div.rs |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 5fc6934..d41cd7d 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -4,6 +4,10 @@ use crate::bit_slice::BitSliceExt;
 use alloc::{vec, vec::Vec};
 use numeric_traits::identity::Zero;
 
+fn is_zero<T: ?Sized + BitSliceExt>(val: &T) -> bool {
+    val.slice().iter().all(|v| v.is_zero())
+}
+
 pub trait BitwiseDiv: BitSliceExt {
     #[cfg(feature = "std")]
     /// Divide two slices, implemented as bitwise long division
@@ -11,6 +15,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let len = usize::max(num.len(), div.len());
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
@@ -39,6 +45,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let bit_len = num.bit_len();
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +72,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
+
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +105,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let bit_len = num.bit_len();
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +131,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
+
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..c1a4556 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,11 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            !right.slice().iter().all(|v| v.is_zero()),
+            "attempt to divide by zero"
+        );
+
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From 3dd3519d4e0f414aa9206782f6f4de3cca1d00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 18/44] fix: conversions between U<N> and primitives indexed
 out of bounds or ignored excess bytes

---
 crates/ints/src/u.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..05c7535 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From e9b358c49857523e1d1954fcb66c3efaa74f53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 19/44] fix: U::pow of zero to the zeroth power is one

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 05c7535..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From 5da5a615b1d820bc35b39725674fb0386c23e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 20/44] fix: I compared its bytes from the least significant

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..4dd7ae0 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -216,7 +216,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From ff09c880d6a9889cbd18b252b890fdb9a5d51724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 21/44] fix: I::abs cleared the sign bit instead of negating

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index 4dd7ae0..a22760d 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From 6a11a66407d22a4f4076428ec2d1f621792234ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 22/44] fix: the remainder of I and BigInt takes the sign of
 the dividend

---
 crates/ints/src/big_int.rs | 2 +-
 crates/ints/src/i.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..96a11b7 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -490,7 +490,7 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index a22760d..f10d344 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From d3c0892138b468fdea69e442eccf46defbff03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 23/44] fix: BigInt compared from the least significant element

---
 crates/ints/src/big_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 96a11b7..01500a8 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -382,6 +382,7 @@ impl Ord for BigInt {
             } else {
                 this.iter()
                     .zip(other.iter())
+                    .rev()
                     .find_map(|(l, r)| match l.cmp(r) {
                         Ordering::Equal => None,
                         other => Some(other),
-- 
2.43.0


From f3e3a887ea83131b80aa2331d0e98cce4c7501cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 24/44] fix: negating a zero BigInt produced a negative zero
 unequal to zero

---
 crates/ints/src/big_int.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 01500a8..376a008 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -99,6 +99,10 @@ impl TaggedOffset {
     #[must_use]
     #[inline]
     pub const fn invert_neg(self) -> TaggedOffset {
+        // Zero has no negative
+        if self.0 == Tag::Inline as usize {
+            return self;
+        }
         TaggedOffset(self.0 ^ 0b1)
     }
 
-- 
2.43.0


From 3abae446dfdcc17b7354522cd3e49f063eab923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 25/44] fix: negative BigInts printed as -0

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 376a008..49b82fa 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -213,7 +213,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From af9fd6fe42f3a4313275711b0e8adee005420ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 26/44] fix: BigInt::approx_float dropped the sign

---
 crates/ints/src/big_int.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 49b82fa..cc2dc47 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -251,7 +251,7 @@ impl BigInt {
     /// If the value is large, this may return [`f64::INFINITY`] or [`f64::NEG_INFINITY`].
     pub fn approx_float(&self) -> f64 {
         const USIZE_MAX: f64 = usize::MAX as f64;
-        self.with_slice(|vals| {
+        let out = self.with_slice(|vals| {
             vals.iter()
                 .copied()
                 .enumerate()
@@ -261,7 +261,12 @@ impl BigInt {
                     Ok::<_, num::TryFromIntError>(val.mul_add(USIZE_MAX.powi(idx), acc))
                 })
                 .unwrap_or(f64::INFINITY)
-        })
+        });
+        if self.is_negative() {
+            -out
+        } else {
+            out
+        }
     }
 }
 
-- 
2.43.0


From 2493d4db6dbdb45d0e648d127fa0b41696569c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 27/44] fix: BigInt equality with primitives ignored the sign
 and overflowed on the minimum

---
 crates/ints/src/big_int/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..8e81b36 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -164,10 +164,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
@@ -175,6 +175,10 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
+
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From 0a64963f79817597b6bd78fae48ef7ff14d176a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 28/44] fix: converting a negative BigInt to a signed primitive
 dropped the sign

---
 crates/ints/src/big_int/macros.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 8e81b36..ec054b1 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,8 +88,16 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
-                        .ok_or_else(|| OutOfRangeError::above())
+                    // In range, so the magnitude always fits the unsigned type
+                    let val: $unsigned = bi
+                        .with_slice(|s| arr_to_int(s))
+                        .ok_or_else(|| OutOfRangeError::above())?;
+                    let val = val as $signed;
+                    Ok(if bi.is_negative() {
+                        val.wrapping_neg()
+                    } else {
+                        val
+                    })
                 }
             }
         }
-- 
2.43.0


From 58e9ed085ff4748a2c80224be641332962a94d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:27 +0000
Subject: [PATCH 29/44] fix: truncating a BigInt to a primitive saturated
 instead of keeping the low bits

---
 crates/ints/src/big_int/macros.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index ec054b1..367a0d5 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -121,15 +121,22 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                let out = val.with_slice(|s| {
+                    s.iter().rev().fold(0 as $unsigned, |acc, &v| {
+                        acc.checked_shl(usize::BITS).unwrap_or(0) | v as $unsigned
+                    })
+                });
+                if val.is_negative() {
+                    out.wrapping_neg()
+                } else {
+                    out
+                }
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                <$unsigned>::truncate_from(val) as $signed
             }
         }
 
-- 
2.43.0


From 3abc8cc592bab9ff9e2fd15f81cb411a6afe9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:12 +0000
Subject: [PATCH 30/44] fix: parsing a negative BigInt was rejected

---
 crates/ints/src/big_int.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index cc2dc47..b0dada7 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -669,12 +669,16 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        let (neg, digits) = match str.strip_prefix('-') {
+            Some(digits) => (true, digits),
+            None => (false, str),
+        };
         let mut out = BigInt::zero();
-        for digit in str.chars() {
+        for digit in digits.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From d5de8db60b94c803049f9654a5ff599d31faa47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:58 +0000
Subject: [PATCH 31/44] fix: matrix views accepted an index one past the last
 row or column

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From 18722a481e797471148f0aafdceea43508822cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:58 +0000
Subject: [PATCH 32/44] fix: DynMatrix indexing accepted a column outside the
 matrix

---
 crates/compounds/src/matrix/dynamic.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..c2c2cd0 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -69,12 +69,28 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &self.data[index.0 * self.cols + index.1]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
         &mut self.data[index.0 * self.cols + index.1]
     }
 }
-- 
2.43.0


From 8a6fa396facdbbb95b49ea5d1877b8bacc337146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:58 +0000
Subject: [PATCH 33/44] fix: row reduction confused rows and columns of
 non-square matrices

---
 crates/compounds/src/matrix/dynamic.rs | 2 +-
 crates/compounds/src/matrix/static.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index c2c2cd0..0cda576 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -55,7 +55,7 @@ impl<T> DynMatrix<T> {
 }
 
 impl<T: RealSigned> DynMatrix<T> {
-    gauss_elim!(self, self.rows, self.cols, self.data);
+    gauss_elim!(self, self.cols, self.rows, self.data);
     row_reduce!();
 }
 
diff --git a/crates/compounds/src/matrix/static.rs b/crates/compounds/src/matrix/static.rs
index 534564a..e7f855c 100644
--- a/crates/compounds/src/matrix/static.rs
+++ b/crates/compounds/src/matrix/static.rs
@@ -46,7 +46,7 @@ impl<T, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
 }
 
 impl<T: RealSigned, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
-    gauss_elim!(self, ROW, COL, self.0);
+    gauss_elim!(self, COL, ROW, self.0);
     row_reduce!();
 }
 
-- 
2.43.0


From 1944af39b63f7967a48dff157f555075ec06d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 34/44] fix: the interner and its list were Send and Sync for
 values that are not

---
 crates/utils/src/intern.rs | 3 +++
 crates/utils/src/linked.rs | 9 +++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..4147e4c 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -49,6 +49,9 @@ impl<T> Interned<T> {
     }
 }
 
+// SAFETY: Values can be moved in and out, and referenced, through a shared slot
+unsafe impl<T: Send + Sync> Sync for Interned<T> {}
+
 #[derive(Clone, Debug, PartialEq)]
 #[repr(transparent)]
 pub struct InternId(usize);
diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..7be4961 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -147,10 +147,11 @@ impl<T> Drop for UnsyncLinked<T> {
     }
 }
 
-// SAFETY: UnsyncLinked uses atomic access internally
-unsafe impl<T> Send for UnsyncLinked<T> {}
-// SAFETY: UnsyncLinked uses atomic access internally
-unsafe impl<T> Sync for UnsyncLinked<T> {}
+// SAFETY: UnsyncLinked owns its values, and uses atomic access internally
+unsafe impl<T: Send> Send for UnsyncLinked<T> {}
+// SAFETY: UnsyncLinked uses atomic access internally. Values can be moved in and referenced through
+//         a shared list
+unsafe impl<T: Send + Sync> Sync for UnsyncLinked<T> {}
 
 pub struct Iter<'a, T> {
     cur: &'a AtomicPtr<Node<T>>,
-- 
2.43.0


From ae315f11e6791126368e58e4cc031f86d01782a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 35/44] fix: a push that lost a race returned the length of
 another push, and tail read the head unsynchronized

---
 crates/utils/src/linked.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 7be4961..e6f9d98 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -62,7 +62,7 @@ impl<T> UnsyncLinked<T> {
     }
 
     fn tail(&self) -> (*mut Node<T>, usize) {
-        let mut cur_node = self.head.load(Ordering::Relaxed);
+        let mut cur_node = self.head.load(Ordering::Acquire);
 
         if cur_node.is_null() {
             return (cur_node, 0);
@@ -97,10 +97,11 @@ impl<T> UnsyncLinked<T> {
         {
             Ok(_) => 1,
             Err(_) => {
-                let (mut tail, len) = self.tail();
+                let (mut tail, mut len) = self.tail();
                 while !Node::set_next(tail, new) {
                     if let Some(next) = Node::get_next_opt(tail) {
                         tail = next.load(Ordering::Relaxed);
+                        len += 1;
                     }
                 }
                 len + 1
-- 
2.43.0


From 685822df832fd7537d0a0ac2853b6866e4e83915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:59 +0000
Subject: [PATCH 36/44] fix: interning raced with other threads reviving or
 reading the same slot

---
 crates/utils/src/intern.rs | 97 ++++++++++++++++++++++++--------------
 1 file changed, 62 insertions(+), 35 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 4147e4c..ee5540e 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,5 +1,6 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
+use core::hint;
 use core::mem;
 use core::sync::atomic::{AtomicUsize, Ordering};
 
@@ -8,6 +9,9 @@ use crate::static_assert;
 
 const CHUNK_SIZE: usize = 32;
 
+/// Reference count of a dead slot that a thread has claimed to look at or replace its value
+const CLAIMED: usize = usize::MAX;
+
 enum Find<T> {
     Exists(T),
     Dead(T),
@@ -40,6 +44,33 @@ impl<T> Interned<T> {
         unsafe { self.val_opt().unwrap_unchecked() }
     }
 
+    /// Take a reference to a live slot, or claim a dead one, so nobody else can replace its value.
+    /// Returns whether the slot was dead and is now claimed, the claim must be ended by `publish`.
+    fn acquire(&self) -> bool {
+        let mut count = self.refs.load(Ordering::Acquire);
+        loop {
+            if count == CLAIMED {
+                hint::spin_loop();
+                count = self.refs.load(Ordering::Acquire);
+                continue;
+            }
+            let new = if count == 0 { CLAIMED } else { count + 1 };
+            match self
+                .refs
+                .compare_exchange(count, new, Ordering::AcqRel, Ordering::Acquire)
+            {
+                Ok(_) => return count == 0,
+                Err(cur) => count = cur,
+            }
+        }
+    }
+
+    /// Make a claimed slot live, with one reference
+    #[inline]
+    fn publish(&self) {
+        self.refs.store(1, Ordering::Release);
+    }
+
     /// # SAFETY
     ///
     /// Caller must be the only one accessing the slot to call this method
@@ -92,6 +123,8 @@ where
         Interner { inner: list }
     }
 
+    /// Find a slot for a value. Existing slots are returned with a reference taken, dead slots are
+    /// returned claimed.
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
     where
         U: ?Sized + PartialEq,
@@ -101,12 +134,16 @@ where
             for (idx2, i) in i.iter().enumerate() {
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
                 // dropping and creating references to a value
-                let count = i.refs.load(Ordering::Acquire);
+                let dead = i.acquire();
                 if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
+                    if dead {
+                        i.publish();
+                    }
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
+                } else if dead {
                     return Find::Dead((idx, idx2));
                 }
+                Self::decr_inner(i);
             }
         }
         Find::None
@@ -140,44 +177,31 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
-        let find = Self::find(&self.inner, val.borrow());
-        InternId::from_usize(match find {
-            Find::Exists((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                loc1 * 32 + loc2
-            }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
-            Find::Dead((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
-                // SAFETY: Slot is dead, we're making it live, we are the only ones with access
-                unsafe { self.inner[loc1][loc2].set_val(val.into()) };
-                loc1 * 32 + loc2
-            }
-            Find::None => {
-                let len = self
-                    .inner
-                    .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
-                Self::incr_inner(&self.inner[len - 1][0]);
-                // SAFETY: Slot is empty, we're making it live, we are the only ones with access
-                unsafe { self.inner[len - 1][0].set_val(val.into()) };
-                (len - 1) * 32
+        let (loc1, loc2) = loop {
+            match Self::find(&self.inner, val.borrow()) {
+                Find::Exists(loc) => break loc,
+                Find::Dead((loc1, loc2)) => {
+                    let slot = &self.inner[loc1][loc2];
+                    // SAFETY: Slot was dead and we claimed it, we are the only ones with access
+                    unsafe { slot.set_val(val.into()) };
+                    slot.publish();
+                    break (loc1, loc2);
+                }
+                Find::None => {
+                    self.inner
+                        .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
+                }
             }
-        })
+        };
+        InternId::from_usize(loc1 * 32 + loc2)
     }
 
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
-        if slot.refs.load(Ordering::Relaxed) == 0 {
-            None
-        } else {
-            Some(slot.val())
+        match slot.refs.load(Ordering::Acquire) {
+            0 | CLAIMED => None,
+            _ => Some(slot.val()),
         }
     }
 
@@ -198,7 +222,10 @@ where
     #[allow(dead_code)]
     pub fn refcount(&self, offset: InternId) -> usize {
         let (idx1, idx2) = Self::offset_to_idx(offset);
-        self.inner[idx1][idx2].refs.load(Ordering::Relaxed)
+        match self.inner[idx1][idx2].refs.load(Ordering::Relaxed) {
+            CLAIMED => 0,
+            count => count,
+        }
     }
 }
 
-- 
2.43.0


From ec22ed0020d3ccdc36e466d7123b5c5c4caed7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:33 +0000
Subject: [PATCH 37/44] fix: the list iterator could be sent to another thread
 with values that cannot be shared

---
 crates/utils/src/linked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index e6f9d98..e4f8d9e 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -156,7 +156,7 @@ unsafe impl<T: Send + Sync> Sync for UnsyncLinked<T> {}
 
 pub struct Iter<'a, T> {
     cur: &'a AtomicPtr<Node<T>>,
-    phantom: PhantomData<&'a ()>,
+    phantom: PhantomData<&'a T>,
 }
 
 impl<'a, T> Iterator for Iter<'a, T>
-- 
2.43.0


From 3e2607df265cbbe2c979126c46fa855d026680b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:17 +0000
Subject: [PATCH 38/44] fix: trimming an empty limb sequence panicked

---
 crates/bits/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6aca128..0709737 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -11,7 +11,7 @@ pub trait IntSlice<T>: Deref<Target = [T]> {
 impl<T: Integral + Copy> IntSlice<T> for &[T] {
     fn shrink(self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        &self[..=idx]
+        &self[..usize::min(idx + 1, self.len())]
     }
 }
 
@@ -19,7 +19,7 @@ impl<T: Integral + Copy> IntSlice<T> for &[T] {
 impl<T: Integral + Copy> IntSlice<T> for alloc::vec::Vec<T> {
     fn shrink(mut self) -> Self {
         let idx = self.iter().rposition(|val| *val != T::zero()).unwrap_or(0);
-        self.drain(idx + 1..);
+        alloc::vec::Vec::truncate(&mut self, idx + 1);
         self
     }
 }
-- 
2.43.0


From d1d20f1d1647552e87f5803b6b6029944bd8b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:09 +0000
Subject: [PATCH 39/44] fix: keep rationals in lowest terms with the sign in
 the numerator

Whole numbers and unit-like fractions skipped the division by the gcd (4/2 stayed 4/2 and was not equal to 2/1),
and the sign of the divisor found could leave a negative denominator, although the type promises reduced form.
---
 crates/reals/src/rat.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..f14516d 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,13 +54,14 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
+            // Divide by the gcd with the sign of the denominator, so the numerator holds the sign
+            let gcd = if (gcd < T::zero()) == (denom < T::zero()) {
+                gcd
+            } else {
+                T::zero() - gcd
+            };
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
         }
     }
-- 
2.43.0


From f13bf7375456c9c7e54545ecf93a72f1abc9ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:09 +0000
Subject: [PATCH 40/44] fix: ceil of whole and negative rationals

The whole of a denominator was added even when nothing was left over, so ceil(2/1) was 3, and for negative
values the added amount exceeded the denominator.
---
 crates/reals/src/rat.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index f14516d..57f6937 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -237,8 +237,13 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
-        Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
+        // Integer division rounds towards zero, which is already up for negative values
+        let add = if self.num.clone() % self.denom.clone() > T::zero() {
+            T::one()
+        } else {
+            T::zero()
+        };
+        Rat::new(self.num / self.denom + add, T::one()).unwrap()
     }
 
     fn round(self) -> Self {
-- 
2.43.0


From c18c1ae9500b55c2ac02f8edec5a98158f106bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:50 +0000
Subject: [PATCH 41/44] fix: scale of fixed-point products and quotients

The raw product is too large by 2^N and the raw quotient too small by it: 2.0 * 3.0 was 12.0 for N = 1
and one() / (one() + one()) was 0, which also made round always round up.
---
 crates/reals/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..61349d1 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,7 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
@@ -141,7 +141,7 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From e06c67bdcca9a62faf44a2cc3775a4be1fa119d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:50 +0000
Subject: [PATCH 42/44] fix: rounding of negative fixed-point values

The fraction of a negative value is negative; its distance from the floor is one plus it, not one minus it,
so every negative fraction was rounded up.
---
 crates/reals/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 61349d1..7ce06de 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -247,7 +247,7 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
         let f = if f >= Self::zero() {
             f
         } else {
-            Self::one() - f
+            Self::one() + f
         };
         if f > half {
             self.ceil()
-- 
2.43.0


From 45fd2af7534fbeee229a8ad88c30efea91b36bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:50 +0000
Subject: [PATCH 43/44] fix: rounding of negative rationals

The remainder of a negative numerator is negative, so it never exceeded half of the denominator and -3/4 was rounded to 0.
---
 crates/reals/src/rat.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 57f6937..436e1da 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -248,16 +248,20 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
 
     fn round(self) -> Self {
         let two = T::one() + T::one();
-        let diff = self.num.clone() % self.denom.clone();
+        let mut diff = self.num.clone() % self.denom.clone();
+        // Integer division should be round-to-zero division
+        let mut div = self.num / self.denom.clone();
+        // For negatives, turn it into floor division
+        if diff < T::zero() {
+            diff = diff + self.denom.clone();
+            div = div - T::one();
+        }
         // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
+        let add = if diff > (self.denom / two) {
             T::one()
         } else {
             T::zero()
         };
-        // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
-        let div = self.num / self.denom;
         // Floor div, add one if we should round up
         Rat::new(div + add, T::one()).unwrap()
     }
-- 
2.43.0


From 357a463b1447a9aae9cbd907c0737020a431b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:47 +0000
Subject: [PATCH 44/44] fix: floor of negative rationals rounded towards zero

---
 crates/reals/src/rat.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 436e1da..23e17c5 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -232,8 +232,13 @@ impl<T: Integral + Gcd<Output = T>> Numeric for Rat<T> {}
 
 impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     fn floor(self) -> Self {
-        let diff = self.num.clone() % self.denom.clone();
-        Rat::new((self.num - diff) / self.denom, T::one()).unwrap()
+        // Integer division rounds towards zero, which is up for negative values
+        let sub = if self.num.clone() % self.denom.clone() < T::zero() {
+            T::one()
+        } else {
+            T::zero()
+        };
+        Rat::new(self.num / self.denom - sub, T::one()).unwrap()
     }
 
     fn ceil(self) -> Self {
-- 
2.43.0

