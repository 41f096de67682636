From 1f5f85eb2f82185a876389e9c0203bcdd7a17f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 01/53] fix: keep BigInt canonical and in bounds in operator++
 and operator--

Incrementing a value whose top word is INT64_MAX wrote past the end of the
words, and a carry or borrow that stopped below the top word skipped Trim, so
that equal values could compare as different.
---
 include/walnut/big_int.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..65c4ca3 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -317,13 +317,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -390,6 +390,7 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
-- 
2.43.0


From 6fcb01be39043e15845f9f677789707967725c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 02/53] fix: let BigInt += and -= take the object itself as the
 operand

The loop bound was read from the operand after the words were resized.
---
 include/walnut/big_int.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 65c4ca3..c76968d 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -274,15 +274,18 @@ class BigInt {
     size_t common_words = std::min(words_.size(), other.words_.size());
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
-    size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as `this`, so read its size before
+    // resizing.
+    const size_t old_used_words = used_words();
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -346,15 +349,18 @@ class BigInt {
     size_t common_words = std::min(words_.size(), other.words_.size());
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
-    size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be the same object as `this`, so read its size before
+    // resizing.
+    const size_t old_used_words = used_words();
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From 9b74c5f2dd8a0f443feb3cdc0cf0352a04087950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 03/53] fix: BigInt::abs of the most negative single word

The absolute value does not fit in one signed word.
---
 include/walnut/big_int.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index c76968d..9862e12 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -736,9 +736,6 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
-      return BigInt(BigIntWord{words_[0].SignedAbs()});
-    }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
       return *this;
     } else {
-- 
2.43.0


From 9aaf952a39361e799eb199b74b80a12bd5049ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 04/53] fix: BigInt division of the most negative single word
 by -1

The quotient does not fit in one signed word, so the native division trapped.
---
 include/walnut/big_int.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 9862e12..34ff85d 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -660,7 +660,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWord(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -684,7 +684,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWord(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -694,7 +694,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWord(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -833,6 +833,13 @@ class BigInt {
   }
 
  protected:
+  // Returns true if `this` and `other` are both single words and dividing them
+  // as words does not overflow, which dividing by -1 could do.
+  constexpr bool CanDivideAsWord(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           other.words_[0] != BigUIntWord{-1};
+  }
+
   static constexpr bool CanTrim(BigUIntWord low, BigUIntWord high) {
     // The high word must be 0 or -1.
     if (high.Add(BigUIntWord{1}) > BigUIntWord{1}) return false;
-- 
2.43.0


From 31f2aca80b4ea374f3d5bda15e1585d62c9849e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 05/53] fix: single word DivideRemainder when the remainder is
 stored over the divisor

Only the dividend is documented as not being allowed as the remainder output,
but the divisor was overwritten before it was used to find the quotient.
---
 include/walnut/big_int.h  | 4 +++-
 include/walnut/big_uint.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 34ff85d..a64218a 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -685,9 +685,11 @@ class BigInt {
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
     if (CanDivideAsWord(other)) {
+      // `remainder_out` may equal `other`, so it has to be written last.
+      BigInt quotient{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
-      return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
+      return quotient;
     }
     return DivideRemainderSlow(other, remainder_out);
   }
diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..9bd02aa 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -143,8 +143,10 @@ class BigUInt {
   // Divide `this` by `other`. Return the quotient and store the remainder in `remainder_out`.
   BigUInt DivideRemainder(const BigUInt& other, BigUInt* remainder_out) const {
     if (used_words() == 1 && other.used_words() == 1) {
+      // `remainder_out` may equal `other`, so it has to be written last.
+      BigUInt quotient{words_[0] / other.words_[0]};
       *remainder_out = BigUInt{words_[0] % other.words_[0]};
-      return BigUInt{words_[0] / other.words_[0]};
+      return quotient;
     }
     return DivideRemainderSlow(other, remainder_out);
   }
-- 
2.43.0


From 82902ff134d13e65273ae226214fcf8d14361f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 06/53] fix: out of bounds read in BigUInt long division

The remainder may be trimmed below the word that the next round inspects, for
example in 2^159 / (2^96 - 1).
---
 include/walnut/big_uint.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 9bd02aa..d773f90 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -267,6 +267,9 @@ class BigUInt {
   BigUIntWord GetAtBitOffset(size_t shift) const {
     size_t word_index = shift / bits_per_word;
     unsigned word_offset = shift % bits_per_word;
+    if (word_index >= words_.size()) {
+      return BigUIntWord{0};
+    }
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
-- 
2.43.0


From d33cc7199e7be6e9ee43ea8726a8d3d0abb4ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 07/53] fix: zero the low words in BigUInt shift left by two or
 more words

---
 include/walnut/big_uint.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index d773f90..3c28c1e 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -76,6 +76,9 @@ class BigUInt {
       result.words_.resize(allocate);
       BigUIntWord prev(0);
       const int prev_right_shift = bits_per_word - word_left_shift;
+      for (size_t i = 0; i < out; ++i) {
+        result.words_[i] = 0;
+      }
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in] << word_left_shift |
                                prev >> prev_right_shift;
@@ -86,6 +89,9 @@ class BigUInt {
     } else {
       size_t copy = used_words();
       result.words_.resize(copy + out);
+      for (size_t i = 0; i < out; ++i) {
+        result.words_[i] = 0;
+      }
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in];
       }
-- 
2.43.0


From f1c4ff92fbc3a9a4b8c96f533fe1a9481221a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:33 +0000
Subject: [PATCH 08/53] fix: zero the word that BigUInt::AddLeftShifted adds
 for a carry

---
 include/walnut/big_uint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 3c28c1e..1e6715c 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -187,7 +187,7 @@ class BigUInt {
       pos++;
     }
     for (; carry; pos++) {
-      words_.resize(std::max(used_words(), (pos + 1)));
+      words_.resize(std::max(used_words(), (pos + 1)), BigUIntWord{0});
       words_[pos] = words_[pos].Add(carry, &carry);
     }
     assert(used_words() == std::max(old_used, pos));
-- 
2.43.0


From efa8ded98e725bec5b8164b3935f210fb2e35b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/53] fix: convert BigInts near the floating point range
 limit without overflowing the top word

---
 src/walnut/big_int.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/walnut/big_int.cpp b/src/walnut/big_int.cpp
index b7d4281..e84d230 100644
--- a/src/walnut/big_int.cpp
+++ b/src/walnut/big_int.cpp
@@ -53,10 +53,11 @@ BigInt::operator double() const {
       return std::numeric_limits<double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp(BigIntWord{words_[used - 1]},
-                      static_cast<int>(first_shift)) +
-           words_[used - 2].ToDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2)));
+    // Combine the words before scaling the result. Otherwise the top word of a
+    // negative number could overflow, even if the whole number fits.
+    return std::ldexp(std::ldexp(BigIntWord{words_[used - 1]}, bits_per_word) +
+                          words_[used - 2].ToDoubleWithShift(0),
+                      static_cast<int>(bits_per_word * (used - 2)));
   }
 }
 
@@ -76,12 +77,14 @@ BigInt::operator long double() const {
       return std::numeric_limits<long double>::infinity() *
              BigIntWord{words_[used - 1]};
     }
-    return std::ldexp((long double)BigIntWord{words_[used - 1]},
-                      static_cast<int>(bits_per_word * (used - 1))) +
-           words_[used - 2].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 2))) +
-           words_[used - 3].ToLongDoubleWithShift(
-               static_cast<int>(bits_per_word * (used - 3)));
+    // Combine the words before scaling the result. Otherwise the top word of a
+    // negative number could overflow, even if the whole number fits.
+    return std::ldexp(std::ldexp((long double)BigIntWord{words_[used - 1]},
+                                 2 * bits_per_word) +
+                          words_[used - 2].ToLongDoubleWithShift(
+                              bits_per_word) +
+                          words_[used - 3].ToLongDoubleWithShift(0),
+                      static_cast<int>(bits_per_word * (used - 3)));
   }
 }
 
-- 
2.43.0


From d13ff19b4c58c1ac2edd0992532a9d0dcb942171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 10/53] fix: compare horizontal half spaces using the signs of
 their own normals

---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From d2bc05e4d43c2c8efbfb91877d3ef07c95145fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 11/53] fix: HomoPoint2::LexicographicallyLt with denominators
 of different signs

---
 include/walnut/homo_point2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..5ca8c02 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,9 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    const int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From ba366c3b02599abe758d6333b110e95f0793c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 12/53] fix: HalfSpace3Compare for planes whose normal
 components sum to 0

---
 include/walnut/half_space3.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..122437f 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,10 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    // Scale by the sum of the absolute values, because the plain sum could be 0
+    // for a valid plane.
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From dca1a26384b95e25a36c2764fc9215cb46517316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 13/53] fix: HomoPoint3::Get2DTwistDir for points with
 denominators of different signs

---
 src/walnut/homo_point3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..78cea8e 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,9 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  const BigInt cross = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  return (cross * p1.dist_denom().GetAbsMult(p3.dist_denom())).GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From c80f3654649b8064841c937bf9d220b5af02381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 14/53] fix: SubtractIdsFilter reads the content info of its
 first id

---
 include/walnut/boolean_operation_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..5240b84 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
-- 
2.43.0


From d22c5963bb88a7c4bf2bf525045e8f1644c42969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 15/53] fix: DiscountBorderPolygons counts only coplanar
 polygons as border

---
 include/walnut/polygon_event_point.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..6120c12 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -468,9 +468,9 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     assert(split_location_begin > 0);
     --split_location_begin;
     if (event_points[split_location_begin].start) {
-      // This event points to a border polygon, not a neg polygon.
+      // This event points to a border polygon or to a pos polygon, not a neg
+      // polygon.
       --neg_poly_count;
-      ++border_poly_count;
     }
   }
   split_location_end = split_index + 1;
@@ -481,7 +481,7 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     }
     ++split_location_end;
   }
-  for (size_t i = split_index; i < split_location_end; ++i) {
+  for (size_t i = split_location_begin; i < split_location_end; ++i) {
     if (event_points[i].start &&
         event_points[i].index.partner < split_location_end) {
       ++border_poly_count;
-- 
2.43.0


From 343847a2e6e8fb358e17ce8bc8a61cd8d7c2fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 16/53] fix: ApplySecondary may resume after skipped border
 events

---
 include/walnut/polygon_event_point.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index 6120c12..24e90be 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -819,8 +819,12 @@ void PolygonEventPointPartition::ApplySecondary(
                                                        pos_polygons);
   size_t neg_used = 0;
   size_t pos_used = 0;
+  // True if the event before `event_points_pos` was skipped, because it
+  // belonged to a border polygon.
+  bool skipped_border = false;
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
+    assert(event_points_pos->new_location || skipped_border);
+    skipped_border = false;
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
@@ -831,6 +835,7 @@ void PolygonEventPointPartition::ApplySecondary(
           event_points[end_event_index].index.partner =
               static_cast<size_t>(-2);
           ++event_points_pos;
+          skipped_border = true;
         } else {
           break;
         }
@@ -838,6 +843,7 @@ void PolygonEventPointPartition::ApplySecondary(
         size_t child_start_event_index = event_points_pos->index.partner;
         if (child_start_event_index == static_cast<size_t>(-2)) {
           ++event_points_pos;
+          skipped_border = true;
         } else {
           break;
         }
-- 
2.43.0


From 51f7967c1b6f2ada80ee9571347f033f43b122a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 17/53] fix: GetPosSideVertex returns a vertex index within the
 polygon

---
 include/walnut/convex_polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..f19284c 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -987,7 +987,7 @@ std::pair<int, size_t> ConvexPolygon<EdgeParent>::GetPosSideVertex(
     size_t mid = (begin + end) / 2;
     if (half_space.Compare(vertex(
           mid % vertex_count()).DropDimension(drop_dimension)) > 0) {
-      return std::make_pair(1, mid);
+      return std::make_pair(1, mid % vertex_count());
     }
     if (edge(mid % vertex_count()).line().d().DropDimension(drop_dimension)
                                   .Dot(half_space.normal()).GetSign() > 0) {
-- 
2.43.0


From 1a055153050f164eca01379c36197825d2d9d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 18/53] fix: divide the AABB diagonal length by the
 denominator, not its root

---
 include/walnut/aabb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 72b6535..e8d2577 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -166,7 +166,7 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator() / (double)denom());
+    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
   }
 
  private:
-- 
2.43.0


From 5fa68169bfe38cdbc4045285be79458bee5f4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 19/53] fix: keep the skipped border marker until main events
 are consumed

---
 include/walnut/polygon_event_point.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index 24e90be..40ff82e 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -824,7 +824,6 @@ void PolygonEventPointPartition::ApplySecondary(
   bool skipped_border = false;
   while (event_points_pos < event_points_end) {
     assert(event_points_pos->new_location || skipped_border);
-    skipped_border = false;
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
@@ -874,6 +873,7 @@ void PolygonEventPointPartition::ApplySecondary(
       process_heap_events = false;
       process_main_events = true;
     }
+    if (process_main_events) skipped_border = false;
     // Process all points events at the location.
     while (process_heap_events || process_main_events) {
       // Process the merge end events up to and at the main event location.
-- 
2.43.0


From 776459e5e4ccf28405e3636836d6333b08f37bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 20/53] fix: ConvexPolygon equality compares the edge data of
 every vertex

---
 include/walnut/convex_polygon.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index f19284c..e63b854 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -842,6 +842,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
   if (vertex_count() != other.vertex_count()) {
     return false;
   }
+  if (vertex_count() == 0) {
+    return true;
+  }
   size_t match_offset = 0;
   while (true) {
     if (match_offset == vertex_count()) {
@@ -853,7 +856,7 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From 71dfcb5f35940e43e2b3d7ccf83190cdca159076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 21/53] fix: keep the AABB tracker current in SplitEdge, Invert
 and edge merges

---
 include/walnut/aabb_convex_polygon.h        | 23 ++++++++++++++++++++
 include/walnut/convex_vertex_aabb_tracker.h | 24 +++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 0e1f71d..7affaf2 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -159,6 +159,18 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
     aabb_tracker_.RotateIndices(offset, vertex_count());
   }
 
+  // Overrides the non-virtual function from ConvexPolygon.
+  void SplitEdge(size_t split_index, HomoPoint3 mid_point) {
+    Parent::SplitEdge(split_index, std::move(mid_point));
+    aabb_tracker_.VertexInserted(split_index + 1);
+  }
+
+  // Overrides the non-virtual function from ConvexPolygon.
+  void Invert() {
+    Parent::Invert();
+    aabb_tracker_.InvertIndices(vertex_count());
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   ConvexPolygonSplitInfo GetSplitInfo(const HalfSpace3& half_space) const {
     switch (aabb().GetPlaneSide(half_space)) {
@@ -230,10 +242,21 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
 
     aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
                                             Parent::vertices_end());
+    other.aabb_tracker_ = ConvexVertexAABBTracker();
     return true;
   }
 
  protected:
+  // Overrides the non-virtual function from ConvexPolygon.
+  bool TryMergeEdge(size_t index) {
+    if (!Parent::TryMergeEdge(index)) {
+      return false;
+    }
+    aabb_tracker_ = ConvexVertexAABBTracker(Parent::vertices_begin(),
+                                            Parent::vertices_end());
+    return true;
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   template <typename ParentRef, typename SplitInfoRef>
   static void FillInSplitChildren(ParentRef&& parent, SplitInfoRef&& split,
diff --git a/include/walnut/convex_vertex_aabb_tracker.h b/include/walnut/convex_vertex_aabb_tracker.h
index 9302f2c..1684f5d 100644
--- a/include/walnut/convex_vertex_aabb_tracker.h
+++ b/include/walnut/convex_vertex_aabb_tracker.h
@@ -91,6 +91,30 @@ class ConvexVertexAABBTracker {
     }
   }
 
+  // Updates the extreme vertex indices after a vertex was inserted at `index`.
+  //
+  // The caller must ensure that the new vertex is between its neighbors, so
+  // that the bounding box does not change.
+  void VertexInserted(size_t index) {
+    for (size_t i = 0; i < 3; ++i) {
+      if (min_indices_[i] >= index) ++min_indices_[i];
+      if (max_indices_[i] >= index) ++max_indices_[i];
+    }
+  }
+
+  // Updates the extreme vertex indices after vertices [1, vertex_count) were
+  // reversed.
+  void InvertIndices(size_t vertex_count) {
+    for (size_t i = 0; i < 3; ++i) {
+      if (min_indices_[i] != 0) {
+        min_indices_[i] = vertex_count - min_indices_[i];
+      }
+      if (max_indices_[i] != 0) {
+        max_indices_[i] = vertex_count - max_indices_[i];
+      }
+    }
+  }
+
   // Creates both split children.
   //
   // This function may only be called if `split.ShouldEmitNegativeChild()`
-- 
2.43.0


From 0b0657d8d13a51e233c8ae21ce940782ba650650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 22/53] fix: grow the children's content info when content is
 added to a split node

---
 include/walnut/bsp_node.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..1e283c6 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -268,6 +268,13 @@ class BSPNode {
     }
   }
 
+  // Ensures `content_info_by_id_` has at least `size` entries.
+  void GrowContentInfo(size_t size) {
+    if (content_info_by_id_.size() < size) {
+      content_info_by_id_.resize(size);
+    }
+  }
+
   void SetPolygonCountFromContents() {
     for (PolygonRep& polygon : contents_) {
       content_info_by_id_[polygon.id].has_interior_polygons++;
@@ -600,6 +607,10 @@ void BSPNode<OutputPolygonParent>::PushContentsToChildren() {
   if (IsLeaf()) {
     return;
   }
+  // The children may have been created before some of the ids in
+  // `content_info_by_id_` were first used.
+  negative_child_->GrowContentInfo(content_info_by_id_.size());
+  positive_child_->GrowContentInfo(content_info_by_id_.size());
   PushContentPWNToChildren();
 
   for (PolygonRep& polygon : contents_) {
-- 
2.43.0


From a8b1862f918f8aa379fe01510394664f212a256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 23/53] fix: propagate the winding number of late content to
 all descendants

---
 include/walnut/bsp_node.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index 1e283c6..ea99bde 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -275,6 +275,16 @@ class BSPNode {
     }
   }
 
+  // Adds `delta` to the PWN of `id` in this node and all of its descendants.
+  void AddPWN(BSPContentId id, int delta) {
+    GrowContentInfo(id + 1);
+    content_info_by_id_[id].pwn += delta;
+    if (!IsLeaf()) {
+      negative_child_->AddPWN(id, delta);
+      positive_child_->AddPWN(id, delta);
+    }
+  }
+
   void SetPolygonCountFromContents() {
     for (PolygonRep& polygon : contents_) {
       content_info_by_id_[polygon.id].has_interior_polygons++;
@@ -524,9 +534,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AddPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -536,9 +544,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AddPWN(polygon.id, -push_info.first);
       }
     }
   }
-- 
2.43.0


From d8fcefa7632d803965dd30ae92ee689db7c88dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 24/53] fix: filters of inverted meshes treat an id without
 polygons as PWN 0

---
 include/walnut/boolean_operation_filter.h | 3 ++-
 include/walnut/bsp_visitor.h              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 5240b84..3507f48 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // There are no polygons with the id, so the PWN is 0 everywhere.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..87138f5 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // There are no polygons with the id, so the PWN is 0 everywhere.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From 8c4a5f6addea612817d464c822b2acb33b07d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 25/53] fix: cell borders skip split planes that miss the
 bounding box

---
 include/walnut/bsp_tree.h | 42 ++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/include/walnut/bsp_tree.h b/include/walnut/bsp_tree.h
index 1a823e5..12a8d27 100644
--- a/include/walnut/bsp_tree.h
+++ b/include/walnut/bsp_tree.h
@@ -138,19 +138,25 @@ BSPTree<ConvexPolygonTemplate>::GetNodeBorder(Iterator node_path_begin,
     if (*pos) {
       if (bounding_box_planes.find(-original_node->split()) ==
           bounding_box_planes.end()) {
-        mapped_root.AddRootContent(
-            cell_border_id,
-            bounding_box.IntersectPlane(-original_node->split()));
-        assert(mapped_root.contents().back().vertex_count() > 0);
+        MutableConvexPolygon<> border =
+          bounding_box.IntersectPlane(-original_node->split());
+        // The border is empty if the split plane does not intersect the
+        // bounding box.
+        if (border.vertex_count() > 0) {
+          mapped_root.AddRootContent(cell_border_id, std::move(border));
+        }
       }
       original_node = original_node->positive_child();
     } else {
       if (bounding_box_planes.find(original_node->split()) ==
           bounding_box_planes.end()) {
-        mapped_root.AddRootContent(
-            cell_border_id,
-            bounding_box.IntersectPlane(original_node->split()));
-        assert(mapped_root.contents().back().vertex_count() > 0);
+        MutableConvexPolygon<> border =
+          bounding_box.IntersectPlane(original_node->split());
+        // The border is empty if the split plane does not intersect the
+        // bounding box.
+        if (border.vertex_count() > 0) {
+          mapped_root.AddRootContent(cell_border_id, std::move(border));
+        }
       }
       original_node = original_node->negative_child();
     }
@@ -222,14 +228,22 @@ BSPTree<ConvexPolygonTemplate>::GetNodeBorderNoBoundWalls(
   // mapped_root.
   for (Iterator pos = node_path_begin; pos != node_path_end; ++pos) {
     if (*pos) {
-      mapped_root.AddRootContent(
-          /*id=*/0, bounding_box.IntersectPlane(-original_node->split()));
-      assert(mapped_root.contents().back().vertex_count() > 0);
+      MutableConvexPolygon<> border =
+        bounding_box.IntersectPlane(-original_node->split());
+      // The border is empty if the split plane does not intersect the bounding
+      // box.
+      if (border.vertex_count() > 0) {
+        mapped_root.AddRootContent(/*id=*/0, std::move(border));
+      }
       original_node = original_node->positive_child();
     } else {
-      mapped_root.AddRootContent(
-          /*id=*/0, bounding_box.IntersectPlane(original_node->split()));
-      assert(mapped_root.contents().back().vertex_count() > 0);
+      MutableConvexPolygon<> border =
+        bounding_box.IntersectPlane(original_node->split());
+      // The border is empty if the split plane does not intersect the bounding
+      // box.
+      if (border.vertex_count() > 0) {
+        mapped_root.AddRootContent(/*id=*/0, std::move(border));
+      }
       original_node = original_node->negative_child();
     }
   }
-- 
2.43.0


From 3f991859775f068a6a8ae7931d66863246e008f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 26/53] fix: ConcatRange iterator offsets advance within a
 range and reach the end

---
 include/walnut/concat_range.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 3e025e1..18816fe 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -221,9 +221,12 @@ class ConcatRangeIteratorHelper {
 
   ConcatRangeIteratorHelper operator+(size_t index) const {
     ConcatRangeIteratorHelper copy(*this);
-    while (true) {
+    while (index != 0) {
       size_t range_size = copy.range_end() - copy.input_pos();
-      if (index < range_size) break;
+      if (index < range_size) {
+        copy.pos_ += index;
+        break;
+      }
       copy.AdvanceRange();
       index -= range_size;
     }
-- 
2.43.0


From 47e1d8d28794f8388d3b8298bc74966514d2c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 27/53] fix: ConcatRange::Prepend keeps the order of the
 prepended and existing ranges

---
 include/walnut/concat_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 18816fe..0d00b53 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -73,7 +73,7 @@ class ConcatRange {
     Append(start, end);
 
     std::rotate(/*first=*/ranges_.begin(),
-        /*n_first=*/ranges_.begin() + ranges_.size() - original_ranges_size,
+        /*n_first=*/ranges_.begin() + (original_ranges_size - 1),
         /*last=*/ranges_.end() - 1);
   }
 
-- 
2.43.0


From 2ef4be8c3d8d81ac6db7452bdfd33db6e269dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 28/53] fix: TransformIterator copies made by its operators
 keep the transformer

---
 include/walnut/transform_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/walnut/transform_iterator.h b/include/walnut/transform_iterator.h
index be94507..a6db800 100644
--- a/include/walnut/transform_iterator.h
+++ b/include/walnut/transform_iterator.h
@@ -71,7 +71,7 @@ class TransformIterator {
   }
 
   TransformIterator operator++(int) {
-    return TransformIterator(input_iterator_++);
+    return TransformIterator(input_iterator_++, transform_);
   }
 
   auto& operator--() {
@@ -80,15 +80,15 @@ class TransformIterator {
   }
 
   auto operator--(int) {
-    return TransformIterator(input_iterator_--);
+    return TransformIterator(input_iterator_--, transform_);
   }
 
   auto operator+(difference_type offset) const {
-    return TransformIterator(input_iterator_ + offset);
+    return TransformIterator(input_iterator_ + offset, transform_);
   }
 
   auto operator-(difference_type offset) const {
-    return TransformIterator(input_iterator_ - offset);
+    return TransformIterator(input_iterator_ - offset, transform_);
   }
 
   template <typename OtherInputIterator>
-- 
2.43.0


From b804499ffc6ba25f30a2a3079ab87aa654175ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:29 +0000
Subject: [PATCH 29/53] fix: a GenericDeed of a null pointer is empty

---
 include/walnut/deed.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..f24f93b 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,7 +55,8 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
+    if (object == nullptr) return;
+    if (object->owner_ != nullptr) {
       lender_ = object->owner_;
       lender_->MarkLent();
     }
-- 
2.43.0


From 3e62e0849b50f5116ff5fe7c77efbbe19f1a9df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 30/53] fix: GenericDeed::Lend makes the borrower the owner of
 the object

---
 include/walnut/deed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index f24f93b..d379190 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -151,6 +151,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From fd65d6da6a1031bdd6a2e25c1aa54130212d5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:46 +0000
Subject: [PATCH 31/53] fix: VertexDoublePoint3Mapper merges whole groups of
 representations

---
 include/walnut/vertex_double_point3_mapper.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/walnut/vertex_double_point3_mapper.h b/include/walnut/vertex_double_point3_mapper.h
index 1ab230d..dc0decd 100644
--- a/include/walnut/vertex_double_point3_mapper.h
+++ b/include/walnut/vertex_double_point3_mapper.h
@@ -79,7 +79,9 @@ struct VertexDoublePoint3Mapper {
       if (next_it == map.end()) {
         map.emplace(next_point, result.second);
       } else if (next_it->second != result.second) {
-        merger(result.second, next_it->second);
+        // Merge the primaries. If only one of the redirected entries was
+        // changed, the rest of its group would be left behind.
+        merger(result.second.primary(), next_it->second.primary());
       }
     }
     return result;
-- 
2.43.0


From c0692222fb4271ae2d13e3f1594b8607d31915ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 32/53] fix: MonotoneDecomposer multiplies only the reduced
 turn direction

---
 include/walnut/monotone_decomposer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..8e900d0 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -120,9 +120,9 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
           convex_top_.end()[-2] : convex_bottom_.front();
         const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
           convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
+        if (p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
               orientation_ <= 0 &&
-            p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
+            p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) *
               orientation_ >= 0) {
           if (p3_is_top_chain) {
             if (p1 != p3) {
-- 
2.43.0


From ec18841731d2534929f0a037b5587c52e29c365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 33/53] fix: MonotoneRange removes a vertex even if only one
 edge is monotone

---
 include/walnut/monotone_range.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..e5e111d 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -248,6 +248,8 @@ inline void MonotoneRange<Point3Iterator>::Build(
     chain_dir_ = 0;
     return;
   }
+  const Point3Iterator input_begin = remaining_begin;
+  const Point3Iterator input_end = remaining_end;
   Point3Iterator range_end = remaining_end;
   --remaining_end;
 
@@ -370,6 +372,26 @@ inline void MonotoneRange<Point3Iterator>::Build(
   if (remaining_begin != remaining_end) {
     --remaining_begin;
     ++remaining_end;
+
+    if (remaining_begin == input_begin && remaining_end == input_end) {
+      // The only accepted vertices are the last and the first one, because the
+      // second vertex comes before the last vertex (relative to chain_dir_).
+      // Output the triangle formed by those 3 vertices instead, so that the
+      // first vertex is removed from the remaining range.
+      Point3Iterator second = input_begin;
+      ++second;
+      Point3Iterator after_second = second;
+      ++after_second;
+      Point3Iterator last = input_end;
+      --last;
+      chain1_.Clear();
+      chain1_.Append(second, after_second);
+      chain1_.Append(last, input_end);
+      chain1_.Append(input_begin, second);
+      chain2_.Clear();
+      chain2_.Append(input_begin, after_second);
+      remaining_begin = second;
+    }
   }
 }
 
-- 
2.43.0


From 01d69270c17b4a30b4dac1460f137a562acb5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 34/53] fix: MonotoneDecomposer does not merge triangles of
 opposite orientation

---
 include/walnut/monotone_decomposer.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 8e900d0..8ea47b0 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -109,18 +109,24 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
       assert(!convex_bottom_.empty());
       if (convex_top_.back() == p1 && convex_bottom_.back() == p2) {
         bool set_orientation = false;
+        const int triangle_orientation =
+          p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
         if (orientation_ == 0) {
           set_orientation = true;
-          orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+          orientation_ = triangle_orientation;
         }
         // For non-self-intersecting polygons, orientation_ will always be 0 or
         // -1. However for self-intersecting polygons, the triangulator can
         // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
+        // The first triangle of the convex polygon may have duplicate vertices.
+        const Point3Rep& prev_top =
+          convex_top_.size() > 1 && convex_top_.end()[-2] != p1 ?
           convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
+        const Point3Rep& prev_bottom =
+          convex_bottom_.size() > 1 && convex_bottom_.end()[-2] != p2 ?
           convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
+        if (triangle_orientation * orientation_ >= 0 &&
+            p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
               orientation_ <= 0 &&
             p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) *
               orientation_ >= 0) {
-- 
2.43.0


From 28a295b187d24a9b0bf4f42c5ccff987bf3095d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 35/53] fix: DetectOrientation examines all of chain2 before it
 reports collinear vertices

---
 include/walnut/orienting_monotone_decomposer.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..aaa4f2c 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -220,18 +220,14 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   while (true) {
     // Entries are preferentially taken from chain1, and both chains contain
     // the max element. So as long as chain1 is not completely consumed,
-    // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    // chain2 still contains at least the max element. After that, chain2 may
+    // still contain more vertices with the same component as the max element.
+    if (chain1_pos == chain1_end && chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
       return false;
     }
     assert(chain2_pos != chain2_end);
-    const bool chain1_is_current =
+    const bool chain1_is_current = chain1_pos != chain1_end &&
       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
-- 
2.43.0


From 2aa3349a34f9707a1be7ce17b334d662e887521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 36/53] fix: PlanarRange finds the plane of loops whose last
 and first points are equal

---
 include/walnut/planar_range.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..15a6cb8 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -102,12 +102,13 @@ inline void PlanarRange<Point3Iterator>::Build(
     return;
   }
 
-  const Point3Rep& p2 = *remaining_begin;
+  const Point3Rep* p2 = &*remaining_begin;
   size_ = 2;
   ++remaining_begin;
 
-  // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-  // p3 such that p1, p2, and p3 are not coincident.
+  // Keep p1 and p2 pointing to where they are, except that p2 skips points that
+  // are equal to p1. Use the next soonest point for p3 such that p1, p2, and p3
+  // are not coincident.
   //
   // After the loop ends, `plane_` holds the plane formed from p1, p2, and p3.
   do {
@@ -117,7 +118,10 @@ inline void PlanarRange<Point3Iterator>::Build(
       return;
     }
     const Point3Rep& p3 = *remaining_begin;
-    plane_ = HalfSpace3(p1, p2, p3);
+    plane_ = HalfSpace3(p1, *p2, p3);
+    if (p1 == *p2) {
+      p2 = &p3;
+    }
     ++size_;
     ++remaining_begin;
   } while (!plane_.IsValid());
-- 
2.43.0


From dc59cdd03aa1d965dbd3b5178b8fb91eb2ece423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 37/53] fix: NudgingPlaneBuilder forgets the plane it cached
 before a constrained vertex

---
 include/walnut/nudging_plane_builder.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index a5f7448..3362d80 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -77,6 +77,9 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
     ++constrained_count_;
+    // Any plane that was cached by `HasLargePlane` does not take the new vertex
+    // into account.
+    plane_set_ = false;
 
     if (constrained_count_ == 3) {
       plane_ = BuildFromPlaneInfo();
-- 
2.43.0


From 2d59b6131746ea9b3ef5bbd4042598f980589923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 38/53] fix: MeshPlaneRepairer keeps the vertex order of the
 second part of a split facet

---
 include/walnut/mesh_plane_repairer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 9a1ebd8..d9f395d 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -230,10 +230,9 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
       polygon_vertices_.push_back(*it);
     }
 
-    // Copy the end portion of the accepted range in reverse order.
-    for (ActiveVertexIterator it = accepted_from_end_end;
-         it != remaining_end;) {
-      --it;
+    // Copy the end portion of the accepted range.
+    for (ActiveVertexIterator it = remaining_end;
+         it != accepted_from_end_end; ++it) {
       (*it)->TryAddAdjacent(&polygon.plane);
       polygon_vertices_.push_back(*it);
     }
-- 
2.43.0


From abaf0094a0482bc59ff9426dbaa101bc25ee1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:24 +0000
Subject: [PATCH 39/53] fix: MeshPlaneRepairer moves vertices between the parts
 of a split facet far away

---
 include/walnut/mesh_plane_repairer.h | 23 +++++++++++++++++++----
 src/walnut/mesh_plane_repairer.cpp   |  4 ++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index d9f395d..29db526 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -25,8 +25,15 @@ class MeshPlaneRepairerBase {
     // Adjust `point` to be coincident with the adjacent planes.
     void Finalize();
 
-    bool CanAddAdjacent() {
-      return plane_count < 3;
+    bool CanAddAdjacent() const {
+      return !fixed && plane_count < 3;
+    }
+
+    // Adjusts `point` to be coincident with the planes found so far, and
+    // prevents any further adjustments.
+    void Fix() {
+      if (CanAddAdjacent()) Finalize();
+      fixed = true;
     }
 
     void TryAddAdjacent(const HalfSpace3* polygon);
@@ -34,8 +41,11 @@ class MeshPlaneRepairerBase {
     std::array<const HalfSpace3*, 3> adjacent;
     // The number of used entries in `adjacent`.
     size_t plane_count = 0;
-    // This may be changed until `plane_count` equals 3, or the mesh has been
-    // finalized.
+    // True if `point` must not be changed anymore, even though `plane_count` is
+    // less than 3.
+    bool fixed = false;
+    // This may be changed until `plane_count` equals 3, `Fix` is called, or the
+    // mesh has been finalized.
     HomoPoint3 point;
   };
 
@@ -244,6 +254,11 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
     // polygon.
     --remaining_begin;
     ++remaining_end;
+    // The planes of the two polygons are typically almost parallel, so their
+    // intersection could be far away from these vertices. Move the vertices onto
+    // the first plane now, so that the next plane goes through them.
+    (*remaining_begin)->Fix();
+    (*(remaining_end - 1))->Fix();
   }
 
   active_polygon_vertices_.clear();
diff --git a/src/walnut/mesh_plane_repairer.cpp b/src/walnut/mesh_plane_repairer.cpp
index a428307..3d593da 100644
--- a/src/walnut/mesh_plane_repairer.cpp
+++ b/src/walnut/mesh_plane_repairer.cpp
@@ -7,7 +7,7 @@ namespace walnut {
 
 void MeshPlaneRepairerBase::VertexInfo::TryAddAdjacent(
     const HalfSpace3* polygon) {
-  if (plane_count < 3) {
+  if (CanAddAdjacent()) {
     // Don't allow duplicate planes
     for (size_t i = 0; i < plane_count; ++i) {
       if (adjacent[i]->IsSameOrOpposite(*polygon)) {
@@ -132,7 +132,7 @@ HalfSpace3 MeshPlaneRepairerBase::GetNextPlanarRange(
 
 void MeshPlaneRepairerBase::FinalizeVertices() {
   for (VertexInfo& vertex : vertex_info_storage_) {
-    if (vertex.plane_count != 3) vertex.Finalize();
+    if (vertex.CanAddAdjacent()) vertex.Finalize();
   }
 }
 
-- 
2.43.0


From e0056cc76cfded5c4e4cfadba4384a5e48e79750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:43 +0000
Subject: [PATCH 40/53] fix: MeshPlaneRepairer divides by zero if the first
 vertices of a facet are collinear

---
 include/walnut/nudging_plane_builder.h | 45 +++++++++----------
 src/walnut/nudging_plane_builder.cpp   | 61 +++++++++++++++++---------
 2 files changed, 61 insertions(+), 45 deletions(-)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index 3362d80..6563c8a 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -13,6 +13,9 @@ namespace walnut {
 class NudgingPlaneBuilder {
  public:
   // Adds an unconstrained vertex (one that can be nudged) to the plane.
+  //
+  // Vertices that are collinear with the vertices the plane is already built
+  // from do not contribute to it.
   void AddUnconstrained(const HomoPoint3* vertex);
 
   // Tries to add a constrained vertex to the plane.
@@ -24,7 +27,7 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained`, and the vertices must not all be collinear.
   HalfSpace3 Build() const& {
     if (plane_set_) {
       return plane_;
@@ -36,7 +39,7 @@ class NudgingPlaneBuilder {
   // Use the accepted vertices to build a plane.
   //
   // This may only be called after 3 or more calls to `AddUnconstrained` and
-  // `TryAddConstrained`.
+  // `TryAddConstrained`, and the vertices must not all be collinear.
   HalfSpace3 Build() && {
     if (plane_set_) {
       return std::move(plane_);
@@ -55,42 +58,34 @@ class NudgingPlaneBuilder {
     bool constrained;
     const HomoPoint3* vertex;
   };
-  std::array<VertexInfo, 6> plane_info_;
+
+  // Returns true if there is only one line through `vertex` and 2 entries of
+  // `plane_info_`.
+  bool IsCollinear(size_t entry1, size_t entry2,
+                   const HomoPoint3* vertex) const {
+    return !HalfSpace3(*plane_info_[entry1].vertex,
+                       *plane_info_[entry2].vertex, *vertex).IsValid();
+  }
+
+  // The vertices that the plane is built from, in the order they were added.
+  // These are never collinear.
+  std::array<VertexInfo, 3> plane_info_;
   size_t plane_info_used_ = 0;
   size_t constrained_count_ = 0;
-  // This is only initialized if constrained_count_ == 3.
+  // This is only initialized if `plane_set_` is true.
   HalfSpace3 plane_;
   bool plane_set_ = false;
 };
 
 inline void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
-  if (plane_info_used_ < 3) {
+  if (plane_info_used_ < 3 &&
+      !(plane_info_used_ == 2 && IsCollinear(0, 1, vertex))) {
     plane_info_[plane_info_used_].constrained = false;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
   }
 }
 
-inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
-  if (constrained_count_ < 3) {
-    plane_info_[plane_info_used_].constrained = true;
-    plane_info_[plane_info_used_].vertex = vertex;
-    ++plane_info_used_;
-    ++constrained_count_;
-    // Any plane that was cached by `HasLargePlane` does not take the new vertex
-    // into account.
-    plane_set_ = false;
-
-    if (constrained_count_ == 3) {
-      plane_ = BuildFromPlaneInfo();
-      plane_set_ = true;
-    }
-    return true;
-  } else {
-    return plane_.IsCoincident(*vertex);
-  }
-}
-
 inline bool NudgingPlaneBuilder::HasLargePlane() {
   if (plane_info_used_ < 3) return false;
 
diff --git a/src/walnut/nudging_plane_builder.cpp b/src/walnut/nudging_plane_builder.cpp
index 30ab83e..6d4caaf 100644
--- a/src/walnut/nudging_plane_builder.cpp
+++ b/src/walnut/nudging_plane_builder.cpp
@@ -2,29 +2,50 @@
 
 namespace walnut {
 
-HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
-  std::array<const HomoPoint3*, 3> filtered_vertices;
-  // The number of remaining unconstrained vertices to accept.
-  size_t accept_unconstrained = 3 - constrained_count_;
+bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
+  if (constrained_count_ == 3) {
+    return plane_.IsCoincident(*vertex);
+  }
 
-  for (size_t i = 0, accepted = 0; accepted < 3; ++i) {
-    const VertexInfo& info = plane_info_[i];
-    bool accept;
-    if (info.constrained) {
-      accept = true;
-    } else if (accept_unconstrained > 0) {
-      accept = true;
-      --accept_unconstrained;
-    } else {
-      accept = false;
-    }
-    if (accept) {
-      filtered_vertices[accepted] = info.vertex;
-      ++accepted;
+  const bool collinear = plane_info_used_ == 2 && IsCollinear(0, 1, vertex);
+  if (plane_info_used_ == 3 || collinear) {
+    // Replace the last unconstrained vertex that can be removed without making
+    // the remaining vertices collinear.
+    size_t remove = plane_info_used_;
+    do {
+      if (remove == 0) {
+        // `vertex` is collinear with 2 constrained vertices, so every plane
+        // through them goes through `vertex` too.
+        return true;
+      }
+      --remove;
+    } while (plane_info_[remove].constrained ||
+             (!collinear &&
+              IsCollinear((remove + 1) % 3, (remove + 2) % 3, vertex)));
+    for (; remove + 1 < plane_info_used_; ++remove) {
+      plane_info_[remove] = plane_info_[remove + 1];
     }
+    --plane_info_used_;
   }
-  HalfSpace3 result(*filtered_vertices[0], *filtered_vertices[1],
-                    *filtered_vertices[2]);
+
+  plane_info_[plane_info_used_].constrained = true;
+  plane_info_[plane_info_used_].vertex = vertex;
+  ++plane_info_used_;
+  ++constrained_count_;
+  // Any plane that was cached by `HasLargePlane` does not take the new vertex
+  // into account.
+  plane_set_ = false;
+
+  if (constrained_count_ == 3) {
+    plane_ = BuildFromPlaneInfo();
+    plane_set_ = true;
+  }
+  return true;
+}
+
+HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
+  HalfSpace3 result(*plane_info_[0].vertex, *plane_info_[1].vertex,
+                    *plane_info_[2].vertex);
   result.Reduce();
   return result;
 }
-- 
2.43.0


From 52948a3cd932199c409525165acbac90db9fa362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 41/53] fix: vtk_to_walnut_mesh.h cannot be included in more
 than one translation unit

---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 59c5819..407db3d 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -14,9 +14,9 @@ namespace walnut {
 //
 // The result is quantized to 2^min_exponent. Set `min_exponent` to INT_MIN to
 // avoid quantization.
-std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
-                                                    int min_exponent,
-                                                    bool flip) {
+inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
+                                                           int min_exponent,
+                                                           bool flip) {
   class Collector : public ConvexPolygonFactory<HomoPoint3> {
    public:
     using ConvexPolygonFactory<HomoPoint3>::ConvexPolygonRep;
-- 
2.43.0


From d9badde03878fb6f50ea7bfac58ff844ac0760e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 42/53] fix: VTKToWalnutMesh reads every triangle of a strip
 from its first three points

---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 407db3d..1921a4f 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -86,11 +86,11 @@ inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
   while (input->GetStrips()->GetNextCell(vertex_count, input_vertices)) {
     for (vtkIdType i = 0; i < vertex_count - 2; ++i) {
       HomoPoint3 vertices[3];
-      if ((i & 0) ^ flip) {
+      if ((i & 1) ^ flip) {
         // The vertices are in clockwise order. Reverse them first.
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[2 - j], coordinates);
+          input->GetPoint(input_vertices[i + 2 - j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
@@ -98,7 +98,7 @@ inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
       } else {
         double coordinates[3];
         for (int j = 0; j < 3; ++j) {
-          input->GetPoint(input_vertices[j], coordinates);
+          input->GetPoint(input_vertices[i + j], coordinates);
           vertices[j] = HomoPoint3::FromDoubles(min_exponent, coordinates[0],
                                                 coordinates[1],
                                                 coordinates[2]);
-- 
2.43.0


From 7dfd9ee64e48f09d40733928c7f11c0a39461891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 43/53] fix: VTKToWalnutMesh creates invalid polygons for the
 degenerate triangles of strips

---
 vtk_interface/include/walnut/vtk_to_walnut_mesh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
index 1921a4f..096728e 100644
--- a/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
+++ b/vtk_interface/include/walnut/vtk_to_walnut_mesh.h
@@ -105,6 +105,9 @@ inline std::vector<MutableConvexPolygon<>> VTKToWalnutMesh(vtkPolyData* input,
         }
       }
       HalfSpace3 plane(vertices[0], vertices[1], vertices[2]);
+      // Skip triangles without an area. They are commonly used to connect
+      // strips.
+      if (!plane.IsValid()) continue;
       int drop_dimension = plane.normal().GetFirstNonzeroDimension();
       polygon_factory.result.emplace_back(std::move(plane), drop_dimension,
                                           std::move(vertices));
-- 
2.43.0


From 06c2e319c20e7b0d2ab568864d355d852aa31959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:26 +0000
Subject: [PATCH 44/53] fix: SaveWalnutMeshToVTK rounds the exported points to
 single precision

---
 vtk_interface/include/walnut/walnut_to_vtk_mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vtk_interface/include/walnut/walnut_to_vtk_mesh.h b/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
index b2b56bb..4a9fb0e 100644
--- a/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
+++ b/vtk_interface/include/walnut/walnut_to_vtk_mesh.h
@@ -66,6 +66,8 @@ SaveWalnutMeshToVTK(const std::vector<Polygon>& mesh,
   // Now that all points have been inserted and merged into `map`, they can be
   // added to `points`.
   auto points = vtkSmartPointer<vtkPoints>::New();
+  // The default of vtkPoints is single precision.
+  points->SetDataTypeToDouble();
   for (std::pair<const DoublePoint3, RedirectableValue<vtkIdType>>& p : map) {
     if (p.second.IsPrimary()) {
       *p.second = points->InsertNextPoint(p.first.x, p.first.y, p.first.z);
@@ -97,6 +99,8 @@ std::enable_if_t<!IsConnectedPolygon<Polygon>::value>
 SaveWalnutMeshToVTK(const std::vector<Polygon>& mesh, vtkPolyData* save_to) {
   std::unordered_map<DoublePoint3, vtkIdType> point_map;
   auto points = vtkSmartPointer<vtkPoints>::New();
+  // The default of vtkPoints is single precision.
+  points->SetDataTypeToDouble();
 
   auto cell_array = vtkSmartPointer<vtkCellArray>::New();
   for (const Polygon& polygon : mesh) {
-- 
2.43.0


From 5591638aacece4b50d78666575fae84dcae533f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 45/53] fix: do not merge edges when only one of them has a
 partner

ConnectedEdge::Merge dereferenced a null partner when an unpartnered edge
of an open mesh was merged with a partnered one. In the opposite case the
merged edge kept a partner that only matched part of it.
---
 include/walnut/connected_polygon.h | 37 ++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/walnut/connected_polygon.h b/include/walnut/connected_polygon.h
index 977176a..751b722 100644
--- a/include/walnut/connected_polygon.h
+++ b/include/walnut/connected_polygon.h
@@ -141,7 +141,12 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   }
 
   bool CanMerge(const ConnectedEdge& next) const {
-    if (partner() != nullptr && next.partner() != nullptr) {
+    if ((partner() != nullptr) != (next.partner() != nullptr)) {
+      // Only one of the edges has a partner, which happens when the polyhedron
+      // is not closed. The partner would not match up with the merged edge.
+      return false;
+    }
+    if (partner() != nullptr) {
       if (&partner()->polygon() != &next.partner()->polygon()) {
         // The edges have different partner polygons. They cannot be merged.
         return false;
@@ -153,14 +158,19 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
       const FinalEdgeRep& partner =
         next.partner()->polygon().edge(next.partner()->edge_index());
 
-      // Temporarily unlink the partner to prevent an infinite loop. Even
-      // though the partner points to `this`, save the value because `this` is
-      // a const pointer and `old_value` is non-const.
+      // Temporarily unlink the partners to prevent an infinite loop. Even
+      // though the partners point to `this` and `next`, save the values
+      // because the latter are const pointers and the saved values are
+      // non-const.
       ConnectedEdge* old_value = partner_->partner_;
+      ConnectedEdge* next_old_value = next.partner_->partner_;
       assert(old_value == this);
+      assert(next_old_value == &next);
       partner_->partner_ = nullptr;
+      next.partner_->partner_ = nullptr;
       bool merge_result = partner.CanMerge(/*next=*/next_partner);
       partner_->partner_ = old_value;
+      next.partner_->partner_ = next_old_value;
       if (!merge_result) return false;
     }
     return Parent::CanMerge(next);
@@ -197,14 +207,23 @@ class ConnectedEdge : public ParentTemplate, public DeedTarget {
   void Merge(ConnectedEdge& next) {
     assert(CanMerge(next));
     if (next.partner() != nullptr) {
-      // This signals the partner not to try and merge this polygon's edges
-      // again (preventing an infinite loop).
+      FinalPolygon& partner_polygon = next.partner_->polygon();
+      const size_t partner_index = next.partner_->edge_index();
+      // The merged edge is moved down if the edge removed from the partner
+      // polygon is the one at index 0.
+      const size_t merged_partner_index =
+        partner_index + 1 == partner_polygon.vertex_count() ?
+        partner_index - 1 : partner_index;
+      // Unlink the partners so that they do not try and merge this polygon's
+      // edges again (preventing an infinite loop).
       partner_->partner_ = nullptr;
-      partner_ = next.partner_;
-      partner_->partner_ = this;
+      partner_ = nullptr;
+      next.partner_->partner_ = nullptr;
       next.partner_ = nullptr;
 
-      partner()->polygon().MergeConnectedEdge(partner()->edge_index());
+      partner_polygon.MergeConnectedEdge(partner_index);
+      partner_ = &partner_polygon.edge(merged_partner_index);
+      partner_->partner_ = this;
     }
     Parent::Merge(next);
   }
-- 
2.43.0


From 2b419275d5fb5d86741a9711c344db71fd75b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 46/53] fix: queue an edge that lost its partner only once

In an open mesh such an edge could fail to find a new partner both times it
was processed, and it was then split twice at the same location.
---
 include/walnut/edge_line_connector.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index c92025a..b020fb9 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -418,7 +418,6 @@ class EdgeLineConnector {
       if (remove->second.partner != active_edges.end()) {
         ActiveEdge partner = remove->second.partner;
         assert(partner->second.partner == remove);
-        need_partners_.push_back(partner);
         partner->second.partner = active_edges.end();
         need_partners_.push_back(partner);
       }
-- 
2.43.0


From e2b1d55e9623d9df47ca0ce727e1df33f70bd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 47/53] fix: ConnectingVisitor left edge_created_by of output
 edges pointing to temporary splits

---
 include/walnut/connecting_visitor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/walnut/connecting_visitor.h b/include/walnut/connecting_visitor.h
index e25210f..a464dac 100644
--- a/include/walnut/connecting_visitor.h
+++ b/include/walnut/connecting_visitor.h
@@ -97,6 +97,12 @@ class ConnectingVisitor
       if (it->second.temporary) {
         edge.edge_last_coincident.split = nullptr;
       }
+
+      // The split is null for edges from the input.
+      it = interior_nodes_.find(edge.edge_created_by.split);
+      if (it != interior_nodes_.end() && it->second.temporary) {
+        edge.edge_created_by.split = nullptr;
+      }
     }
     polygons_.push_back(std::move(polygon));
   }
-- 
2.43.0


From e4b3aec85092d54d743c707d3bee3e9ec65db887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 48/53] fix: CollectorVisitor did not map edge_created_by to
 the kept split plane

---
 include/walnut/bsp_visitor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 87138f5..754c849 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -283,6 +283,11 @@ class CollectorVisitor : public BSPVisitor<PolygonRep> {
       if (it != split_plane_map_.end()) {
         edge.edge_last_coincident.split = it->second;
       }
+
+      it = split_plane_map_.find(edge.edge_created_by.split);
+      if (it != split_plane_map_.end()) {
+        edge.edge_created_by.split = it->second;
+      }
     }
     polygons_.push_back(std::move(polygon));
   }
-- 
2.43.0


From b3ec491a18ae5a3b4a7d18ba8acf17974fbe09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 49/53] fix: converting a positive BigInt of 2^31 - 1 or more
 bits to a float gave NaN when its top word is zero

---
 src/walnut/big_int.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/walnut/big_int.cpp b/src/walnut/big_int.cpp
index e84d230..18364b7 100644
--- a/src/walnut/big_int.cpp
+++ b/src/walnut/big_int.cpp
@@ -50,8 +50,10 @@ BigInt::operator double() const {
     size_t used = used_words();
     size_t first_shift = bits_per_word * (used - 1);
     if (first_shift > std::numeric_limits<int>::max()) {
-      return std::numeric_limits<double>::infinity() *
-             BigIntWord{words_[used - 1]};
+      // The top word of a positive number could be zero.
+      return BigIntWord{words_[used - 1]} < 0
+                 ? -std::numeric_limits<double>::infinity()
+                 : std::numeric_limits<double>::infinity();
     }
     // Combine the words before scaling the result. Otherwise the top word of a
     // negative number could overflow, even if the whole number fits.
@@ -74,8 +76,10 @@ BigInt::operator long double() const {
     size_t used = used_words();
     size_t first_shift = bits_per_word * (used - 1);
     if (first_shift > std::numeric_limits<int>::max()) {
-      return std::numeric_limits<long double>::infinity() *
-             BigIntWord{words_[used - 1]};
+      // The top word of a positive number could be zero.
+      return BigIntWord{words_[used - 1]} < 0
+                 ? -std::numeric_limits<long double>::infinity()
+                 : std::numeric_limits<long double>::infinity();
     }
     // Combine the words before scaling the result. Otherwise the top word of a
     // negative number could overflow, even if the whole number fits.
-- 
2.43.0


From 7b24b4cfec4a97d0864e97b5e9ca6316645cb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 50/53] fix: ConvexPolygon::ApproximateNoData and Approximate
 of an edge did not compile

---
 include/walnut/convex_polygon.h      | 2 +-
 include/walnut/convex_polygon_edge.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index e63b854..ce184c8 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -1474,7 +1474,7 @@ std::string ConvexPolygon<EdgeParent>::ApproximateNoData() const {
   for (const auto& edge : edges()) {
     if (!first) out << ", ";
     first = false;
-    out << edge.ApproximateNoData();
+    edge.vertex().Approximate(out);
   }
   out << "]";
   return out.str();
diff --git a/include/walnut/convex_polygon_edge.h b/include/walnut/convex_polygon_edge.h
index 792f19c..7dcc4d3 100644
--- a/include/walnut/convex_polygon_edge.h
+++ b/include/walnut/convex_polygon_edge.h
@@ -216,7 +216,7 @@ struct ConvexPolygonEdge : public ParentTemplate {
 template <typename Parent>
 std::string Approximate(const ConvexPolygonEdge<Parent>& edge) {
   std::ostringstream out;
-  out << edge.Approximate(out);
+  edge.Approximate(out);
   return out.str();
 }
 
-- 
2.43.0


From 9c8156a2260f51ce2b18a7b67359f30854f5e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 51/53] fix: the edge vector constructor of AABBConvexPolygon
 did not compile

---
 include/walnut/aabb_convex_polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 7affaf2..9b5e2c0 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -61,7 +61,7 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
       aabb_tracker_(Parent::vertices_begin(), Parent::vertices_end()) { }
 
   AABBConvexPolygon(const HalfSpace3& plane, int drop_dimension,
-                    std::vector<EdgeRep> edges) :
+                    typename Parent::EdgeVector edges) :
       Parent(plane, drop_dimension, std::move(edges)),
       aabb_tracker_(Parent::vertices_begin(), Parent::vertices_end()) { }
 
-- 
2.43.0


From c6182f4c8206fb04e168ec715b37c9b49d6ac854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:24 +0000
Subject: [PATCH 52/53] fix: the cost estimate overflowed without 128 bit
 integers

---
 include/walnut/m_log_n_estimator.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/m_log_n_estimator.h b/include/walnut/m_log_n_estimator.h
index c452153..59ca7f3 100644
--- a/include/walnut/m_log_n_estimator.h
+++ b/include/walnut/m_log_n_estimator.h
@@ -19,12 +19,16 @@ class MLogNEstimator {
 #ifdef __SIZEOF_INT128__
      const unsigned __int128 large_m = static_cast<unsigned __int128>(m);
      const unsigned __int128 large_n = static_cast<unsigned __int128>(n);
+     const size_t shifted = static_cast<size_t>(large_m*large_n >>
+                                                last_n_bits_);
 #else
-     const uint64_t large_m = static_cast<uint64_t>(m);
-     const uint64_t large_n = static_cast<uint64_t>(n);
+     // The product can use more than 64 bits.
+     BigUIntWord high;
+     const BigUIntWord low = BigUIntWord(m).Multiply(BigUIntWord(n), &high);
+     const size_t shifted = static_cast<size_t>(
+         low.ShiftRight(high, last_n_bits_).low_uint64());
 #endif
-     return static_cast<size_t>(large_m*large_n >> last_n_bits_) +
-            m*(last_n_bits_ - 1);
+     return shifted + m*(last_n_bits_ - 1);
    }
 
   private:
-- 
2.43.0


From 8b905932ae3769a42bb674f0a5540b89dc96b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:48 +0000
Subject: [PATCH 53/53] fix: convex pieces reversed their direction at
 collinear vertices

---
 include/walnut/monotone_decomposer.h | 55 +++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 8ea47b0..3eb1100 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -27,6 +27,7 @@
 //     worse in the sense that more overlapping polygons will be outputted than
 //     strictly necessary.
 
+#include <algorithm>
 #include <functional>
 #include <vector>
 
@@ -129,7 +130,8 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
             p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
               orientation_ <= 0 &&
             p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) *
-              orientation_ >= 0) {
+              orientation_ >= 0 &&
+            CanExtend(set_orientation, prev_top, p1, prev_bottom, p2, p3)) {
           if (p3_is_top_chain) {
             if (p1 != p3) {
               convex_top_.push_back(p3);
@@ -162,6 +164,57 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
   }
 
  private:
+  // Returns true if `a`, `b`, and `c` are collinear after projection, and the
+  // path from `a` to `b` to `c` reverses its direction at `b`.
+  //
+  // The chains are only monotone, not strictly monotone. So this can happen
+  // among vertices that are equal in the monotone dimension.
+  bool TurnsBack(const Point3Rep& a, const Point3Rep& b,
+                 const Point3Rep& c) const {
+    if (b.Get2DTwistDirReduced(drop_dimension_, a, c) != 0) return false;
+    for (int i = 0; i < 3; ++i) {
+      if (i == drop_dimension_) continue;
+      const int ab = b.CompareComponent(i, a);
+      const int bc = c.CompareComponent(i, b);
+      if ((ab < 0 && bc > 0) || (ab > 0 && bc < 0)) return true;
+    }
+    return false;
+  }
+
+  // Given that all of the vertices in the polygon being built are collinear,
+  // returns true if the path from the end of the top chain to the end of the
+  // bottom chain reverses its direction.
+  bool CollinearPathTurnsBack() const {
+    const Point3Rep* before = nullptr;
+    const Point3Rep* last = nullptr;
+    auto turns_back_at = [&](const Point3Rep& next) {
+      if (last != nullptr && *last == next) return false;
+      if (before != nullptr && TurnsBack(*before, *last, next)) return true;
+      before = last;
+      last = &next;
+      return false;
+    };
+    return std::any_of(convex_top_.rbegin(), convex_top_.rend(),
+                       turns_back_at) ||
+           std::any_of(convex_bottom_.begin(), convex_bottom_.end(),
+                       turns_back_at);
+  }
+
+  // Returns true if the polygon being built would not reverse its direction at
+  // a collinear vertex after `p3` is added to it.
+  //
+  // `was_collinear` should be true if all of the vertices in the polygon being
+  // built are collinear before `p3` is added. If the polygon is still
+  // collinear after `p3` is added, then it may always be extended, because it
+  // encloses nothing.
+  bool CanExtend(bool was_collinear, const Point3Rep& prev_top,
+                 const Point3Rep& p1, const Point3Rep& prev_bottom,
+                 const Point3Rep& p2, const Point3Rep& p3) const {
+    if (orientation_ == 0) return true;
+    if (was_collinear) return !CollinearPathTurnsBack();
+    return !TurnsBack(prev_top, p1, p3) && !TurnsBack(prev_bottom, p2, p3);
+  }
+
   // The orientation of the polygon being built. -1 for counter-clockwise, 1
   // for clockwise, or 0 for collinear.
   int orientation_;
-- 
2.43.0

