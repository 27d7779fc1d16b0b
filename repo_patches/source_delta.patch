From 85220d1a2c40dbeae4c8563e30463c16b8531363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 01/30] fix: Int subtraction wrote past the end of the digits
 when both operands have the same length

---
 sources/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 83999b6..43e2137 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -399,6 +399,7 @@ public:
         }
         auto& a = chunks_;
         const auto& b = rhs_digits;
+        a.push_back(0); // a[i + 1] must exist for the most significant digit
 
         // calculate
         for (int i = 0; i < b.size(); ++i)
-- 
2.43.0


From 78d7313c8912e58d04e5bfb2a5783e2e17a4b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 02/30] fix: Int += with itself as the operand corrupted the
 result

---
 sources/int.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/int.hpp b/sources/int.hpp
index 43e2137..baae99b 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -352,6 +352,12 @@ public:
 
         // now, the sign of two integers is the same and not zero
 
+        // if rhs is this integer itself, its digits would change while they are being added
+        if (this == &rhs)
+        {
+            return *this += Int(rhs);
+        }
+
         // normalize
         auto& a = chunks_;
         const auto& b = rhs.chunks_;
-- 
2.43.0


From b1f9341d4e6f22910440e01a9b980aaddb974799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 03/30] fix: Int(INT_MIN) overflowed and created an integer
 without digits

---
 sources/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index baae99b..77f46b6 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -161,11 +161,11 @@ public:
     Int(int integer = 0)
     {
         sign_ = integer == 0 ? 0 : (integer > 0 ? 1 : -1);
-        integer = std::abs(integer);
-        while (integer > 0)
+        long long value = std::abs((long long)integer); // |INT_MIN| is greater than INT_MAX
+        while (value > 0)
         {
-            chunks_.push_back(integer % BASE);
-            integer /= BASE;
+            chunks_.push_back(value % BASE);
+            value /= BASE;
         }
     }
 
-- 
2.43.0


From 618d491f980a3deefee892cf4da5ac1b93d08f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 04/30] fix: Int::to_integer() overflowed on the minimum value
 of a signed type

---
 sources/int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 77f46b6..7905b7c 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -689,9 +689,9 @@ public:
         T result = 0;
         for (int i = chunks_.size() - 1; i >= 0; --i) // i = -1 if is zero, ok
         {
-            result = result * BASE + chunks_[i];
+            result = result * BASE + chunks_[i] * sign_;
         }
-        return result * sign_;
+        return result;
     }
 
     /*
-- 
2.43.0


From 01e8e4ab9c3280960ef8acb8cdbb3abf5438ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 05/30] fix: Int remainder lost the sign of a negative
 dividend, so a != (a / b) * b + a % b

---
 sources/int.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 7905b7c..d788439 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -519,6 +519,7 @@ public:
         // prepare variables
         int size = chunks_.size() - rhs.chunks_.size() + 1;
 
+        const signed char sign = sign_; // the sign of remainder is the sign of this
         sign_ = 1;
 
         Int tmp;       // intermediate variable for rhs * 10^i
@@ -542,7 +543,10 @@ public:
             }
         }
 
-        return trim();
+        trim();
+        sign_ *= sign; // zero stays zero
+
+        return *this;
     }
 
     /// Increment the value by 1 quickly.
-- 
2.43.0


From a0e91fa37637f1568b340ba8254890e19192ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 06/30] fix: Int::pow() ignored the modulus when |base| == 1 or
 exp == 0

---
 sources/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index d788439..2e06d60 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -743,7 +743,8 @@ public:
         // if base.abs() is 1, only when base is negative and exp is odd return -1, otherwise return 1
         if (base.digits() == 1 && base.chunks_[0] == 1)
         {
-            return base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            Int result = base.sign_ == -1 && exp.is_odd() ? -1 : 1;
+            return mod.is_zero() ? result : result % mod;
         }
 
         // then, check if exp is negative
@@ -761,7 +762,7 @@ public:
 
         Int num = base;
         Int n = exp;
-        Int result = 1; // this**0 == 1
+        Int result = mod.is_zero() ? Int(1) : Int(1) % mod; // this**0 == 1
 
         while (!n.is_zero())
         {
-- 
2.43.0


From 07b107c32ed0ec05bb2a04dc63df33b23fa7d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 07/30] fix: Int::sqrt() never returned for integers such as 8
 or 15 (k*k - 1)

---
 sources/int.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/int.hpp b/sources/int.hpp
index 2e06d60..1563996 100644
--- a/sources/int.hpp
+++ b/sources/int.hpp
@@ -722,18 +722,19 @@ public:
         // using Newton's method
 
         // as far as possible to reduce the number of iterations
-        // cur_sqrt is about 10^(digits/2) in O(1)
-        Int cur_sqrt{1, std::vector<int>(integer.chunks_.size() / 2, 0)};
+        // cur_sqrt is about 10^(digits/2) in O(1), and is not less than the square root
+        Int cur_sqrt{1, std::vector<int>((integer.chunks_.size() + 1) / 2, 0)};
         cur_sqrt.chunks_.push_back(1);
 
-        Int pre_sqrt;
-        while (cur_sqrt != pre_sqrt)
+        // the iteration decreases until it reaches the square root, then it may oscillate
+        Int pre_sqrt = cur_sqrt + 1;
+        while (cur_sqrt < pre_sqrt)
         {
             pre_sqrt = cur_sqrt;
             cur_sqrt = (cur_sqrt + integer / cur_sqrt) / 2;
         }
 
-        return cur_sqrt;
+        return pre_sqrt;
     }
 
     /// Return `(base**exp) % mod` (`mod` default = 0 means does not perform module).
-- 
2.43.0


From 1314e2332d4c0f51bebe298adf75de31358b4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 08/30] fix: Fraction overflowed in intermediate products
 although the reduced result fits

---
 sources/fraction.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 19a226e..4aa40bb 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -27,24 +27,22 @@ public:
      */
 
     /// Create a fraction with value `numerator/denominator`.
-    Fraction(int numerator = 0, int denominator = 1)
-        : numerator_(numerator)
-        , denominator_(denominator)
+    Fraction(long long numerator = 0, long long denominator = 1)
     {
         // make sure the denominator is not zero
-        internal::check_zero(denominator_);
+        internal::check_zero(denominator);
 
         // make sure the denominator is a positive number
-        if (denominator_ < 0)
+        if (denominator < 0)
         {
-            numerator_ = -numerator_;
-            denominator_ = -denominator_;
+            numerator = -numerator;
+            denominator = -denominator;
         }
 
         // simplify
-        int gcd = std::gcd(numerator_, denominator_);
-        numerator_ /= gcd;
-        denominator_ /= gcd;
+        long long gcd = std::gcd(numerator, denominator);
+        numerator_ = numerator / gcd;
+        denominator_ = denominator / gcd;
     }
 
     /// Copy constructor.
@@ -177,7 +175,7 @@ public:
     /// Return the opposite value of this.
     Fraction operator-() const
     {
-        return Fraction(-numerator_, denominator_);
+        return Fraction(-1LL * numerator_, denominator_);
     }
 
     /// Return the absolute value of this.
@@ -189,25 +187,25 @@ public:
     /// Return this + `rhs`.
     Fraction operator+(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ + denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return Fraction(1LL * numerator_ * rhs.denominator_ + 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this - `rhs`.
     Fraction operator-(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_ - denominator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return Fraction(1LL * numerator_ * rhs.denominator_ - 1LL * denominator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this * `rhs`.
     Fraction operator*(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.numerator_, denominator_ * rhs.denominator_);
+        return Fraction(1LL * numerator_ * rhs.numerator_, 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Return this / `rhs` (not zero).
     Fraction operator/(const Fraction& rhs) const
     {
-        return Fraction(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
+        return Fraction(1LL * numerator_ * rhs.denominator_, 1LL * denominator_ * rhs.numerator_);
     }
 
     /// Return this % `rhs` (not zero).
@@ -215,7 +213,7 @@ public:
     {
         internal::check_zero(rhs);
 
-        return Fraction((numerator_ * rhs.denominator_) % (rhs.numerator_ * denominator_), denominator_ * rhs.denominator_);
+        return Fraction((1LL * numerator_ * rhs.denominator_) % (1LL * rhs.numerator_ * denominator_), 1LL * denominator_ * rhs.denominator_);
     }
 
     /// Calculate the greatest common divisor of two fractions.
-- 
2.43.0


From ca15060cfaf767c748dde2b21426504ac737446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 09/30] fix: Fraction ordering overflowed, e.g.
 Fraction(INT_MAX) < Fraction(-1)

---
 sources/fraction.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 4aa40bb..4f40268 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -67,10 +67,10 @@ public:
         // this = a/b; that = c/d;
         // so, this - that = a/b - c/d = (ad - bc)/(bd)
         // since bd is always positive, compute (ad-bc) only
-        int a = this->numerator_;
-        int b = this->denominator_;
-        int c = that.numerator_;
-        int d = that.denominator_;
+        long long a = this->numerator_; // long long, since the products may exceed int
+        long long b = this->denominator_;
+        long long c = that.numerator_;
+        long long d = that.denominator_;
 
         return a * d - b * c;
     }
-- 
2.43.0


From b1b86119329b98009932dd70e60c39dfac74840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 10/30] fix: different Fractions compared equal when their
 double values round to the same number

---
 sources/fraction.hpp | 8 ++++++++
 sources/utility.hpp  | 1 +
 2 files changed, 9 insertions(+)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 4f40268..7bcf05b 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -61,6 +61,14 @@ public:
      * Comparison
      */
 
+    /// Determine whether the fraction is equal to another fraction.
+    /// Only takes part in the comparison of two fractions, otherwise `fraction == 0` would be ambiguous.
+    template <std::same_as<Fraction> F>
+    bool operator==(const F& that) const
+    {
+        return numerator_ == that.numerator_ && denominator_ == that.denominator_;
+    }
+
     /// Compare the fraction with another fraction.
     auto operator<=>(const Fraction& that) const
     {
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 7dce01e..91bbfbd 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -9,6 +9,7 @@
 #include <algorithm>   // std::copy std::find std::rotate ...
 #include <climits>     // INT_MAX
 #include <cmath>       // std::abs std::pow std::sqrt std::atan2 std::hypot INFINITY NAN
+#include <concepts>    // std::same_as
 #include <cstring>     // std::strlen
 #include <iomanip>     // std::setw std::setfill
 #include <istream>     // std::istream
-- 
2.43.0


From 2123b9dfbacbb0de003095ce27695a8dd91c2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 11/30] fix: erase() of List and Str corrupted memory when
 start > stop

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index b279934..fff120c 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -291,8 +291,8 @@ public:
     /// Erase the contents of the range [`start`, `stop`) of the list.
     List& erase(int start, int stop)
     {
-        internal::check_bounds(start, 0, size() + 1);
         internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(start, 0, stop + 1);
 
         vector_.erase(vector_.begin() + start, vector_.begin() + stop);
 
diff --git a/sources/str.hpp b/sources/str.hpp
index 5b85716..5e95f5a 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -536,8 +536,8 @@ public:
     /// Return a copy of the string and erase the contents of the string in the range [`start`, `stop`).
     Str erase(int start, int stop) const
     {
-        internal::check_bounds(start, 0, size() + 1);
         internal::check_bounds(stop, 0, size() + 1);
+        internal::check_bounds(start, 0, stop + 1);
 
         std::string buffer = str_;
         buffer.erase(buffer.begin() + start, buffer.begin() + stop);
-- 
2.43.0


From 0f388f758c0f445aa04341d14ad5a6bea8156256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 12/30] fix: List::index() and Str::find() read outside the
 sequence when start < 0 or start > stop

---
 sources/list.hpp | 6 ++++++
 sources/str.hpp  | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index fff120c..91d9f11 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -126,7 +126,13 @@ public:
     /// Return the index of the first occurrence of the specified `element`, or -1 if the list does not contain the element in the specified range [`start`, `stop`].
     int index(const T& element, int start = 0, int stop = INT_MAX) const
     {
+        start = start < 0 ? 0 : start;
         stop = stop > size() ? size() : stop;
+        if (start >= stop)
+        {
+            return -1;
+        }
+
         auto it = std::find(begin() + start, begin() + stop, element);
         return it == begin() + stop ? -1 : it - begin();
     }
diff --git a/sources/str.hpp b/sources/str.hpp
index 5e95f5a..c965fd8 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -224,12 +224,13 @@ public:
     /// Or -1 if the string does not contain the pattern (in the specified range).
     int find(const Str& pattern, int start = 0, int stop = INT_MAX) const
     {
-        if (start > size())
+        start = start < 0 ? 0 : start;
+        stop = stop > size() ? size() : stop;
+        if (start > stop)
         {
             return -1;
         }
 
-        stop = stop > size() ? size() : stop;
         std::string_view view(str_.data() + start, stop - start);
         auto pos = view.find(pattern.str_);
 
-- 
2.43.0


From 666515e16be983006bd48cbb3fdf7777dc22daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 13/30] fix: slice() of List and Str overflowed when start +
 step does not fit in int

---
 sources/list.hpp | 2 +-
 sources/str.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 91d9f11..b294a2e 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -359,7 +359,7 @@ public:
 
         // copy
         std::vector<T> buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer.push_back(vector_[i]);
         }
diff --git a/sources/str.hpp b/sources/str.hpp
index c965fd8..0d2cbea 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -613,7 +613,7 @@ public:
 
         // copy
         std::string buffer;
-        for (int i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
+        for (long long i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
         {
             buffer += str_[i];
         }
-- 
2.43.0


From c977aa186ad1d10c45097b3a0ed71d69af74c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 14/30] fix: rotating List, Deque or Str to the right
 overflowed for extreme n

---
 sources/deque.hpp | 7 +------
 sources/list.hpp  | 7 +------
 sources/str.hpp   | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/sources/deque.hpp b/sources/deque.hpp
index 0fbd3ce..ab8114f 100644
--- a/sources/deque.hpp
+++ b/sources/deque.hpp
@@ -209,12 +209,7 @@ public:
             return *this;
         }
 
-        if (n < 0)
-        {
-            return *this <<= -n;
-        }
-
-        return *this <<= size() - n;
+        return *this <<= -(n % size());
     }
 
     /// Rotate `n` elements to the left.
diff --git a/sources/list.hpp b/sources/list.hpp
index b294a2e..6f627c1 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -231,12 +231,7 @@ public:
             return *this;
         }
 
-        if (n < 0)
-        {
-            return *this <<= -n;
-        }
-
-        return *this <<= size() - n;
+        return *this <<= -(n % size());
     }
 
     /// Rotate the list to left `n` elements.
diff --git a/sources/str.hpp b/sources/str.hpp
index 0d2cbea..53da906 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -476,12 +476,7 @@ public:
             return *this;
         }
 
-        if (n < 0)
-        {
-            return *this << -n;
-        }
-
-        return *this << size() - n;
+        return *this << -(n % size());
     }
 
     /// Copy and rotate the string to left `n` characters.
-- 
2.43.0


From f6b985e34f04d2586735f98ae906ad0900144a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 15/30] fix: List /= with one of its own elements as the
 operand removed the wrong elements

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index 6f627c1..d44611a 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -218,7 +218,8 @@ public:
     /// Remove all the specified `element`s from the list.
     List& operator/=(const T& element)
     {
-        auto it = std::remove(vector_.begin(), vector_.end(), element);
+        const T value = element; // `element` may be an element of this list, which std::remove overwrites
+        auto it = std::remove(vector_.begin(), vector_.end(), value);
         vector_.erase(it, vector_.end());
         return *this;
     }
-- 
2.43.0


From 14511b1618d041cdcb0a74acea6fb49d8b9ffa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 16/30] fix: Str::lower() and Str::upper() corrupted characters
 that are not letters

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 53da906..698a570 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -514,7 +514,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c |= 0b0010'0000; });
+                      { c = ('A' <= c && c <= 'Z') ? c + ('a' - 'A') : c; });
 
         return buffer;
     }
@@ -524,7 +524,7 @@ public:
     {
         std::string buffer = str_;
         std::for_each(buffer.begin(), buffer.end(), [](char& c)
-                      { c &= 0b1101'1111; });
+                      { c = ('a' <= c && c <= 'z') ? c - ('a' - 'A') : c; });
 
         return buffer;
     }
-- 
2.43.0


From 62de51f0e116ce5976855ae8356f9a65daa24f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 17/30] fix: Str::strip() removed bytes >= 0x80, which are not
 blank

---
 sources/str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 698a570..e73caba 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -574,14 +574,14 @@ public:
         std::string buffer = str_;
 
         int i = 0;
-        while (i < int(buffer.size()) && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i < int(buffer.size()) && (ch == -1 ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             ++i;
         }
         buffer.erase(buffer.begin(), buffer.begin() + i);
 
         i = buffer.size() - 1;
-        while (i >= 0 && (ch == -1 ? buffer[i] <= 0x20 : buffer[i] == ch))
+        while (i >= 0 && (ch == -1 ? (unsigned char)(buffer[i]) <= 0x20 : buffer[i] == ch))
         {
             --i;
         }
-- 
2.43.0


From bfc999766dbc25ca850a64773cfd6a5839c0fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 18/30] fix: Str::to_decimal() overflowed on huge exponents and
 returned NAN for 0e400

---
 sources/str.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index e73caba..5ca9db3 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -309,7 +309,7 @@ public:
         double decimal_part = 0;
         int decimal_cnt = 0;
         double exp_sign = 1; // default '+'
-        int exp_part = 0;
+        double exp_part = 0;
 
         // FSM
         state st = S_START;
@@ -385,6 +385,11 @@ public:
             throw std::runtime_error("Error: Invalid literal for to_decimal().");
         }
 
+        if (decimal_part == 0) // 0 * 10^exp is 0, even if 10^exp is too big to be representable
+        {
+            return sign * decimal_part;
+        }
+
         return sign * ((decimal_part / std::pow(10, decimal_cnt)) * std::pow(10, exp_sign * exp_part));
     }
 
-- 
2.43.0


From deac3f9d8f0365442ea288de481f7970424eafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 19/30] fix: reading a Fraction or a Complex never returned at
 the end of the stream

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index e4f4244..21cb0b8 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -224,7 +224,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Complex& complex)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20)
         {
             is.ignore();
         }
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 7bcf05b..c6ebd44 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -269,7 +269,7 @@ public:
     /// ```
     friend std::istream& operator>>(std::istream& is, Fraction& fraction)
     {
-        while (is.peek() <= 0x20)
+        while (is.good() && is.peek() <= 0x20)
         {
             is.ignore();
         }
-- 
2.43.0


From ad8448ec0567a4e42882c9a1b939b977d225d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 20/30] fix: Dict::min() and Dict::max() dereferenced end()
 when the dictionary is empty

---
 sources/dict.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dict.hpp b/sources/dict.hpp
index 33d971e..f62d192 100644
--- a/sources/dict.hpp
+++ b/sources/dict.hpp
@@ -146,12 +146,16 @@ public:
     /// Get the smallest key of the dictionary.
     K min() const
     {
+        internal::check_empty(size());
+
         return map_.cbegin()->first;
     }
 
     /// Get the largest key of the dictionary.
     K max() const
     {
+        internal::check_empty(size());
+
         return map_.crbegin()->first;
     }
 
-- 
2.43.0


From c169f8549a7f55452bdeac7fe06183f40d70e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 21/30] fix: repeating a List or a Str wrote out of bounds when
 size() * times overflowed

---
 sources/list.hpp    | 2 +-
 sources/str.hpp     | 2 ++
 sources/utility.hpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index d44611a..ff6b0f9 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -389,7 +389,7 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
-        internal::check_full(size() * times, INT_MAX);
+        internal::check_full(1LL * size() * times, INT_MAX);
 
         std::vector<T> buffer(size() * times);
         for (int part = 0; part < times; part++)
diff --git a/sources/str.hpp b/sources/str.hpp
index 5ca9db3..1e609e6 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -641,6 +641,8 @@ public:
             throw std::runtime_error("Error: Times to repeat can not be less than zero.");
         }
 
+        internal::check_full(1LL * size() * times, INT_MAX);
+
         std::string buffer(size() * times, 0);
         for (int part = 0; part < times; part++)
         {
diff --git a/sources/utility.hpp b/sources/utility.hpp
index 91bbfbd..032ac0d 100644
--- a/sources/utility.hpp
+++ b/sources/utility.hpp
@@ -47,7 +47,7 @@ static inline void check_empty(int size)
 }
 
 // Check whether there is any remaining capacity.
-static inline void check_full(int size, int capacity)
+static inline void check_full(long long size, long long capacity)
 {
     if (size >= capacity)
     {
-- 
2.43.0


From 8f3afdc1b8da14828d97f431dba6dfbed683e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 22/30] fix: Str::replace() with an empty pattern truncated the
 replacement at the first null character

---
 sources/str.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 1e609e6..1feac99 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -557,9 +557,12 @@ public:
     {
         if (old_str.is_empty())
         {
-            std::ostringstream ss;
-            std::copy(str_.begin(), str_.end(), std::ostream_iterator<char>(ss, new_str.data()));
-            return new_str.str_ + ss.str();
+            std::string buffer = new_str.str_;
+            for (const char& c : str_)
+            {
+                buffer += c + new_str.str_;
+            }
+            return buffer;
         }
 
         std::string buffer;
-- 
2.43.0


From 356a0079b0b1df1accc575f60dab07ab53e5eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 23/30] fix: reading a Complex used an uninitialized character
 when the imaginary part is malformed

---
 sources/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 21cb0b8..2e964c3 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -252,7 +252,7 @@ public:
         }
 
         double imag;
-        char c;
+        char c = 0; // stays 0 if imag can not be read, handle "1+z2j"
         is >> imag >> c;
         if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
         {
-- 
2.43.0


From 0e8a3bb52bea012537f6999da3fade15448b51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 24/30] fix: Fraction::gcd() and lcm() looped forever or were
 wrong when an intermediate result exceeded int

---
 sources/fraction.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index c6ebd44..e04aa7d 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -227,7 +227,8 @@ public:
     /// Calculate the greatest common divisor of two fractions.
     static Fraction gcd(const Fraction& a, const Fraction& b)
     {
-        return internal::gcd(a, b);
+        // GCD(a/b, c/d) = GCD(a, c) / LCM(b, d), for reduced fractions; long long, since intermediate results may exceed int
+        return Fraction(std::gcd<long long>(a.numerator_, b.numerator_), std::lcm<long long>(a.denominator_, b.denominator_));
     }
 
     /// Calculate the least common multiple of two fractions.
@@ -238,7 +239,8 @@ public:
             return 0;
         }
 
-        return (a * b).abs() / gcd(a, b); // LCM = |a * b| / GCD
+        // LCM(a/b, c/d) = LCM(a, c) / GCD(b, d), for reduced fractions; long long, since intermediate results may exceed int
+        return Fraction(std::lcm<long long>(a.numerator_, b.numerator_), std::gcd<long long>(a.denominator_, b.denominator_));
     }
 
     /*
-- 
2.43.0


From 7275362eb5e41a0aab623f5df0667a448a852bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 25/30] fix: List += with itself as the operand lost the
 elements when the storage was reallocated

---
 sources/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/list.hpp b/sources/list.hpp
index ff6b0f9..b784675 100644
--- a/sources/list.hpp
+++ b/sources/list.hpp
@@ -193,7 +193,8 @@ public:
     {
         internal::check_full(size() / 2 + list.size() / 2, INT_MAX / 2);
 
-        vector_.insert(end(), list.begin(), list.end());
+        const std::vector<T> elements = list.vector_; // `list` may be this list
+        vector_.insert(end(), elements.begin(), elements.end());
 
         return *this;
     }
-- 
2.43.0


From 25f4d6bb5984157b5e6fcbfb5bcb5519bccf1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 26/30] fix: Str::strip formed an iterator before the beginning
 of the string

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index 1feac99..df509c8 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -593,7 +593,7 @@ public:
         {
             --i;
         }
-        buffer.erase(buffer.begin() + i + 1, buffer.end());
+        buffer.erase(buffer.begin() + (i + 1), buffer.end());
 
         return buffer;
     }
-- 
2.43.0


From 130086181bbdb2a129597785cdf7f7687241e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 27/30] fix: Fraction(LLONG_MIN, d) and Fraction(n, LLONG_MIN)
 overflowed

---
 sources/fraction.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index e04aa7d..1ecf9db 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -32,17 +32,15 @@ public:
         // make sure the denominator is not zero
         internal::check_zero(denominator);
 
-        // make sure the denominator is a positive number
-        if (denominator < 0)
-        {
-            numerator = -numerator;
-            denominator = -denominator;
-        }
+        // make sure the denominator is a positive number, on magnitudes since -LLONG_MIN is not representable
+        bool negative = (numerator < 0) != (denominator < 0);
+        unsigned long long num = numerator < 0 ? 0ULL - numerator : numerator;
+        unsigned long long den = denominator < 0 ? 0ULL - denominator : denominator;
 
         // simplify
-        long long gcd = std::gcd(numerator, denominator);
-        numerator_ = numerator / gcd;
-        denominator_ = denominator / gcd;
+        unsigned long long gcd = std::gcd(num, den);
+        numerator_ = negative ? 0ULL - num / gcd : num / gcd;
+        denominator_ = den / gcd;
     }
 
     /// Copy constructor.
-- 
2.43.0


From 585ba8195083c4edaa88ec810951ddbe40f4beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 28/30] fix: reading a Fraction or a Complex at the end of the
 stream failed the stream although the literal is valid

---
 sources/complex.hpp  | 2 +-
 sources/fraction.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 2e964c3..64739b3 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -235,7 +235,7 @@ public:
 
         double real;
         is >> real;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space or the end, ok
         {
             complex = real;
             return is;
diff --git a/sources/fraction.hpp b/sources/fraction.hpp
index 1ecf9db..c40006c 100644
--- a/sources/fraction.hpp
+++ b/sources/fraction.hpp
@@ -280,7 +280,7 @@ public:
 
         int num;
         is >> num;
-        if (is.peek() <= 0x20) // next char is white space, ok
+        if (is.eof() || is.peek() <= 0x20) // next char is white space or the end, ok
         {
             fraction = num;
             return is;
@@ -294,7 +294,7 @@ public:
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
         is >> den;
-        if (c != '/' || is.peek() > 0x20) // handle "1|2" or "1/2z"
+        if (c != '/' || (!is.eof() && is.peek() > 0x20)) // handle "1|2" or "1/2z"
         {
             throw std::runtime_error("Error: Wrong fraction literal.");
         }
-- 
2.43.0


From 0510714c170006a2f29991cc8c80c821e46c4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 29/30] fix: reading a Complex accepted text that is not a
 literal, such as 1.5.5j and 1+2 j

---
 sources/complex.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/complex.hpp b/sources/complex.hpp
index 64739b3..4b0df40 100644
--- a/sources/complex.hpp
+++ b/sources/complex.hpp
@@ -251,10 +251,13 @@ public:
             throw std::runtime_error("Error: Wrong complex literal.");
         }
 
+        if (!(is.peek() == '-' || is.peek() == '+')) // handle "1z+2j" or "1.5.5j"
+        {
+            throw std::runtime_error("Error: Wrong complex literal.");
+        }
         double imag;
-        char c = 0; // stays 0 if imag can not be read, handle "1+z2j"
-        is >> imag >> c;
-        if (c != 'j' || is.peek() > 0x20) // handle "1z+2j" or "1+z2j" or "1+2zj" or "1jj2j"
+        is >> imag;
+        if (is.get() != 'j' || is.peek() > 0x20) // handle "1+z2j" or "1+2zj" or "1+2 j" or "1+2jj"
         {
             throw std::runtime_error("Error: Wrong complex literal.");
         }
-- 
2.43.0


From ab28244fa3c186a0ec4cf90306b969e35b8ccb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 30/30] fix: Str modified its const member through const_cast,
 which is undefined behaviour

---
 sources/str.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/str.hpp b/sources/str.hpp
index df509c8..16ae1a7 100644
--- a/sources/str.hpp
+++ b/sources/str.hpp
@@ -19,7 +19,7 @@ class Str
 {
 private:
     // String.
-    const std::string str_;
+    std::string str_; // not const, since assignment and input replace the contents
 
     // Used for FSM.
     enum state
-- 
2.43.0

