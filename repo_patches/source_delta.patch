From 7cc2a81da42a26f085d596f5396e4e95c06caab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/10] fix: ceil and floor of values between -1 and 0

The sign of the truncated value is lost when it is zero, so ceil(-1/2) gave 1
and floor(-1/2) gave 0; use the sign of the fraction itself.
---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..18ce8cd 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || !is_negative(value)) ? truncated
+                                                    : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 0b38f0f89e861d487058889e92cbbd1bdd743530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 02/10] fix: is_reduced must reject a negative denominator

is_reduced(1/-2) was true although reduce() gives -1/2.
---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 9f572d79164ecf2e276dbc1b03d6d1c03e8fdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 03/10] fix: ordering comparisons with negative denominators

less and less_equal between a fraction and an integer (safe and fast), and
between two fractions under fast, cross-multiplied without regard to the sign
of the denominators: 1/-2 < 0 was false under fast and safe.
---
 include/ieme/ops.hpp | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..ca278f4 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -733,14 +733,14 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  return less(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  return less(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
@@ -760,14 +760,14 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  return less_equal(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  return less_equal(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
@@ -984,45 +984,60 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator < right.numerator * left.denominator
-         && is_defined(left) && is_defined(right);
+  if (is_undefined(left) || is_undefined(right))
+    return false;
+
+  auto const same_signs
+    = (left.denominator > _0<Rep>) == (right.denominator > _0<Rep>);
+
+  auto const scaled_left = left.numerator * right.denominator;
+  auto const scaled_right = right.numerator * left.denominator;
+
+  return same_signs ? scaled_left < scaled_right : scaled_right < scaled_left;
 }
 
 template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
-  return left.numerator < right * left.denominator && is_defined(left);
+  return less(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator < right.numerator && is_defined(right);
+  return less(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left.numerator * right.denominator
-           <= right.numerator * left.denominator
-         && is_defined(left) && is_defined(right);
+  if (is_undefined(left) || is_undefined(right))
+    return false;
+
+  auto const same_signs
+    = (left.denominator > _0<Rep>) == (right.denominator > _0<Rep>);
+
+  auto const scaled_left = left.numerator * right.denominator;
+  auto const scaled_right = right.numerator * left.denominator;
+
+  return same_signs ? scaled_left <= scaled_right : scaled_right <= scaled_left;
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
-  return left.numerator <= right * left.denominator && is_defined(left);
+  return less_equal(left, raw_fraction<Rep>(right, _1<Rep>));
 }
 
 template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
-  return left * right.denominator <= right.numerator && is_defined(right);
+  return less_equal(raw_fraction<Rep>(left, _1<Rep>), right);
 }
 
 template <typename Rep>
-- 
2.43.0


From bd59e74544336b66b4901cb71c1aeca6baaf3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 04/10] fix: operations on undefined fractions and remainders
 by zero must not crash

safe plus, minus and modulus divided by a zero least common multiple when an
operand was undefined, and modulus of both policies took a remainder by zero
when the right operand was zero; both now give an undefined fraction.
---
 include/ieme/ops.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index ca278f4..1d4b53e 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -550,6 +550,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -575,6 +578,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -647,6 +653,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -658,6 +667,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -665,6 +677,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -917,6 +932,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -926,6 +944,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -933,6 +954,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From ade74a068fd30dd7f81e8aa45da7ac4d470b2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 05/10] fix: round must not overflow on large denominators

round compared value - floor(value) with 1/2, which rescales to twice the
denominator: round(1/2147483647) was 1.  Compare the remainder of the division
with its complement instead.
---
 include/ieme/fraction_math.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 18ce8cd..2708905 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -178,11 +178,17 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 template <typename Rep, typename Ops>
 constexpr Rep round(fraction<Rep, Ops> const& value) noexcept
 {
-  auto const floored = floor(value);
+  auto const truncated = trunc(value);
+
+  auto const remainder
+    = math_utilities::abs(value.numerator() % value.denominator());
+  auto const complement
+    = math_utilities::abs(value.denominator()) - remainder;
+
+  if (is_negative(value))
+    return (remainder > complement) ? truncated - _1<Rep> : truncated;
 
-  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
-           ? floored
-           : floored + _1<Rep>;
+  return (remainder >= complement) ? truncated + _1<Rep> : truncated;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 552273b6e441e9602000aec0c06a7f3c60cda24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 06/10] fix: equal fractions must have equal hashes

1/2 == 2/4 but their hashes differed; hash the lowest terms.
---
 include/ieme/hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..35cb85d 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -4,6 +4,7 @@
 #include <ieme/fraction.hpp>
 #include <ieme/mixed_number.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_math.hpp>
 
 #include <functional>
 
@@ -67,7 +68,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From 3d885df61dafe9ec1dd11861bcd7cc365ef8309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 07/10] fix: dividing by an undefined fraction must be
 undefined

(1/2) / (1/0) gave 0/2 and 2 / (1/0) gave 0/1 under policies that do not
reduce their inputs.
---
 include/ieme/ops.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 1d4b53e..f530d57 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -630,6 +630,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -645,6 +648,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -909,6 +915,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -924,6 +933,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
-- 
2.43.0


From 62477b940db41f94f5f01ec12b9b2da423cadffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 08/10] fix: zeros, subnormals, infinities and large doubles
 converted to fractions

floating_point_to_fraction treated every non-NaN bit pattern as a normal
number and built the mantissa fraction with a 2^52 denominator, so zero and
subnormals came out wrong, infinities and extreme exponents shifted by more
than the width, and intermediates overflowed although the value is
representable. <cstring> was missing for std::memcpy.
---
 include/ieme/floating_point.hpp | 43 ++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..23aa4d5 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -9,6 +9,7 @@
 
 #include <bit>
 #include <cstdint>
+#include <cstring>
 #include <limits>
 #include <string>
 #include <string_view>
@@ -184,29 +185,47 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (auto const is_NaN_or_infinity
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_NaN_or_infinity)
     return limits<fraction<Rep, Ops>>::undefined();
 
   auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
+  auto const is_subnormal = exponent_part == _0<UintRep>;
+
+  auto const significand
+    = is_subnormal ? mantissa_part
+                   : mantissa_part + (_1<UintRep> << NumMantissaBits);
+
+  if (significand == _0<UintRep>)
+    return _0<Rep>;
+
+  // Strip trailing zeros so that no intermediate is larger than the result
+  auto const num_trailing_zeros = std::countr_zero(significand);
+
+  auto const odd_significand = significand >> num_trailing_zeros;
+
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
-
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
+  auto const exponent
+    = static_cast<int>(is_subnormal ? _1<UintRep> : exponent_part)
+      - exponent_bias - number<NumMantissaBits, int> + num_trailing_zeros;
 
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
+  static constexpr auto max_rep
+    = static_cast<std::uintmax_t>(std::numeric_limits<Rep>::max());
+  static constexpr auto num_rep_digits = std::numeric_limits<Rep>::digits;
 
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  auto const is_representable
+    = exponent < num_rep_digits && exponent > -num_rep_digits
+      && odd_significand <= (max_rep >> (exponent > 0 ? exponent : 0));
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  if (!is_representable)
+    return limits<fraction<Rep, Ops>>::undefined();
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return static_cast<Rep>(sign * static_cast<Rep>(odd_significand))
+         * pow2<Rep, Ops>(exponent);
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 083910b2ccdfe708759392cb910d856dfa9ffc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 09/10] fix: overflow while converting digit sequences whose
 value fits

---
 include/ieme/parse_utilities.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..b3b8b34 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -185,9 +185,8 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto it = sequence.begin(); it != sequence.end(); ++it)
   {
     if (*it == '\'')
       continue;
@@ -202,8 +201,7 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
       return static_cast<Int>(*it - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0


From 8445f1576a288288ea5e1d739fbff8997a7cff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 10/10] fix: floating-point strings with an exponent and no
 radix point were rejected

---
 include/ieme/parse_utilities.hpp | 33 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index b3b8b34..889cce5 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -62,9 +62,23 @@ scan_floating_point_string(std::string_view const string) noexcept
     }
   }
 
+  auto const find_exponent_separator = [&]() {
+    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
+                                                     : std::make_pair('p', 'P');
+
+    if (auto const lower_pos = remaining_string.find(lower);
+        lower_pos != std::string_view::npos)
+      return lower_pos;
+
+    return remaining_string.find(upper);
+  };
+
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
+
+  results.whole = remaining_string.substr(
+    0, no_radix_separator ? find_exponent_separator() : radix_separator_pos);
 
   auto const no_whole = results.whole.empty();
 
@@ -79,21 +93,10 @@ scan_floating_point_string(std::string_view const string) noexcept
     return std::nullopt;
   }
 
-  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
-
-  if (!no_radix_separator)
-    remaining_string.remove_prefix(radix_separator_pos + 1);
-
-  auto const exponent_separator_pos = [&]() {
-    auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-                                                     : std::make_pair('p', 'P');
+  remaining_string.remove_prefix(
+    no_radix_separator ? results.whole.size() : radix_separator_pos + 1);
 
-    if (auto const lower_pos = remaining_string.find(lower);
-        lower_pos != std::string_view::npos)
-      return lower_pos;
-
-    return remaining_string.find(upper);
-  }();
+  auto const exponent_separator_pos = find_exponent_separator();
 
   if (exponent_separator_pos == last_pos())
     return std::nullopt;
-- 
2.43.0

