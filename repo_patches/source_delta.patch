From 8c5f9a1a86e9d5c90949af7876844f2f2543ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 01/97] fix: binary_local_operation: read second argument in
 its own type

The 1D kernels stored the second argument's values in the value type of the
first argument, truncating them when the types differ.
---
 source/fern/algorithm/core/binary_local_operation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/binary_local_operation.h b/source/fern/algorithm/core/binary_local_operation.h
index 6cca36b..68a3c18 100644
--- a/source/fern/algorithm/core/binary_local_operation.h
+++ b/source/fern/algorithm/core/binary_local_operation.h
@@ -169,7 +169,7 @@ void operation_0d_1d(
                 output_no_data_policy.mark_as_no_data(i);
             }
             else {
-                const_reference<Value1> v2(get(value2, i));
+                const_reference<Value2> v2(get(value2, i));
 
                 if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                     // Input value is out of domain. Mark result value as
@@ -222,7 +222,7 @@ void operation_1d_1d(
         }
         else {
             const_reference<Value1> v1(get(value1, i));
-            const_reference<Value1> v2(get(value2, i));
+            const_reference<Value2> v2(get(value2, i));
 
             if(!OutOfDomainPolicy::within_domain(v1, v2)) {
                 // Input value is out of domain. Mark result value as
-- 
2.43.0


From a002f1bbd9bb9381a3e366d0d8b3100a4fcef591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 02/97] fix: add, subtract, multiply: avoid signed integer
 overflow

The result was calculated using signed arithmetic before the out-of-range
policy got to look at it. Signed overflow is undefined, also allowing the
compiler to drop the policy's check.
---
 .../fern/algorithm/algebra/elementary/detail/add.h  | 13 ++++++++++++-
 .../algorithm/algebra/elementary/detail/multiply.h  | 13 ++++++++++++-
 .../algorithm/algebra/elementary/detail/subtract.h  | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 8869f4c..27be08c 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cstdint>
+#include <type_traits>
 #include "fern/core/assert.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
@@ -252,7 +254,16 @@ struct Algorithm
         Value2 const& value2,
         Result& result) const
     {
-        result = static_cast<Result>(value1) + static_cast<Result>(value2);
+        if constexpr(std::is_integral<Result>::value) {
+            // Signed integer overflow is undefined. Let the calculation wrap
+            // instead, so the out-of-range policy can inspect the result.
+            result = static_cast<Result>(
+                static_cast<std::uintmax_t>(value1) +
+                static_cast<std::uintmax_t>(value2));
+        }
+        else {
+            result = static_cast<Result>(value1) + static_cast<Result>(value2);
+        }
     }
 
 };
diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index 37298ea..f7d51e4 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cstdint>
+#include <type_traits>
 #include <cmath>
 #include "fern/core/assert.h"
 #include "fern/core/type_traits.h"
@@ -288,7 +290,16 @@ struct Algorithm
         Value2 const& value2,
         R& result) const
     {
-        result = static_cast<R>(value1) * static_cast<R>(value2);
+        if constexpr(std::is_integral<R>::value) {
+            // Signed integer overflow is undefined. Let the calculation wrap
+            // instead, so the out-of-range policy can inspect the result.
+            result = static_cast<R>(
+                static_cast<std::uintmax_t>(value1) *
+                static_cast<std::uintmax_t>(value2));
+        }
+        else {
+            result = static_cast<R>(value1) * static_cast<R>(value2);
+        }
     }
 
 };
diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index b989dfd..f3f52ce 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cstdint>
+#include <type_traits>
 #include "fern/core/assert.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
@@ -269,7 +271,16 @@ struct Algorithm
         Value2 const& value2,
         R& result) const
     {
-        result = static_cast<R>(value1) - static_cast<R>(value2);
+        if constexpr(std::is_integral<R>::value) {
+            // Signed integer overflow is undefined. Let the calculation wrap
+            // instead, so the out-of-range policy can inspect the result.
+            result = static_cast<R>(
+                static_cast<std::uintmax_t>(value1) -
+                static_cast<std::uintmax_t>(value2));
+        }
+        else {
+            result = static_cast<R>(value1) - static_cast<R>(value2);
+        }
     }
 
 };
-- 
2.43.0


From 90a443b4eac493df9861f0898c5cbbd4c334765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 03/97] fix: add: range check of mixing signed and unsigned
 integers

The check tested the sign of the signed argument, rejecting valid results
like -10 + 3u. What matters is the sign of what is added to it.
---
 source/fern/algorithm/algebra/elementary/detail/add.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index 27be08c..a2d6af9 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -125,13 +125,16 @@ struct within_range<
 {
     inline static constexpr bool calculate(
         Value1 const& value1,
-        Value2 const& /* value2 */,
+        Value2 const& value2,
         Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same, typename fern::algorithm::Result<
             Value1, Value2>::type, Result)
 
-        return value1 > 0 ? result >= value1 : result <= value1;
+        return static_cast<Result>(value2) >= 0
+            ? result >= value1
+            : result < value1
+            ;
     }
 };
 
-- 
2.43.0


From 3252e79609c17c66927e45302f2c179fc17aa2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 04/97] fix: add, subtract: range check of mixing integral and
 floating points

A non-finite result was accepted by add, and aborted the program in subtract.
It is out of range, as it is when both arguments are floating points.
---
 .../algorithm/algebra/elementary/detail/add.h | 10 ++++-----
 .../algebra/elementary/detail/subtract.h      | 22 ++++---------------
 2 files changed, 8 insertions(+), 24 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/add.h b/source/fern/algorithm/algebra/elementary/detail/add.h
index a2d6af9..690291e 100644
--- a/source/fern/algorithm/algebra/elementary/detail/add.h
+++ b/source/fern/algorithm/algebra/elementary/detail/add.h
@@ -201,14 +201,13 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
 
         // integral + float
-        return true;
+        return std::isfinite(result);
     }
 };
 
@@ -227,14 +226,13 @@ struct within_range<
     inline static constexpr bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-        Result const& /* result */)
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        // assert(std::isfinite(result));
 
         // float + integral
-        return true;
+        return std::isfinite(result);
     }
 };
 
diff --git a/source/fern/algorithm/algebra/elementary/detail/subtract.h b/source/fern/algorithm/algebra/elementary/detail/subtract.h
index f3f52ce..76cb14b 100644
--- a/source/fern/algorithm/algebra/elementary/detail/subtract.h
+++ b/source/fern/algorithm/algebra/elementary/detail/subtract.h
@@ -204,20 +204,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* value2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // integral - float
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
@@ -236,20 +229,13 @@ struct within_range<
     inline static bool calculate(
         Value1 const& /* value1 */,
         Value2 const& /* values2 */,
-#ifndef NDEBUG
-        Result const& result
-#else
-        Result const& /* result */
-#endif
-        )
+        Result const& result)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
-        assert(std::isfinite(result));
 
         // float - integral
-        return true;
-        // return std::isfinite(result);
+        return std::isfinite(result);
     }
 };
 
-- 
2.43.0


From 64c92321d618671c47c19f01fc90e19c3352c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 05/97] fix: multiply: range check of results equal to the
 least value

Products of a positive and a negative integer equal to the least value
representable were rejected.
---
 .../fern/algorithm/algebra/elementary/detail/multiply.h  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/multiply.h b/source/fern/algorithm/algebra/elementary/detail/multiply.h
index f7d51e4..4df6193 100644
--- a/source/fern/algorithm/algebra/elementary/detail/multiply.h
+++ b/source/fern/algorithm/algebra/elementary/detail/multiply.h
@@ -95,7 +95,7 @@ struct within_range<
             }
             else {
                 // value1 is positive, value2 is negative.
-                return -value1 >= max<Result>() / value2;
+                return value2 >= min<Result>() / value1;
             }
         }
         else {
@@ -105,7 +105,7 @@ struct within_range<
             }
             else {
                 // value1 is zero or negative, value2 is positive.
-                return value1 >= -max<Result>() / value2;
+                return value1 >= min<Result>() / value2;
             }
         }
     }
@@ -142,7 +142,10 @@ struct within_range<
             return value1 <= max<Result>() / value2;
         }
         else {
-            return value1 <= -max<Result>() / value2;
+            // The negation of the least value is not representable.
+            return value1 == Value1(0) || (
+                value1 <= static_cast<std::uintmax_t>(max<Result>()) &&
+                value2 >= min<Result>() / static_cast<Result>(value1));
         }
     }
 };
-- 
2.43.0


From c619d971dd40f51d1fe1a0b08b2c17e10bd58b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 06/97] fix: divide: dividing the least integer by -1 is out of
 range

The quotient is not representable. The division crashed (SIGFPE), or wrapped
for small integers, and the result was accepted.
---
 .../algebra/elementary/detail/divide.h        | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/divide.h b/source/fern/algorithm/algebra/elementary/detail/divide.h
index 13b1821..2a71202 100644
--- a/source/fern/algorithm/algebra/elementary/detail/divide.h
+++ b/source/fern/algorithm/algebra/elementary/detail/divide.h
@@ -8,6 +8,8 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>
+#include <cstdint>
+#include <type_traits>
 #include "fern/core/assert.h"
 #include "fern/core/math.h"
 #include "fern/core/type_traits.h"
@@ -70,15 +72,15 @@ struct within_range<
     signed_integer_tag>
 {
     inline static constexpr bool calculate(
-        Value1 const& /* value1 */,
-        Value2 const& /* value2 */,
+        Value1 const& value1,
+        Value2 const& value2,
         Result const& /* result */)
     {
         FERN_STATIC_ASSERT(std::is_same,
             typename fern::algorithm::Result<Value1, Value2>::type, Result)
 
         // signed / signed
-        return true;
+        return !(value1 == min<Result>() && value2 == Value2(-1));
     }
 };
 
@@ -251,7 +253,20 @@ struct Algorithm
         R& result) const
     {
         assert(is_not_equal(value2, Value2(0)));
-        result = static_cast<R>(value1) / static_cast<R>(value2);
+
+        if constexpr(std::is_integral<R>::value && std::is_signed<R>::value) {
+            // Dividing the least value by -1 overflows, which is undefined.
+            // Let the calculation wrap instead, so the out-of-range policy
+            // can inspect the result.
+            result = static_cast<R>(value2) == R(-1)
+                ? static_cast<R>(
+                    std::uintmax_t(0) - static_cast<std::uintmax_t>(value1))
+                : static_cast<R>(
+                    static_cast<R>(value1) / static_cast<R>(value2));
+        }
+        else {
+            result = static_cast<R>(value1) / static_cast<R>(value2);
+        }
     }
 
 };
-- 
2.43.0


From 88c88a8d7846fa778d66d8d5f4e7a541b09eec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 07/97] fix: absolute: no signed overflow at the most negative
 integer

---
 .../algorithm/algebra/elementary/detail/absolute.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/absolute.h b/source/fern/algorithm/algebra/elementary/detail/absolute.h
index ea8e078..58eb3ac 100644
--- a/source/fern/algorithm/algebra/elementary/detail/absolute.h
+++ b/source/fern/algorithm/algebra/elementary/detail/absolute.h
@@ -8,7 +8,7 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>  // abs(float)
-#include <cstdlib>  // abs(int)
+#include <type_traits>
 #include "fern/core/assert.h"
 #include "fern/core/type_traits.h"
 #include "fern/algorithm/policy/policies.h"
@@ -158,7 +158,17 @@ struct AlgorithmByValueType<
         Value const& value,
         Result& result)
     {
-        result = static_cast<Result>(std::abs(value));
+        if constexpr(std::is_integral<Value>::value) {
+            // Negate as unsigned, negating the most negative value overflows.
+            using Unsigned = typename std::make_unsigned<Value>::type;
+
+            result = static_cast<Result>(static_cast<Value>(value < 0
+                ? static_cast<Unsigned>(0u - static_cast<Unsigned>(value))
+                : static_cast<Unsigned>(value)));
+        }
+        else {
+            result = static_cast<Result>(std::abs(value));
+        }
     }
 
 };
-- 
2.43.0


From 968ad6a90d84cbf054e41064f982921e3ae2c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 08/97] fix: factorial: exact results and range check for
 integers

---
 .../algebra/elementary/detail/factorial.h     | 47 +++++++++++++------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/source/fern/algorithm/algebra/elementary/detail/factorial.h b/source/fern/algorithm/algebra/elementary/detail/factorial.h
index 2753d15..c78b93c 100644
--- a/source/fern/algorithm/algebra/elementary/detail/factorial.h
+++ b/source/fern/algorithm/algebra/elementary/detail/factorial.h
@@ -8,6 +8,9 @@
 // -----------------------------------------------------------------------------
 #pragma once
 #include <cmath>
+#include <cstdint>
+#include <limits>
+#include <type_traits>
 #include "fern/core/assert.h"
 #include "fern/core/math.h"
 #include "fern/algorithm/policy/policies.h"
@@ -89,19 +92,20 @@ struct within_range<
         Value const& value,
         [[maybe_unused]] Result const& result)
     {
-        // Calculate the result as if the argument was a floating point and
-        // compare the results.
-
-        // If the integral result does not equal the floating point result,
-        // then the integral result has overflown.
-        // NO, this does not always work. Casting the result to a double might
-        // result in the correct value, although it is not representable by the
-        // Result type.
-        // return is_equal(
-        //     std::round(std::tgamma(value + 1)), static_cast<double>(result));
-
-        // Compare the floating point result with the integral numeric limit
-        return std::round(std::tgamma(value + 1)) <= std::numeric_limits<Result>::max();
+        // The result is representable as long as none of the products of the
+        // factors exceeds the largest value.
+        std::uintmax_t const max_result = std::numeric_limits<Result>::max();
+        std::uintmax_t product = 1;
+
+        for(Value factor = value; factor > Value{1}; --factor) {
+            if(static_cast<std::uintmax_t>(factor) > max_result / product) {
+                return false;
+            }
+
+            product *= static_cast<std::uintmax_t>(factor);
+        }
+
+        return true;
     }
 
 };
@@ -141,7 +145,22 @@ struct Algorithm
     {
         FERN_STATIC_ASSERT(std::is_same, Result, Value)
 
-        result = static_cast<Value>(std::round(std::tgamma(value + Value{1})));
+        if constexpr(std::is_integral<Value>::value) {
+            // Multiply as unsigned, results that are out of range wrap. Once
+            // the product is zero, it stays zero.
+            std::uintmax_t product = 1;
+
+            for(Value factor = value; factor > Value{1} && product != 0;
+                    --factor) {
+                product *= static_cast<std::uintmax_t>(factor);
+            }
+
+            result = static_cast<Result>(product);
+        }
+        else {
+            result = static_cast<Value>(std::round(
+                std::tgamma(value + Value{1})));
+        }
     }
 
 };
-- 
2.43.0


From ad1f78afacfaaf2ba317af2ed707eb55d87e151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 09/97] fix: n_ary_local_operation: third argument in its own
 type

---
 source/fern/algorithm/core/n_ary_local_operation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/n_ary_local_operation.h b/source/fern/algorithm/core/n_ary_local_operation.h
index 1972d23..42d8b64 100644
--- a/source/fern/algorithm/core/n_ary_local_operation.h
+++ b/source/fern/algorithm/core/n_ary_local_operation.h
@@ -103,7 +103,7 @@ struct NAryLocalOperation<
         Result& result,
         Value1 const& value1,
         Value2 const& value2,
-        Value2 const& value3,
+        Value3 const& value3,
         Values&&... values)
     {
         // Handle first two argument values. Store in result.
-- 
2.43.0


From 31b6875c1c12b2158ef48afe57f8129b77567afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 10/97] fix: tan: domain check of large multiples of half pi

---
 source/fern/algorithm/trigonometry/tan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/trigonometry/tan.h b/source/fern/algorithm/trigonometry/tan.h
index f72b0c5..d3547a8 100644
--- a/source/fern/algorithm/trigonometry/tan.h
+++ b/source/fern/algorithm/trigonometry/tan.h
@@ -56,7 +56,7 @@ public:
             else {
                 Value quotient = value / fern::half_pi<Value>();
 
-                return int64_t(quotient) % 2 == 0;
+                return is_equal(std::fmod(quotient, Value(2)), Value(0));
             }
         }
     }
-- 
2.43.0


From b0434e9780b501b92629d8edd00504689a7ff0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 11/97] fix: clamp: parallel use of the kernel of the argument
 shapes

---
 source/fern/algorithm/core/detail/clamp.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/algorithm/core/detail/clamp.h b/source/fern/algorithm/core/detail/clamp.h
index 8702d52..bc1b062 100644
--- a/source/fern/algorithm/core/detail/clamp.h
+++ b/source/fern/algorithm/core/detail/clamp.h
@@ -411,7 +411,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_1d_1d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -507,9 +507,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_1d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -605,9 +605,9 @@ struct ClampByArgumentCategory<
 
         for(auto const& block_range: ranges) {
             auto function = std::bind(
-                clamp_1d_1d_1d<
+                clamp_1d_0d_1d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -717,7 +717,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -823,7 +823,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_2d_0d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
@@ -929,7 +929,7 @@ struct ClampByArgumentCategory<
             auto function = std::bind(
                 clamp_2d_0d_2d<
                     InputNoDataPolicy, OutputNoDataPolicy,
-                    Value, UpperBound, LowerBound, Result>,
+                    Value, LowerBound, UpperBound, Result>,
                 std::cref(input_no_data_policy),
                 std::ref(output_no_data_policy), std::cref(block_range),
                 std::cref(value), std::cref(lower_bound),
-- 
2.43.0


From d29742e519193e03ebfd06d9ce6cac84226f379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 12/97] fix: if_: 1-D condition with scalar values: check the
 size of the result

---
 source/fern/algorithm/core/detail/if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/detail/if.h b/source/fern/algorithm/core/detail/if.h
index 2afbdbb..c199942 100644
--- a/source/fern/algorithm/core/detail/if.h
+++ b/source/fern/algorithm/core/detail/if.h
@@ -1299,7 +1299,7 @@ struct IfThenElseByArgumentCategory<
         FalseValue const& false_value,
         Result& result)
     {
-        assert(size(true_value) == size(condition));
+        assert(size(result) == size(condition));
 
         if_then_else_1d_0d_0d(input_no_data_policy, output_no_data_policy,
             IndexRanges<1>{IndexRange(0, size(condition))}, condition,
-- 
2.43.0


From fead576b5d1ac37c5df8decbed7aad2e005ed62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 13/97] fix: copy: parallel copy of an empty range

---
 source/fern/algorithm/core/detail/copy.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/fern/algorithm/core/detail/copy.h b/source/fern/algorithm/core/detail/copy.h
index a095309..715a87e 100644
--- a/source/fern/algorithm/core/detail/copy.h
+++ b/source/fern/algorithm/core/detail/copy.h
@@ -160,8 +160,7 @@ struct CopyByArgumentCategory<
             };
         }
 
-        std::vector<Position> position_per_block(ranges.size());
-        position_per_block[0] = position;
+        std::vector<Position> position_per_block(ranges.size(), position);
 
         for(size_t i = 1; i < ranges.size(); ++i) {
             position_per_block[i] = get<0>(position_per_block[i - 1]) +
-- 
2.43.0


From d82a868906121ac08a05635e258d5e64c0cc266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 14/97] fix: count sees data below a row that holds only
 no-data

---
 source/fern/algorithm/core/binary_aggregate_operation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index 99cc065..d4bbc42 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -172,6 +172,8 @@ void operation_2d(
             if(data_seen) {
                 break;
             }
+
+            j = begin2;
         }
 
         // Continue where the previous loop stopped.
-- 
2.43.0


From d5421d3837f5a093fd80cafc09c2b30f38f70b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 15/97] fix: count in parallel ignores blocks without data
 instead of marking the result

---
 .../core/binary_aggregate_operation.h         | 102 ++++++++++--------
 1 file changed, 56 insertions(+), 46 deletions(-)

diff --git a/source/fern/algorithm/core/binary_aggregate_operation.h b/source/fern/algorithm/core/binary_aggregate_operation.h
index d4bbc42..94cd07b 100644
--- a/source/fern/algorithm/core/binary_aggregate_operation.h
+++ b/source/fern/algorithm/core/binary_aggregate_operation.h
@@ -53,7 +53,7 @@ template<
     typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_1d(
+bool operation_1d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
     OutputNoDataPolicy& output_no_data_policy,
@@ -107,9 +107,7 @@ void operation_1d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return data_seen;
 }
 
 
@@ -121,7 +119,7 @@ template<
     typename OutputNoDataPolicy,
     typename Value,
     typename Result>
-void operation_2d(
+bool operation_2d(
     Algorithm const& algorithm,
     InputNoDataPolicy const& input_no_data_policy,
     OutputNoDataPolicy& output_no_data_policy,
@@ -221,9 +219,7 @@ void operation_2d(
         }
     }
 
-    if(!data_seen) {
-        output_no_data_policy.mark_as_no_data();
-    }
+    return data_seen;
 }
 
 
@@ -394,10 +390,12 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<1>{IndexRange(0, size(values))},
-            values, value, result);
+        if(!operation_1d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy, output_no_data_policy,
+                IndexRanges<1>{IndexRange(0, size(values))},
+                values, value, result)) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -443,18 +441,12 @@ struct BinaryAggregateOperation<
         ThreadPool& pool(execution_policy.thread_pool());
         size_t const size_ = size(values);
         std::vector<IndexRanges<1>> ranges = index_ranges(pool.size(), size_);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<bool>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
@@ -469,16 +461,27 @@ struct BinaryAggregateOperation<
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Only blocks that contain data contribute to the result.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+
+        for(size_t i = 0; i < futures.size(); ++i) {
+            if(futures[i].get()) {
+                results.emplace_back(results_per_block[i]);
+            }
         }
 
-        Aggregator aggregator;
+        if(results.empty()) {
+            output_no_data_policy.mark_as_no_data();
+        }
+        else {
+            Aggregator aggregator;
 
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+            Aggregate<DataTypeTraits<Result>::is_masking>::template
+                apply<OutOfRangePolicy>(
+                    aggregator, output_no_data_policy, execution_policy,
+                    results, result);
+        }
     }
 
 };
@@ -587,12 +590,14 @@ struct BinaryAggregateOperation<
     {
         Algorithm algorithm;
 
-        operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
-            input_no_data_policy, output_no_data_policy,
-            IndexRanges<2>{
-                IndexRange(0, size(values, 0)),
-                IndexRange(0, size(values, 1))},
-            values, value, result);
+        if(!operation_2d<OutOfDomainPolicy, OutOfRangePolicy>(algorithm,
+                input_no_data_policy, output_no_data_policy,
+                IndexRanges<2>{
+                    IndexRange(0, size(values, 0)),
+                    IndexRange(0, size(values, 1))},
+                values, value, result)) {
+            output_no_data_policy.mark_as_no_data();
+        }
     }
 
 };
@@ -633,18 +638,12 @@ struct BinaryAggregateOperation<
         size_t const size2 = size(values, 1);
         std::vector<IndexRanges<2>> ranges = index_ranges(pool.size(),
             size1, size2);
-        std::vector<std::future<void>> futures;
+        std::vector<std::future<bool>> futures;
         futures.reserve(ranges.size());
         std::vector<Result> results_per_block(ranges.size(), Result(0));
 
         Algorithm algorithm;
 
-        // TODO OutputNoDataPolicy must be created ad-hoc here. It must have
-        //      an effect on the values in results_per_block.
-        //      This depends on whether or not results are masking. Probably
-        //      need to dispatch this whole function on that. First create a
-        //      failing unit test that fails: include a block with only
-        //      no-data and verify the result is not no-data.
         for(size_t i = 0; i < ranges.size(); ++i) {
             auto const& block_range(ranges[i]);
             auto function = std::bind(
@@ -659,16 +658,27 @@ struct BinaryAggregateOperation<
             futures.emplace_back(pool.submit(function));
         }
 
-        for(auto& future: futures) {
-            future.get();
+        // Only blocks that contain data contribute to the result.
+        std::vector<Result> results;
+        results.reserve(ranges.size());
+
+        for(size_t i = 0; i < futures.size(); ++i) {
+            if(futures[i].get()) {
+                results.emplace_back(results_per_block[i]);
+            }
         }
 
-        Aggregator aggregator;
+        if(results.empty()) {
+            output_no_data_policy.mark_as_no_data();
+        }
+        else {
+            Aggregator aggregator;
 
-        Aggregate<DataTypeTraits<Result>::is_masking>::template
-            apply<OutOfRangePolicy>(
-                aggregator, output_no_data_policy, execution_policy,
-                results_per_block, result);
+            Aggregate<DataTypeTraits<Result>::is_masking>::template
+                apply<OutOfRangePolicy>(
+                    aggregator, output_no_data_policy, execution_policy,
+                    results, result);
+        }
     }
 
 };
-- 
2.43.0


From 7545be3f2c2dba00f527545a63e80b0e4df8195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:55 +0000
Subject: [PATCH 16/97] fix: an out of range first value marks the result of a
 2D aggregation

---
 source/fern/algorithm/core/unary_aggregate_operation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/core/unary_aggregate_operation.h b/source/fern/algorithm/core/unary_aggregate_operation.h
index ea34091..3ee4999 100644
--- a/source/fern/algorithm/core/unary_aggregate_operation.h
+++ b/source/fern/algorithm/core/unary_aggregate_operation.h
@@ -262,7 +262,7 @@ std::tuple<bool, bool, Accumulator> operation_2d(
         }
 
         // Continue where the previous loop stopped.
-        if(accumulator_initialized) {
+        if(accumulator_initialized && result_within_range) {
 
             for(; i < end1; ++i) {
 
-- 
2.43.0


From f3f8d3d2c6798f15002c824a9f6a38fd3ecfa751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 17/97] fix: merging counts with a range policy adds the other
 count

---
 source/fern/algorithm/accumulator/count.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/count.h b/source/fern/algorithm/accumulator/count.h
index 1754768..016872a 100644
--- a/source/fern/algorithm/accumulator/count.h
+++ b/source/fern/algorithm/accumulator/count.h
@@ -173,10 +173,13 @@ template<
 template<
     template<typename, typename, typename> class OutOfRangePolicy>
 inline bool Count<Argument, Result>::operator|=(
-    Count const& /* other */)
+    Count const& other)
 {
-    // Value doesn't matter. We're counting, not summing.
-    return operator()<OutOfRangePolicy>(Argument{});
+    Result previous_count{_count};
+    _count += other._count;
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_count, other._count, _count);
 }
 
 
-- 
2.43.0


From 69cc6bb0efd9a9229c331c90a5e3d9e20c0862b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 18/97] fix: sum accumulator: merge in the result type and
 avoid signed overflow

---
 source/fern/algorithm/accumulator/sum.h | 40 ++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/accumulator/sum.h b/source/fern/algorithm/accumulator/sum.h
index a4fac1e..d58a057 100644
--- a/source/fern/algorithm/accumulator/sum.h
+++ b/source/fern/algorithm/accumulator/sum.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cstdint>
+#include <type_traits>
 
 
 namespace fern {
@@ -63,6 +65,10 @@ public:
 
 private:
 
+    template<
+        typename Value>
+    void           add                 (Value const& value);
+
     Result         _sum;
 
 };
@@ -127,7 +133,29 @@ template<
 inline void Sum<Argument, Result>::operator()(
     Argument const& value)
 {
-    _sum += value;
+    add(value);
+}
+
+
+template<
+    typename Argument,
+    typename Result>
+template<
+    typename Value>
+inline void Sum<Argument, Result>::add(
+    Value const& value)
+{
+    if constexpr(std::is_integral<Result>::value &&
+            std::is_integral<Value>::value) {
+        // Signed integer overflow is undefined. Let the calculation wrap
+        // instead, so the out-of-range policy can inspect the result.
+        _sum = static_cast<Result>(
+            static_cast<std::uintmax_t>(_sum) +
+            static_cast<std::uintmax_t>(value));
+    }
+    else {
+        _sum += value;
+    }
 }
 
 
@@ -161,7 +189,7 @@ inline bool Sum<Argument, Result>::operator()(
     Argument const& value)
 {
     Result previous_sum{_sum};
-    _sum += value;
+    add(value);
 
     return OutOfRangePolicy<Result, Argument, Result>::within_range(
         previous_sum, value, _sum);
@@ -180,7 +208,7 @@ template<
 inline Sum<Argument, Result>& Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    _sum += other._sum;
+    add(other._sum);
     return *this;
 }
 
@@ -193,7 +221,11 @@ template<
 inline bool Sum<Argument, Result>::operator|=(
     Sum const& other)
 {
-    return operator()<OutOfRangePolicy>(other._sum);
+    Result previous_sum{_sum};
+    add(other._sum);
+
+    return OutOfRangePolicy<Result, Result, Result>::within_range(
+        previous_sum, other._sum, _sum);
 }
 
 
-- 
2.43.0


From ff8f2baee3e68a5643787d918c91b6a5692e458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 19/97] fix: mean of more values than the result type can count

---
 source/fern/algorithm/accumulator/mean.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/fern/algorithm/accumulator/mean.h b/source/fern/algorithm/accumulator/mean.h
index 347d974..81aa4fc 100644
--- a/source/fern/algorithm/accumulator/mean.h
+++ b/source/fern/algorithm/accumulator/mean.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cstdint>
+#include <type_traits>
 #include <cassert>
 #include <cstddef>
 #include "fern/algorithm/accumulator/count.h"
@@ -174,9 +176,12 @@ inline Result Mean<Argument, Result>::operator()() const
 {
     assert(_count() > 0);
 
-    // _sum() returns result in Result. Dividing by _count may implicitly cast
-    // it to some other type.
-    return _sum() / static_cast<Result>(_count());
+    // Result may be too small for the count. Divide using a type that isn't.
+    using Divisor = std::conditional_t<std::is_floating_point<Result>::value,
+        Result, std::conditional_t<std::is_signed<Result>::value,
+            std::intmax_t, std::uintmax_t>>;
+
+    return static_cast<Result>(_sum() / static_cast<Divisor>(_count()));
 }
 
 
-- 
2.43.0


From 16eafe33ca44a0ed149c901e36aebb0c1021be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 20/97] fix: minimum and maximum of infinite values only

---
 source/fern/algorithm/accumulator/max.h | 7 +++++--
 source/fern/algorithm/accumulator/min.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/fern/algorithm/accumulator/max.h b/source/fern/algorithm/accumulator/max.h
index 612723b..d93369b 100644
--- a/source/fern/algorithm/accumulator/max.h
+++ b/source/fern/algorithm/accumulator/max.h
@@ -57,14 +57,17 @@ private:
     @brief      Default construct an instance.
 
     The layered maximum value is initialized with
-    std::numeric_limits<Argument>::lowest().
+    std::numeric_limits<Argument>::lowest(), or minus
+    infinity for types that have it.
 */
 template<
     typename Argument,
     typename Result>
 inline Max<Argument, Result>::Max()
 
-    : _max(std::numeric_limits<Argument>::lowest())
+    : _max(std::numeric_limits<Argument>::has_infinity
+          ? -std::numeric_limits<Argument>::infinity()
+          : std::numeric_limits<Argument>::lowest())
 
 {
 }
diff --git a/source/fern/algorithm/accumulator/min.h b/source/fern/algorithm/accumulator/min.h
index badeef4..9b8d16c 100644
--- a/source/fern/algorithm/accumulator/min.h
+++ b/source/fern/algorithm/accumulator/min.h
@@ -57,14 +57,17 @@ private:
     @brief      Default construct an instance.
 
     The layered minimum value is initialized with
-    std::numeric_limits<Argument>::max().
+    std::numeric_limits<Argument>::max(), or plus
+    infinity for types that have it.
 */
 template<
     typename Argument,
     typename Result>
 inline Min<Argument, Result>::Min()
 
-    : _min(std::numeric_limits<Argument>::max())
+    : _min(std::numeric_limits<Argument>::has_infinity
+          ? std::numeric_limits<Argument>::infinity()
+          : std::numeric_limits<Argument>::max())
 
 {
 }
-- 
2.43.0


From b05219871deced558d9c56a32b83f301a617a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 21/97] fix: default constructed mode accumulator counted a
 zero that was never added

---
 source/fern/algorithm/accumulator/mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/algorithm/accumulator/mode.h b/source/fern/algorithm/accumulator/mode.h
index d747d37..3f619c7 100644
--- a/source/fern/algorithm/accumulator/mode.h
+++ b/source/fern/algorithm/accumulator/mode.h
@@ -65,7 +65,7 @@ template<
     typename Result>
 inline Mode<Argument, Result>::Mode()
 
-    : _frequency_table(0)
+    : _frequency_table()
 
 {
 }
-- 
2.43.0


From 81cdf3b8879959fc3357ff03688e04d690b83fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 22/97] fix: median of an even number of large values
 overflowed

---
 source/fern/algorithm/accumulator/median.h | 32 ++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/accumulator/median.h b/source/fern/algorithm/accumulator/median.h
index 5a2e37b..5e6d3e6 100644
--- a/source/fern/algorithm/accumulator/median.h
+++ b/source/fern/algorithm/accumulator/median.h
@@ -9,6 +9,7 @@
 #pragma once
 #include <algorithm>
 #include <cassert>
+#include <type_traits>
 #include <vector>
 
 
@@ -52,6 +53,9 @@ public:
 
 private:
 
+    static Result  mean                (Argument const& value1,
+                                        Argument const& value2);
+
     mutable std::vector<Argument> _values;
 
 };
@@ -147,14 +151,38 @@ inline Result Median<Argument, Result>::operator()() const
     }
     else {
         // Even. Return mean of two center values.
-        result = static_cast<Result>(_values[center_index - 1] +
-            _values[center_index]) / 2;
+        result = mean(_values[center_index - 1], _values[center_index]);
     }
 
     return result;
 }
 
 
+template<
+    typename Argument,
+    typename Result>
+inline Result Median<Argument, Result>::mean(
+    Argument const& value1,
+    Argument const& value2)
+{
+    using Common = std::common_type_t<Argument, Result>;
+
+    if constexpr(std::is_floating_point<Common>::value) {
+        return static_cast<Result>(
+            (static_cast<Common>(value1) + static_cast<Common>(value2)) / 2);
+    }
+    else if((value1 < 0) != (value2 < 0)) {
+        // The sum of values with different signs fits in the type.
+        return static_cast<Result>((value1 + value2) / 2);
+    }
+    else {
+        // The sum of values with equal signs may not fit in the type.
+        return static_cast<Result>(value1 / 2 + value2 / 2 +
+            (value1 % 2 + value2 % 2) / 2);
+    }
+}
+
+
 /*!
     @brief      Merge @a other with *this.
 
-- 
2.43.0


From 9d71211faae4bcc6c62c38fd94b7ee2a1d0b1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 23/97] fix: replacing no-data surrounded by no-data divided by
 zero during convolution

---
 .../replace_no_data_by_focal_average.h          | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
index 7578156..b424125 100644
--- a/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_no_data_by_focal_average.h
@@ -7,7 +7,6 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
-#include <cassert>
 #include <cstddef>
 #include <tuple>
 #include "fern/core/data_customization_point.h"
@@ -83,16 +82,14 @@ inline bool ReplaceNoDataByFocalAverage::value(
         }
     }
 
-    // At least the focal cell must be non-no-data. Otherwise it would have
-    // been skipped entirely and we wouldn't be here.
-    // -> But in case the radius of the convolution kernel is larger than 1,
-    // the focal cell is not surrounding cell row, col. It is possible that
-    // cell row, col is surrounded by only no-data.
-    // TODO Handle this once this assertion fails for the first time.
-    assert(nr_values_seen > 0u);
-    value = sum_of_values / static_cast<Value>(nr_values_seen);
+    // In case the radius of the convolution kernel is larger than 1, or the
+    // focal cell itself contains no-data, it is possible that cell row, col
+    // is surrounded by only no-data. There is no alternative value then.
+    if(nr_values_seen > 0u) {
+        value = sum_of_values / static_cast<Value>(nr_values_seen);
+    }
 
-    return true;
+    return nr_values_seen > 0u;
 }
 
 } // namespace convolve
-- 
2.43.0


From ffb8b36fba8fe4b7c42f6592549a42c33a63e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 24/97] fix: out-of-image focal average read outside of images
 of twice the kernel radius

---
 .../replace_out_of_image_by_focal_average.h   | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
index cd358b9..6e610cd 100644
--- a/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
+++ b/source/fern/algorithm/convolution/replace_out_of_image_by_focal_average.h
@@ -218,8 +218,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        size(source, 1) - 1);
 
                     index_ = index(source, row, col);
 
@@ -248,8 +249,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_west(
             size_t row = out_of_image_kernel_row - first_row_kernel >= radius
                 ? out_of_image_kernel_row -first_row_kernel - radius
                 : 0;
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(
+                out_of_image_kernel_row - first_row_kernel + radius,
+                size(source, 0) - 1);
 
             for(; row <= last_row; ++row) {
                 size_t col = first_col_source;
@@ -353,7 +355,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
                     index_ = index(source, row, col);
@@ -385,8 +387,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_north_east(
                     ? out_of_image_kernel_row - first_row_kernel - radius
                     : 0;
 
-            size_t const last_row = out_of_image_kernel_row -
-                first_row_kernel + radius;
+            size_t const last_row = std::min(
+                out_of_image_kernel_row - first_row_kernel + radius,
+                size(source, 0) - 1);
 
             for(; row <= last_row; ++row) {
 
@@ -494,8 +497,9 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
                     size_t col = out_of_image_kernel_col - first_col_kernel >=
                         radius ? out_of_image_kernel_col - first_col_kernel -
                         radius : 0;
-                    size_t const last_col = out_of_image_kernel_col -
-                        first_col_kernel + radius;
+                    size_t const last_col = std::min(
+                        out_of_image_kernel_col - first_col_kernel + radius,
+                        size(source, 1) - 1);
 
                     index_ = index(source, row, col);
 
@@ -524,7 +528,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_west(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
@@ -637,7 +641,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
                 for(; row <= last_row; ++row) {
 
-                    size_t col = col_source - radius;
+                    size_t col = radius > col_source ? 0 : col_source - radius;
                     size_t last_col = std::min(col_source + radius,
                         last_col_source);
 
@@ -668,7 +672,7 @@ inline bool ReplaceOutOfImageByFocalAverage::value_south_east(
 
             size_t const row_source = first_row_source +
                 out_of_image_kernel_row;
-            size_t row = row_source - radius;
+            size_t row = radius > row_source ? 0 : row_source - radius;
             size_t last_row = std::min(row_source + radius, last_row_source);
 
             for(; row <= last_row; ++row) {
-- 
2.43.0


From d4b669dc15f680b171e43d54c4d1dad7be2468d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 25/97] fix: convolution did not mark results that are not
 finite after normalizing

---
 .../algorithm/convolution/detail/convolve.h   | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/source/fern/algorithm/convolution/detail/convolve.h b/source/fern/algorithm/convolution/detail/convolve.h
index 7e773d2..25f36b7 100644
--- a/source/fern/algorithm/convolution/detail/convolve.h
+++ b/source/fern/algorithm/convolution/detail/convolve.h
@@ -262,7 +262,9 @@ struct ConvolveNorthWestCorner
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -441,7 +443,9 @@ struct ConvolveNorthEastCorner
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -621,7 +625,9 @@ struct ConvolveSouthWestCorner
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -803,7 +809,9 @@ struct ConvolveSouthEastCorner
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -982,7 +990,9 @@ struct ConvolveNorthSide
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -1161,7 +1171,9 @@ struct ConvolveWestSide
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -1342,7 +1354,9 @@ struct ConvolveEastSide
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -1522,7 +1536,9 @@ struct ConvolveSouthSide
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -1662,7 +1678,9 @@ struct ConvolveInnerPart<true>
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
@@ -1825,7 +1843,9 @@ struct ConvolveInnerPart<false>
                     // value makes no sense.
 
                     // TODO OutOfRangePolicy must handle integral results too.
-                    if(!value_seen || !OORP::within_range(sum_of_values)) {
+                    if(!value_seen || !OORP::within_range(sum_of_values) ||
+                            !OORP::within_range(NP::normalize(sum_of_values,
+                                sum_of_weights))) {
                         output_no_data_policy.mark_as_no_data(index_);
                     }
                     else {
-- 
2.43.0


From a2cf10141f9c2565fe52e7c199013ef32402bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:21 +0000
Subject: [PATCH 26/97] fix: gradient of rasters of one or no row or column
 accessed cells outside of the raster

---
 .../algebra/vector/detail/gradient.h          | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/gradient.h b/source/fern/algorithm/algebra/vector/detail/gradient.h
index a21366a..c62d758 100644
--- a/source/fern/algorithm/algebra/vector/detail/gradient.h
+++ b/source/fern/algorithm/algebra/vector/detail/gradient.h
@@ -55,7 +55,8 @@ static void gradient_x_2d(
         index_center = index(result, i, index_ranges[1].begin());
         index_right = index_center + 1;
 
-        for(size_t j = index_ranges[1].begin(); j < 1; ++j) {
+        for(size_t j = index_ranges[1].begin();
+                j < std::min<size_t>(1u, index_ranges[1].end()); ++j) {
 
             // Left cell of window lies outside of the raster. Consider it
             // no-data.
@@ -64,9 +65,8 @@ static void gradient_x_2d(
                 output_no_data_policy.mark_as_no_data(index_center);
             }
             else {
-                assert(j + 1 < size2);
-
-                if(!std::get<0>(input_no_data_policy).is_no_data(index_right)) {
+                if(j + 1 < size2 && !std::get<0>(
+                        input_no_data_policy).is_no_data(index_right)) {
                     // x c r
                     get(result, index_center) = gradient(
                         get(value, index_center),
@@ -85,8 +85,10 @@ static void gradient_x_2d(
     }
 
 
-    // Handle right border, in case it is within the index range.
-    for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end(); ++i) {
+    // Handle right border, in case it is within the index range. In case there
+    // is only one column, then it has been handled already.
+    for(size_t i = index_ranges[0].begin();
+            size2 > 1u && i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, size2 - 1);
         assert(index_center > 0);
@@ -124,7 +126,8 @@ static void gradient_x_2d(
 
     // Handle innert part, except for the borders (in case borders are within
     // the index range).
-    for(size_t i = index_ranges[0].begin(); i < index_ranges[0].end(); ++i) {
+    for(size_t i = index_ranges[0].begin();
+            size2 > 1u && i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, std::max<size_t>(1u,
             index_ranges[1].begin()));
@@ -201,10 +204,11 @@ static void gradient_y_2d(
     size_t index_top, index_center, index_bottom;
 
     // Handle top border, in case it is within the index range.
-    for(size_t i = index_ranges[0].begin(); i < 1; ++i) {
+    for(size_t i = index_ranges[0].begin();
+            i < std::min<size_t>(1u, index_ranges[0].end()); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
-        index_bottom = index(result, i + 1, index_ranges[1].begin());
+        index_bottom = index_center + size(result, 1);
 
         for(size_t j = index_ranges[1].begin(); j < index_ranges[1].end();
             ++j) {
@@ -216,10 +220,8 @@ static void gradient_y_2d(
                 output_no_data_policy.mark_as_no_data(index_center);
             }
             else {
-                assert(i + 1 < size1);
-
-                if(!std::get<0>(input_no_data_policy).is_no_data(
-                        index_bottom)) {
+                if(i + 1 < size1 && !std::get<0>(
+                        input_no_data_policy).is_no_data(index_bottom)) {
                     // x c r
                     get(result, index_center) = gradient(
                         get(value, index_center),
@@ -238,8 +240,10 @@ static void gradient_y_2d(
     }
 
 
-    // Handle bottom border, in case it is within the index range.
-    for(size_t i = size1 - 1; i < index_ranges[0].end(); ++i) {
+    // Handle bottom border, in case it is within the index range. In case there
+    // is only one row, then it has been handled already.
+    for(size_t i = std::max<size_t>(size1 - 1, 1u);
+            i < index_ranges[0].end(); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
         index_top = index(result, i - 1, index_ranges[1].begin());
@@ -278,7 +282,8 @@ static void gradient_y_2d(
     // Handle innert part, except for the borders (in case borders are within
     // the index range).
     for(size_t i = std::max<size_t>(1u, index_ranges[0].begin());
-            i < std::min<size_t>(size1 - 1u, index_ranges[0].end()); ++i) {
+            size1 > 1u &&
+                i < std::min<size_t>(size1 - 1u, index_ranges[0].end()); ++i) {
 
         index_center = index(result, i, index_ranges[1].begin());
         index_bottom = index(result, i + 1, index_ranges[1].begin());
-- 
2.43.0


From 190c2c127d2f43f1c3c7258e70afe15c5ed00e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 27/97] fix: laplacian and lax did not compile for single
 precision rasters

---
 source/fern/algorithm/algebra/vector/detail/laplacian.h | 3 ++-
 source/fern/algorithm/algebra/vector/detail/lax.h       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/laplacian.h b/source/fern/algorithm/algebra/vector/detail/laplacian.h
index bd452a9..c0c4ce6 100644
--- a/source/fern/algorithm/algebra/vector/detail/laplacian.h
+++ b/source/fern/algorithm/algebra/vector/detail/laplacian.h
@@ -193,7 +193,8 @@ struct Laplacian<
                 divide::OutOfDomainPolicy,
                 divide::OutOfRangePolicy>(
                     input_no_data_policy_, output_no_data_policy,
-                    execution_policy, result, cell_area(value), result);
+                    execution_policy, result,
+                    static_cast<Float>(cell_area(value)), result);
         }
     }
 
diff --git a/source/fern/algorithm/algebra/vector/detail/lax.h b/source/fern/algorithm/algebra/vector/detail/lax.h
index 3c306d5..4127bc6 100644
--- a/source/fern/algorithm/algebra/vector/detail/lax.h
+++ b/source/fern/algorithm/algebra/vector/detail/lax.h
@@ -125,7 +125,7 @@ struct Lax<
                 //       output-no-data-policy passed in.
                 algorithm::multiply::OutOfRangePolicy>(
                     input_no_data_policy_, output_no_data_policy,
-                    execution_policy, (1.0 - fraction), value,
+                    execution_policy, Float(1) - fraction, value,
                     multiplied_values);
         }
 
-- 
2.43.0


From b6e429b091618e8fda9b2c2da264933f3f85af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:31 +0000
Subject: [PATCH 28/97] fix: value types could not be obtained from their name,
 depending on the order of initialization

---
 source/fern/core/value_types.cc | 50 ++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/source/fern/core/value_types.cc b/source/fern/core/value_types.cc
index 13f4ac1..a316385 100644
--- a/source/fern/core/value_types.cc
+++ b/source/fern/core/value_types.cc
@@ -14,31 +14,6 @@
 
 namespace fern {
 
-// The static ValueTypes members are defined in type_traits.cc. Otherwise,
-// if type_traits.cc is built before this module, it won't have the correct
-// values yet (the value_types member will all be ValueTypes::UNKNOWN).
-
-// These strings should match the ones used in the XML schema.
-static std::map<std::string, ValueTypes> value_type_by_string = {
-    { "Bool"          , ValueTypes::BOOL             },
-    { "Char"          , ValueTypes::CHAR             },
-    { "Uint8"         , ValueTypes::UINT8            },
-    { "Int8"          , ValueTypes::INT8             },
-    { "Uint16"        , ValueTypes::UINT16           },
-    { "Int16"         , ValueTypes::INT16            },
-    { "Uint32"        , ValueTypes::UINT32           },
-    { "Int32"         , ValueTypes::INT32            },
-    { "Uint64"        , ValueTypes::UINT64           },
-    { "Int64"         , ValueTypes::INT64            },
-    { "Size"          , ValueTypes::SIZE             },
-    { "Float32"       , ValueTypes::FLOAT32          },
-    { "Float64"       , ValueTypes::FLOAT64          },
-    { "String"        , ValueTypes::STRING           },
-    { "Number"        , ValueTypes::NUMBER           },
-    { "All"           , ValueTypes::ALL              }
-};
-
-
 static std::map<ValueType, std::string> string_by_value_type = {
     { ValueType::VT_BOOL            , "Bool"           },
     { ValueType::VT_CHAR            , "Char"           },
@@ -84,6 +59,31 @@ std::vector<ValueType> const ValueTypes::VALUE_TYPES = {
 ValueTypes ValueTypes::from_string(
     std::string const& string)
 {
+    // The static ValueTypes members are defined in type_traits.cc. The order of
+    // initialization of the static objects of different modules is undefined,
+    // so this map must not be filled before it is used. Otherwise it may
+    // contain ValueTypes::UNKNOWN values only.
+
+    // These strings should match the ones used in the XML schema.
+    static std::map<std::string, ValueTypes> value_type_by_string = {
+        { "Bool"          , ValueTypes::BOOL             },
+        { "Char"          , ValueTypes::CHAR             },
+        { "Uint8"         , ValueTypes::UINT8            },
+        { "Int8"          , ValueTypes::INT8             },
+        { "Uint16"        , ValueTypes::UINT16           },
+        { "Int16"         , ValueTypes::INT16            },
+        { "Uint32"        , ValueTypes::UINT32           },
+        { "Int32"         , ValueTypes::INT32            },
+        { "Uint64"        , ValueTypes::UINT64           },
+        { "Int64"         , ValueTypes::INT64            },
+        { "Size"          , ValueTypes::SIZE             },
+        { "Float32"       , ValueTypes::FLOAT32          },
+        { "Float64"       , ValueTypes::FLOAT64          },
+        { "String"        , ValueTypes::STRING           },
+        { "Number"        , ValueTypes::NUMBER           },
+        { "All"           , ValueTypes::ALL              }
+    };
+
     assert(!string.empty());
     assert(value_type_by_string.find(string) != value_type_by_string.end());
     return value_type_by_string[string];
-- 
2.43.0


From ba308a384cb086f9092419f083c25add5086f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:33 +0000
Subject: [PATCH 29/97] fix: the result value type of operations on 16 bit
 integers was not handled

---
 .../language/operation/core/expression_type_calculation.cc     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/fern/language/operation/core/expression_type_calculation.cc b/source/fern/language/operation/core/expression_type_calculation.cc
index 5cf4682..c520d73 100644
--- a/source/fern/language/operation/core/expression_type_calculation.cc
+++ b/source/fern/language/operation/core/expression_type_calculation.cc
@@ -168,6 +168,9 @@ static ValueTypes result_value_type(
     else if(merged_argument_value_types.test(fern::VT_UINT16)) {
         result_value_type = ValueTypes::UINT16;
     }
+    else if(merged_argument_value_types.test(fern::VT_INT16)) {
+        result_value_type = ValueTypes::INT16;
+    }
     else if(merged_argument_value_types.test(fern::VT_UINT8)) {
         result_value_type = ValueTypes::UINT8;
     }
-- 
2.43.0


From ac70617e166a74b5a4dbbb9db9608a119953f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 30/97] fix: cloning rasters of three dimensions did not
 compile

---
 source/fern/feature/core/data_customization_point/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/feature/core/data_customization_point/raster.h b/source/fern/feature/core/data_customization_point/raster.h
index 2f5d1e5..a253598 100644
--- a/source/fern/feature/core/data_customization_point/raster.h
+++ b/source/fern/feature/core/data_customization_point/raster.h
@@ -146,7 +146,7 @@ inline Raster<U, 3> clone(
     Raster<V, 3> const& raster)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation());
 }
 
@@ -159,7 +159,7 @@ inline Raster<U, 3> clone(
     U const& value)
 {
     return Raster<U, 3>(
-        extents[raster.shape()[0]][raster.shape()[1],raster.shape()[2]],
+        extents[raster.shape()[0]][raster.shape()[1]][raster.shape()[2]],
         raster.transformation(), value);
 }
 
-- 
2.43.0


From 1a8a48ed3295e22489947062a9e802274356efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 31/97] fix: clone of a masked array of three dimensions got
 the wrong shape

---
 .../fern/feature/core/data_customization_point/masked_array.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/feature/core/data_customization_point/masked_array.h b/source/fern/feature/core/data_customization_point/masked_array.h
index a936140..540c73b 100644
--- a/source/fern/feature/core/data_customization_point/masked_array.h
+++ b/source/fern/feature/core/data_customization_point/masked_array.h
@@ -124,7 +124,7 @@ inline MaskedArray<U, 3> clone(
     MaskedArray<V, 3> const& array)
 {
     return MaskedArray<U, 3>(
-        extents[array.shape()[0]][array.shape()[1]][array.shape()[1]]);
+        extents[array.shape()[0]][array.shape()[1]][array.shape()[2]]);
 }
 
 
-- 
2.43.0


From 65ef34268661995c96582b266280bfc67bf0128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 32/97] fix: cells of operation rasters that are not square
 were mapped on each other

---
 source/fern/language/operation/raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/operation/raster.h b/source/fern/language/operation/raster.h
index 6bd2e4d..c5c1b1e 100644
--- a/source/fern/language/operation/raster.h
+++ b/source/fern/language/operation/raster.h
@@ -63,7 +63,7 @@ public:
         ValueType value) {
         assert(row < nr_rows_);
         assert(col < nr_cols_);
-        _cells[row * nr_rows_ + col] = value;
+        _cells[row * nr_cols_ + col] = value;
     }
 
     ValueType get(
@@ -71,7 +71,7 @@ public:
         size_t col) {
         assert(row < nr_rows_);
         assert(col < nr_cols_);
-        return _cells[row * nr_rows_ + col];
+        return _cells[row * nr_cols_ + col];
     }
 
     iterator begin()
-- 
2.43.0


From bcad7f569a309058c8bd1d6201330d5f9973604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 33/97] fix: names of data containing a newline, and long ones,
 could not be parsed

---
 source/fern/core/data_name.cc | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/source/fern/core/data_name.cc b/source/fern/core/data_name.cc
index 215b2a8..e14a008 100644
--- a/source/fern/core/data_name.cc
+++ b/source/fern/core/data_name.cc
@@ -8,20 +8,11 @@
 // -----------------------------------------------------------------------------
 #include "fern/core/data_name.h"
 #include <cassert>
-#include <regex>
 #include "fern/core/string.h"
 
 
 namespace fern {
 
-/// static UErrorCode status;
-// No starting /:
-/// // static RegexMatcher matcher("([^:]+)(?::(?!/)(.+)?)?", 0, status);
-/// // static RegexMatcher matcher("([^:]+)(?::(.+)?)?", 0, status);
-// <database pathname>:<data pathname>
-static std::regex regular_expression(R"(([^:]+)(?::(.+)?)?)");
-
-
 DataName::DataName(
     char const* string)
 
@@ -34,19 +25,18 @@ DataName::DataName(
 DataName::DataName(
     std::string const& string)
 {
-    std::string database_pathname, data_pathname;
-    std::smatch match;
-
-    if(!std::regex_match(string, match, regular_expression)) {
-        assert(false);
-        // TODO raise exception.
-    }
-
-    assert(match.size() >= 2);
-    database_pathname = match[1].str();
-
-    if(match.size() > 2) {
-        data_pathname = match[2].str();
+    // <database pathname>:<data pathname>
+    // The names can contain any character and can be of any length. Matching
+    // them with a regular expression fails for newlines and for long names.
+    auto const separator = string.find(':');
+    std::string database_pathname{string.substr(0, separator)};
+    std::string data_pathname;
+
+    // TODO raise exception.
+    assert(!database_pathname.empty());
+
+    if(separator != std::string::npos) {
+        data_pathname = string.substr(separator + 1);
     }
 
     // Remove trailing occurences of path separator.
-- 
2.43.0


From de93fac4a56df7117bbbfd4f2c817987bb09b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 34/97] fix: splitting a string containing many consecutive
 separators overflowed the stack

---
 source/fern/core/string.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/string.cc b/source/fern/core/string.cc
index e6de13f..3c71eae 100644
--- a/source/fern/core/string.cc
+++ b/source/fern/core/string.cc
@@ -100,8 +100,10 @@ std::vector<std::string> split(
         characters = "[:space:]";
     }
 
+    // Match a single character. Matching a long sequence of characters may
+    // overflow the stack. Empty words are skipped below.
     std::regex regular_expression(
-        std::string("[") + characters + std::string("]+"));
+        std::string("[") + characters + std::string("]"));
     std::vector<std::string> words;
 
     std::copy_if(std::sregex_token_iterator(string.begin(), string.end(),
-- 
2.43.0


From d2fd79986931294bd96d666f5224a100ebffb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 35/97] fix: moving a scope exit guard resulted in its function
 being called twice

---
 source/fern/core/scope_exit.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/fern/core/scope_exit.h b/source/fern/core/scope_exit.h
index 343b07d..601bf04 100644
--- a/source/fern/core/scope_exit.h
+++ b/source/fern/core/scope_exit.h
@@ -69,7 +69,7 @@ public:
 
                    ScopeExit           (ScopeExit const& other)=delete;
 
-                   ScopeExit           (ScopeExit&& other)=default;
+                   ScopeExit           (ScopeExit&& other) noexcept;
 
                    ~ScopeExit          () noexcept(noexcept(_function));
 
@@ -100,6 +100,25 @@ inline ScopeExit<Function>::ScopeExit(
 }
 
 
+/*!
+    @brief      Move construct an instance.
+
+    The responsibility to call the function is transferred from @a other to
+    the new instance.
+*/
+template<
+    typename Function>
+inline ScopeExit<Function>::ScopeExit(
+    ScopeExit&& other) noexcept
+
+    : _function(std::move(other._function)),
+      _execute_on_destruction(other._execute_on_destruction)
+
+{
+    other.release();
+}
+
+
 /*!
     @brief      Destruct the instance.
 
-- 
2.43.0


From 87a32abf22ba6a0cb8e87a99a1a9e8676b1794ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 36/97] fix: cloning a scalar was ambiguous and did not compile

---
 source/fern/core/data_customization_point/scalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/core/data_customization_point/scalar.h b/source/fern/core/data_customization_point/scalar.h
index f9581a0..9028b2d 100644
--- a/source/fern/core/data_customization_point/scalar.h
+++ b/source/fern/core/data_customization_point/scalar.h
@@ -59,7 +59,7 @@ inline size_t size(
 template<
     typename U,
     typename V>
-inline U clone(
+inline CloneT<V, U> clone(
     V const& /* constant */)
 {
     return U{};
-- 
2.43.0


From 48b7bfdc03040f5dc2a066ad6410ac6cdc3debe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 37/97] fix: file_exists threw when the status of a file could
 not be determined

---
 source/fern/io/core/file.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/fern/io/core/file.cc b/source/fern/io/core/file.cc
index 997eb45..5fe19bf 100644
--- a/source/fern/io/core/file.cc
+++ b/source/fern/io/core/file.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/core/file.h"
 #include <filesystem>
+#include <system_error>
 
 
 namespace fern {
@@ -20,7 +21,10 @@ namespace io {
 bool file_exists(
     std::string const& pathname)
 {
-    return std::filesystem::exists(pathname);
+    // In case the status of the file cannot be determined, it is not accessible.
+    std::error_code error;
+
+    return std::filesystem::exists(pathname, error);
 }
 
 } // namespace io
-- 
2.43.0


From 7e699c5b7d852a84bafa206e6651b0faab78555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 38/97] fix: requesting a raster band that does not exist
 aborted

---
 source/fern/io/gdal/dataset.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/fern/io/gdal/dataset.cc b/source/fern/io/gdal/dataset.cc
index ac8499c..12e86bd 100644
--- a/source/fern/io/gdal/dataset.cc
+++ b/source/fern/io/gdal/dataset.cc
@@ -65,7 +65,7 @@ DatasetHandle open_dataset(
     @ingroup    fern_io_gdal_group
     @brief      Return the GDAL raster band @a band_id from @a dataset.
     @param      band_id Id of the raster band to return.
-    @todo       Raise IOError in case @a dataset does not contain a raster
+    @exception  IOError In case @a dataset does not contain a raster
                 band with id @a band_id.
 */
 GDALRasterBand* raster_band(
@@ -77,7 +77,10 @@ GDALRasterBand* raster_band(
     int nr_bands{dataset->GetRasterCount()};
 
     if(band_id > nr_bands) {
-        assert(false);
+        throw IOError(dataset->GetDescription(),
+            Exception::messages().format_message(
+                MessageId::DOES_NOT_CONTAIN_DATA,
+                "raster band " + std::to_string(band_id)));
     }
 
     GDALRasterBand* band{dataset->GetRasterBand(band_id)};
-- 
2.43.0


From 4ec3eac4efd862848cb5e438f9c4af4e987dd3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 39/97] fix: reading rasters that are damaged or have another
 value type aborted

---
 source/fern/io/gdal/detail/read.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index 04d2552..efd33c1 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -64,15 +64,18 @@ inline void read(
     // Verify that the elements in the raster to read have the same value
     // type as the variable passed in.
     GDALDataType gdal_value_type{band->GetRasterDataType()};
-    assert(ValueTypeTraits<value_type>::gdal_value_type == gdal_value_type);
-
-    // TODO Exception if not.
+    if(ValueTypeTraits<value_type>::gdal_value_type != gdal_value_type) {
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, "raster band 1",
+                GDALGetDataTypeName(gdal_value_type)));
+    }
 
     if(band->RasterIO(GF_Read, 0, 0, nr_cols, nr_rows, data(destination),
             nr_cols, nr_rows, ValueTypeTraits<value_type>::gdal_value_type,
             0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        throw IOError(data_name.database_pathname().native_string(),
+            Exception::messages()[MessageId::CANNOT_BE_READ]);
     }
 
 
-- 
2.43.0


From f0e5a60032b17d1286822fd49d700c174ab5ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 40/97] fix: moved from dataset handles closed the dataset

---
 source/fern/io/gdal/dataset_handle.cc        | 39 +++++++++++++++++++-
 source/fern/io/gdal/dataset_handle.h         |  4 +-
 source/fern/io/netcdf/core/dataset_handle.cc | 39 +++++++++++++++++++-
 source/fern/io/netcdf/core/dataset_handle.h  |  4 +-
 4 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/source/fern/io/gdal/dataset_handle.cc b/source/fern/io/gdal/dataset_handle.cc
index 5a523d9..153fc66 100644
--- a/source/fern/io/gdal/dataset_handle.cc
+++ b/source/fern/io/gdal/dataset_handle.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/io/gdal/dataset_handle.h"
 #include <cassert>
+#include <utility>
 #include <gdal_priv.h>
 
 
@@ -28,12 +29,48 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move construct an instance.
+
+    The new instance becomes the only handle to the dataset. @a other doesn't
+    handle a dataset anymore.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other) noexcept
+
+    : _dataset(other._dataset)
+
+{
+    other._dataset = nullptr;
+}
+
+
+/*!
+    @brief      Move assign @a other.
+
+    The dataset currently handled, if any, is closed. @a other doesn't handle a
+    dataset anymore.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other) noexcept
+{
+    if(this != &other) {
+        DatasetHandle handle(std::move(other));
+        std::swap(_dataset, handle._dataset);
+    }
+
+    return *this;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the GDAL dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    GDALClose(_dataset);
+    if(_dataset) {
+        GDALClose(_dataset);
+    }
 }
 
 
diff --git a/source/fern/io/gdal/dataset_handle.h b/source/fern/io/gdal/dataset_handle.h
index 7206c85..b298ef8 100644
--- a/source/fern/io/gdal/dataset_handle.h
+++ b/source/fern/io/gdal/dataset_handle.h
@@ -33,13 +33,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other) noexcept;
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other) noexcept;
 
     GDALDataset*   operator->          ();
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.cc b/source/fern/io/netcdf/core/dataset_handle.cc
index cc7785c..695836f 100644
--- a/source/fern/io/netcdf/core/dataset_handle.cc
+++ b/source/fern/io/netcdf/core/dataset_handle.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/io/netcdf/core/dataset_handle.h"
+#include <utility>
 #include <netcdf.h>
 
 
@@ -26,12 +27,48 @@ DatasetHandle::DatasetHandle(
 }
 
 
+/*!
+    @brief      Move construct an instance.
+
+    The new instance becomes the only handle to the dataset. @a other doesn't
+    handle a dataset anymore.
+*/
+DatasetHandle::DatasetHandle(
+    DatasetHandle&& other) noexcept
+
+    : _ncid(other._ncid)
+
+{
+    other._ncid = -1;
+}
+
+
+/*!
+    @brief      Move assign @a other.
+
+    The dataset currently handled, if any, is closed. @a other doesn't handle a
+    dataset anymore.
+*/
+DatasetHandle& DatasetHandle::operator=(
+    DatasetHandle&& other) noexcept
+{
+    if(this != &other) {
+        DatasetHandle handle(std::move(other));
+        std::swap(_ncid, handle._ncid);
+    }
+
+    return *this;
+}
+
+
 /*!
     @brief      Destruct the instance, closing the NetCDF dataset.
 */
 DatasetHandle::~DatasetHandle()
 {
-    static_cast<void>(nc_close(_ncid));
+    if(_ncid != -1) {
+        static_cast<void>(nc_close(_ncid));
+    }
 }
 
 
diff --git a/source/fern/io/netcdf/core/dataset_handle.h b/source/fern/io/netcdf/core/dataset_handle.h
index 352f216..242e583 100644
--- a/source/fern/io/netcdf/core/dataset_handle.h
+++ b/source/fern/io/netcdf/core/dataset_handle.h
@@ -30,13 +30,13 @@ public:
 
                    DatasetHandle       (DatasetHandle const& other)=delete;
 
-                   DatasetHandle       (DatasetHandle&& other)=default;
+                   DatasetHandle       (DatasetHandle&& other) noexcept;
 
                    ~DatasetHandle      ();
 
     DatasetHandle& operator=           (DatasetHandle const& other)=delete;
 
-    DatasetHandle& operator=           (DatasetHandle&& other)=default;
+    DatasetHandle& operator=           (DatasetHandle&& other) noexcept;
 
     int            ncid                () const;
 
-- 
2.43.0


From 5dce6c9b332b0c08d53b0805b852d1202e88f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 41/97] fix: GDAL no-data values that are NaN, or that the
 value type cannot represent, were mishandled

---
 source/fern/io/gdal/detail/read.h | 44 ++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/gdal/detail/read.h b/source/fern/io/gdal/detail/read.h
index efd33c1..f2f37fb 100644
--- a/source/fern/io/gdal/detail/read.h
+++ b/source/fern/io/gdal/detail/read.h
@@ -7,6 +7,8 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <cmath>
+#include <limits>
 #include <gdal_priv.h>
 #include "fern/core/io_error.h"
 #include "fern/io/gdal/dataset.h"
@@ -18,6 +20,43 @@ namespace io {
 namespace gdal {
 namespace detail {
 
+/*!
+    @brief      Return whether @a value equals the GDAL no-data value
+                @a no_data_value.
+
+    GDAL represents no-data values of all value types by a double. It can be
+    NaN, and it is possible that it cannot be represented by the value type
+    of the raster. In that case none of the values are no-data.
+*/
+template<
+    typename Value>
+inline bool is_no_data(
+    Value const& value,
+    double const no_data_value)
+{
+    using Limits = std::numeric_limits<Value>;
+
+    if(std::isnan(no_data_value)) {
+        return value != value;
+    }
+
+    if(Limits::has_infinity && std::isinf(no_data_value)) {
+        return static_cast<double>(value) == no_data_value;
+    }
+
+    if(no_data_value < static_cast<double>(Limits::lowest()) ||
+            no_data_value > static_cast<double>(Limits::max())) {
+        return false;
+    }
+
+    if(Limits::is_integer && no_data_value != std::trunc(no_data_value)) {
+        return false;
+    }
+
+    return value == static_cast<Value>(no_data_value);
+}
+
+
 template<
     typename OutputNoDataPolicy,
     typename Destination
@@ -80,8 +119,7 @@ inline void read(
 
 
     int has_no_data;
-    value_type gdal_no_data_value{static_cast<value_type>(
-        band->GetNoDataValue(&has_no_data))};
+    double const gdal_no_data_value{band->GetNoDataValue(&has_no_data)};
 
     // If the raster dataset contains a special no-data value,
     // then mark those special values as no-data values.
@@ -92,7 +130,7 @@ inline void read(
             index_ = index(destination, i, 0);
 
             for(size_t j = 0; j < size(destination, 1); ++j) {
-                if(get(destination, index_) == gdal_no_data_value) {
+                if(is_no_data(get(destination, index_), gdal_no_data_value)) {
                     output_no_data_policy.mark_as_no_data(index_);
                 }
 
-- 
2.43.0


From 9688b022ffa7b2f9a9a8ecdc9624c7400e03511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 42/97] fix: reading a NetCDF variable of another value type,
 or without a variable name, aborted

---
 source/fern/io/netcdf/coards/detail/read.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/fern/io/netcdf/coards/detail/read.h b/source/fern/io/netcdf/coards/detail/read.h
index d8dc702..a1be5e1 100644
--- a/source/fern/io/netcdf/coards/detail/read.h
+++ b/source/fern/io/netcdf/coards/detail/read.h
@@ -69,13 +69,14 @@ inline void read_coards(
 
 
     // Verify that the requested variable is in the dataset.
-    assert(data_name.data_pathname().names().size() == 1u);
-    std::string variable_name{data_name.data_pathname().names()[0]};
-    if(!contains_variable(handle, variable_name)) {
+    auto const names(data_name.data_pathname().names());
+    if(names.size() != 1u || !contains_variable(handle, names[0])) {
         throw IOError(pathname,
             Exception::messages().format_message(
-                MessageId::DOES_NOT_CONTAIN_VARIABLE, variable_name));
+                MessageId::DOES_NOT_CONTAIN_VARIABLE, names.size() == 1u
+                    ? names[0] : data_name.data_pathname().generic_string()));
     }
+    std::string variable_name{names[0]};
 
 
     // Verify that the requested variable is a scalar.
@@ -90,7 +91,16 @@ inline void read_coards(
     // Verify that the requested variable has the same value type as the
     // variable passed in.
     ValueType value_type = netcdf::value_type_id(handle, variable_id);
-    assert(fern::value_type_id<fern::value_type<Destination>>() == value_type);
+    if(fern::value_type_id<fern::value_type<Destination>>() != value_type) {
+        nc_type type_id;
+        char type_name[NC_MAX_NAME + 1] = "";
+        nc_inq_vartype(handle.ncid(), variable_id, &type_id);
+        nc_inq_type(handle.ncid(), type_id, type_name, nullptr);
+
+        throw IOError(pathname,
+            Exception::messages().format_message(
+                MessageId::UNSUPPORTED_VALUE_TYPE, variable_name, type_name));
+    }
 
 
     // Read the variable.
-- 
2.43.0


From e9407d65fad5f8e28dd95bac495afa84c374e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 43/97] fix: NetCDF attributes ending with a null character, or
 that are not text, aborted

---
 source/fern/io/netcdf/core/attribute.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/fern/io/netcdf/core/attribute.cc b/source/fern/io/netcdf/core/attribute.cc
index 6bb0300..b2c607c 100644
--- a/source/fern/io/netcdf/core/attribute.cc
+++ b/source/fern/io/netcdf/core/attribute.cc
@@ -34,7 +34,12 @@ std::string attribute(
         buffer.data());
 
     assert(status == NC_NOERR);
-    assert(buffer.empty() || buffer.back() != '\0');
+
+    // The null character terminating a string is not part of the value. Not
+    // all applications leave it out when writing attributes.
+    while(!buffer.empty() && buffer.back() == '\0') {
+        buffer.pop_back();
+    }
 
     return std::string(buffer.begin(), buffer.end());
 }
@@ -67,7 +72,7 @@ bool has_attribute(
                 collection of strings.
 
     If the dataset does not contain an global attribute called 'Convensions',
-    then an empty collection is returned.
+    or if it is not a textual attribute, then an empty collection is returned.
 
     The value of the conventions attribute is a whitespace or comma
     separated list of convention names. If a comma is found in the attribute
@@ -83,7 +88,13 @@ std::vector<std::string> conventions(
 {
     std::vector<std::string> values;
 
-    if(has_attribute(dataset, "Conventions")) {
+    nc_type type_id;
+    int status = nc_inq_atttype(dataset.ncid(), NC_GLOBAL, "Conventions",
+        &type_id);
+
+    assert(status != NC_EBADID);
+
+    if(status == NC_NOERR && type_id == NC_CHAR) {
 
         // Get the attribute value as a string.
         std::string value{attribute<std::string>(dataset, "Conventions")};
-- 
2.43.0


From da52ed1a4130410d4a86509d7c93b4a59755ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 44/97] fix: parsing an XML document of another kind raised an
 undocumented exception

---
 source/fern/io/xml/parse.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/fern/io/xml/parse.h b/source/fern/io/xml/parse.h
index 8e477db..67ea5dd 100644
--- a/source/fern/io/xml/parse.h
+++ b/source/fern/io/xml/parse.h
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include <fstream>
+#include <sstream>
 #include <fern/core/io_error.h>
 #include <fern/core/parse_error.h>
 #include <fern/io/core/file.h>
@@ -64,6 +65,14 @@ inline auto parse(
             exception.diagnostics()[0].column(),
             exception.diagnostics()[0].message());
     }
+    catch(xml_schema::exception const& exception) {
+        // The document is valid, but it is not the kind of document the parser
+        // expects. The location is unknown.
+        std::ostringstream message;
+        message << exception;
+
+        throw ParseError(pathname, 0, 0, message.str());
+    }
 
 
     assert(document);
-- 
2.43.0


From f593b3df820ff848c51a1d8d843560090861b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 45/97] fix: nested subscript and attribute expressions aborted
 the syntax-tree reader

---
 source/fern/language/ast/xml/xml_parser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index fd29651..930343d 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -892,7 +892,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         if(!_data_stack.top().expression) {
             _data_stack.top().expression = vertex;
         }
@@ -939,7 +939,7 @@ public:
     void Expression(
         std::shared_ptr<ExpressionVertex> const& vertex)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(!_data_stack.top().expression);
         _data_stack.top().expression = vertex;
     }
@@ -947,14 +947,14 @@ public:
     void Name(
         std::string const& name)
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         assert(_data_stack.top().member_name.empty());
         _data_stack.top().member_name = name;
     }
 
     std::shared_ptr<ExpressionVertex> post_Attribute()
     {
-        assert(_data_stack.size() == 1);
+        assert(!_data_stack.empty());
         AttributeData result(_data_stack.top());
         _data_stack.pop();
         return std::shared_ptr<AttributeVertex>(
-- 
2.43.0


From 1efb99f252870927efd5718e3478d5363c650ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 46/97] fix: literals whose size or value is not supported
 aborted or were silently changed

---
 source/fern/language/ast/xml/xml_parser.cc | 73 ++++++++++++++--------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 930343d..779cc21 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/ast/xml/xml_parser.h"
+#include <limits>
 #include <sstream>
 #include <stack>
 #include "fern/core/exception.h"
@@ -17,6 +18,39 @@
 namespace fern {
 namespace language {
 
+namespace {
+
+//! Reject the document being parsed because of a \a value that is not a \a type.
+void reject(
+    std::string const& type,
+    std::string const& value)
+{
+    throw xsd::cxx::parser::validating::invalid_value<char>(type, value);
+}
+
+
+//! Return a literal of type T, if \a value fits in T. Otherwise, reject it.
+template<
+    typename T,
+    typename U>
+std::shared_ptr<ExpressionVertex> number_vertex(
+    U value)
+{
+    // Infinities and nan fit in all floating point types.
+    bool const finite = value - value == U(0);
+
+    if(finite && (value < std::numeric_limits<T>::lowest() ||
+            value > std::numeric_limits<T>::max())) {
+        reject("number of " + std::to_string(8 * sizeof(T)) + " bits",
+            std::to_string(value));
+    }
+
+    return std::make_shared<NumberVertex<T>>(static_cast<T>(value));
+}
+
+} // Anonymous namespace
+
+
 class Fern_pimpl:
     public Fern_pskel
 {
@@ -561,28 +595,23 @@ public:
 
         switch(_size) {
             case 8: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int8_t>>(_value));
+                result = number_vertex<int8_t>(_value);
                 break;
             }
             case 16: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int16_t>>(_value));
+                result = number_vertex<int16_t>(_value);
                 break;
             }
             case 32: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int32_t>>(_value));
+                result = number_vertex<int32_t>(_value);
                 break;
             }
             case 64: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<int64_t>>(_value));
+                result = number_vertex<int64_t>(_value);
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
+                reject("size of integer", std::to_string(_size));
                 break;
             }
         }
@@ -629,28 +658,23 @@ public:
 
         switch(_size) {
             case 8: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint8_t>>(_value));
+                result = number_vertex<uint8_t>(_value);
                 break;
             }
             case 16: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint16_t>>(_value));
+                result = number_vertex<uint16_t>(_value);
                 break;
             }
             case 32: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint32_t>>(_value));
+                result = number_vertex<uint32_t>(_value);
                 break;
             }
             case 64: {
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<uint64_t>>(_value));
+                result = number_vertex<uint64_t>(_value);
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
+                reject("size of unsigned integer", std::to_string(_size));
                 break;
             }
         }
@@ -698,19 +722,16 @@ public:
         switch(_size) {
             case 32: {
                 assert(sizeof(float) == 4);
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<float>>(_value));
+                result = number_vertex<float>(_value);
                 break;
             }
             case 64: {
                 assert(sizeof(double) == 8);
-                result = std::shared_ptr<ExpressionVertex>(
-                    std::make_shared<NumberVertex<double>>(_value));
+                result = number_vertex<double>(_value);
                 break;
             }
             default: {
-                assert(false);
-                // TODO raise exception
+                reject("size of float", std::to_string(_size));
                 break;
             }
         }
-- 
2.43.0


From e715b0875c3ac43ff6458d7d1b999cbcbf038322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 47/97] fix: integer literals outside of the range of a 32 bit
 integer were rejected

---
 source/fern/language/ast/xml/syntax_tree.xsd |  2 +-
 source/fern/language/ast/xml/xml_parser.cc   | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/source/fern/language/ast/xml/syntax_tree.xsd b/source/fern/language/ast/xml/syntax_tree.xsd
index 9f90914..053504c 100644
--- a/source/fern/language/ast/xml/syntax_tree.xsd
+++ b/source/fern/language/ast/xml/syntax_tree.xsd
@@ -207,7 +207,7 @@
         type="xs:positiveInteger"/>
       <xs:element
         name="Value"
-        type="xs:int"/>
+        type="xs:long"/>
     </xs:sequence>
   </xs:complexType>
 
diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 779cc21..553280a 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -583,8 +583,7 @@ public:
     }
 
     void Value(
-        // TODO correct type? Should be larger than this (long long).
-        int value)
+        long long value)
     {
         _value = value;
     }
@@ -1123,22 +1122,17 @@ private:
 std::shared_ptr<ModuleVertex> XmlParser::parse(
     std::istream& stream) const
 {
-    // Python stores regular integers in a C long. Xsd doesn't have a long
-    // parser, but does have an int parser. Let's make sure a long is of the
-    // same size as an int. Xsd's long parser uses long long, which is good
-    // for Pythons long integer type.
-    // TODO Use long_p for integer parsing? int is too small I would think.
-    // assert(sizeof(int) == sizeof(long));
+    // Python stores regular integers in a C long. Xsd's long parser uses
+    // long long, which is also good for Pythons long integer type.
 
     xml_schema::positive_integer_pimpl positive_integer_p;
-    xml_schema::int_pimpl int_p;
     xml_schema::non_negative_integer_pimpl non_negative_integer_p;
     xml_schema::long_pimpl long_p;
     xml_schema::double_pimpl double_p;
     xml_schema::string_pimpl string_p;
 
     Integer_pimpl integer_p;
-    integer_p.parsers(positive_integer_p, int_p);
+    integer_p.parsers(positive_integer_p, long_p);
 
     UnsignedInteger_pimpl unsigned_integer_p;
     unsigned_integer_p.parsers(positive_integer_p, non_negative_integer_p);
-- 
2.43.0


From 7b0b7b5622055411bbbb0ccddd8ee1409071b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 48/97] fix: a syntax-tree document with an empty block of
 statements aborted

---
 source/fern/language/ast/xml/xml_parser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 553280a..671f2b0 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -185,7 +185,9 @@ public:
             const& statements)
     {
         if(!_data_stack.top().true_scope) {
-            assert(!statements.empty());
+            if(statements.empty()) {
+                reject("block of statements", "");
+            }
             assert(!_data_stack.top().false_scope);
             _data_stack.top().true_scope = std::make_shared<ScopeVertex>(
                 statements);
@@ -244,7 +246,9 @@ public:
             const& statements)
     {
         if(!_data_stack.top().true_scope) {
-            assert(!statements.empty());
+            if(statements.empty()) {
+                reject("block of statements", "");
+            }
             assert(!_data_stack.top().false_scope);
             _data_stack.top().true_scope = std::make_shared<ScopeVertex>(
                 statements);
@@ -311,7 +315,9 @@ public:
         std::vector<std::shared_ptr<StatementVertex>>
             const& statements)
     {
-        assert(!statements.empty());
+        if(statements.empty()) {
+            reject("block of statements", "");
+        }
         _data_stack.top().scope_vertex = std::make_shared<ScopeVertex>(
             statements);
     }
-- 
2.43.0


From 321551a2ec0eb230bf6ab0dddd05fc2ba21965f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 49/97] fix: a syntax-tree document with an unknown operator
 aborted

---
 source/fern/language/ast/core/operator_vertex.cc | 14 +++++++++++---
 source/fern/language/ast/core/operator_vertex.h  |  5 +++++
 source/fern/language/ast/xml/xml_parser.cc       |  3 +++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/core/operator_vertex.cc b/source/fern/language/ast/core/operator_vertex.cc
index 9732282..4797074 100644
--- a/source/fern/language/ast/core/operator_vertex.cc
+++ b/source/fern/language/ast/core/operator_vertex.cc
@@ -57,13 +57,21 @@ std::map<size_t, std::map<std::string, std::string>> operator_symbols = {
 };
 
 
+bool is_operator(
+    std::string const& name,
+    size_t nr_operands)
+{
+    auto const it = operator_symbols.find(nr_operands);
+    return it != operator_symbols.end() &&
+        it->second.find(name) != it->second.end();
+}
+
+
 std::string name_to_symbol(
     std::string const& name,
     size_t nr_operands)
 {
-    assert(operator_symbols.find(nr_operands) != operator_symbols.end());
-    assert(operator_symbols[nr_operands].find(name) !=
-        operator_symbols[nr_operands].end());
+    assert(is_operator(name, nr_operands));
     return operator_symbols[nr_operands][name];
 }
 
diff --git a/source/fern/language/ast/core/operator_vertex.h b/source/fern/language/ast/core/operator_vertex.h
index 89e93d9..6e0d8b8 100644
--- a/source/fern/language/ast/core/operator_vertex.h
+++ b/source/fern/language/ast/core/operator_vertex.h
@@ -51,5 +51,10 @@ private:
 
 };
 
+
+//! Return whether \a name is the name of an operator with \a nr_operands operands.
+bool               is_operator         (std::string const& name,
+                                        size_t nr_operands);
+
 } // namespace language
 } // namespace fern
diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 671f2b0..973f26c 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -883,6 +883,9 @@ public:
         assert(!_data_stack.empty());
         OperatorData result(_data_stack.top());
         _data_stack.pop();
+        if(!is_operator(result.name, result.expression_vertices.size())) {
+            reject("operator", result.name);
+        }
         return std::shared_ptr<OperatorVertex>(
             std::make_shared<OperatorVertex>(result.name,
                 result.expression_vertices));
-- 
2.43.0


From 12e516a1ca561d6d2b739be03e1fdbd3f3110b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 50/97] fix: out of range positions in a syntax-tree document
 were wrapped

---
 source/fern/language/ast/xml/xml_parser.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/xml/xml_parser.cc b/source/fern/language/ast/xml/xml_parser.cc
index 973f26c..c097e50 100644
--- a/source/fern/language/ast/xml/xml_parser.cc
+++ b/source/fern/language/ast/xml/xml_parser.cc
@@ -29,6 +29,19 @@ void reject(
 }
 
 
+//! Return line or column number \a value. Reject it if it is out of range.
+int position(
+    unsigned long long value)
+{
+    if(value > static_cast<unsigned long long>(
+            std::numeric_limits<int>::max())) {
+        reject("position", std::to_string(value));
+    }
+
+    return static_cast<int>(value);
+}
+
+
 //! Return a literal of type T, if \a value fits in T. Otherwise, reject it.
 template<
     typename T,
@@ -442,14 +455,14 @@ public:
         unsigned long long line)
     {
         assert(!_data_stack.empty());
-        _data_stack.top().line = line;
+        _data_stack.top().line = position(line);
     }
 
     void col(
         unsigned long long col)
     {
         assert(!_data_stack.empty());
-        _data_stack.top().col = col;
+        _data_stack.top().col = position(col);
     }
 
     void Expression(
@@ -1019,14 +1032,14 @@ public:
         unsigned long long line)
     {
         assert(!_data_stack.empty());
-        _data_stack.top().line = line;
+        _data_stack.top().line = position(line);
     }
 
     void col(
         unsigned long long col)
     {
         assert(!_data_stack.empty());
-        _data_stack.top().col = col;
+        _data_stack.top().col = position(col);
     }
 
     void Name(
-- 
2.43.0


From 4213e896f7a2ad1c74bf5812d6150e80a6ee1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 51/97] fix: the name of a literal of 8 bits was a character
 instead of its value

---
 source/fern/language/ast/core/number_vertex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/core/number_vertex.cc b/source/fern/language/ast/core/number_vertex.cc
index bc6dc14..e369743 100644
--- a/source/fern/language/ast/core/number_vertex.cc
+++ b/source/fern/language/ast/core/number_vertex.cc
@@ -17,7 +17,8 @@ template<typename T>
 NumberVertex<T>::NumberVertex(
     T value)
 
-    : ExpressionVertex((boost::format("%1%") % value).str()),
+    // Promote, because integers of 8 bits are formatted as characters.
+    : ExpressionVertex((boost::format("%1%") % +value).str()),
       _value(value)
 
 {
@@ -30,7 +31,7 @@ NumberVertex<T>::NumberVertex(
     int col_id,
     T value)
 
-    : ExpressionVertex(line_nr, col_id, (boost::format("%1%") % value).str()),
+    : ExpressionVertex(line_nr, col_id, (boost::format("%1%") % +value).str()),
       _value(value)
 
 {
-- 
2.43.0


From 2876cf74cceb2b25c7c73a48d94aa2c8081dbae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 52/97] fix: invalid values in an uncertainty document aborted

---
 .../language/io/uncertml2/uncertml2_parser.cc | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/uncertml2/uncertml2_parser.cc b/source/fern/language/io/uncertml2/uncertml2_parser.cc
index 4a71876..170ff4d 100644
--- a/source/fern/language/io/uncertml2/uncertml2_parser.cc
+++ b/source/fern/language/io/uncertml2/uncertml2_parser.cc
@@ -16,6 +16,15 @@
 namespace fern {
 namespace {
 
+//! Reject the document being parsed because of a \a value that is not a \a type.
+void reject(
+    std::string const& type,
+    std::string const& value)
+{
+    throw xsd::cxx::parser::validating::invalid_value<char>(type, value);
+}
+
+
 class NormalDistribution_pimpl:
     public uncertml2::NormalDistribution_pskel
 {
@@ -29,12 +38,18 @@ public:
     void mean(
         std::vector<double> const& values)
     {
+        if(values.size() != 1) {
+            reject("mean", std::to_string(values.size()) + " values");
+        }
         _means = values;
     }
 
     void variance(
         std::vector<double> const& values)
     {
+        if(values.size() != 1) {
+            reject("variance", std::to_string(values.size()) + " values");
+        }
         _variances = values;
     }
 
@@ -43,7 +58,6 @@ public:
     {
         assert(_means.size() == 1);
         assert(_variances.size() == 1);
-        assert(_variances[0] >= 0.0);
         return std::make_shared<fern::NormalDistribution<double>>(_means[0],
             std::sqrt(_variances[0]));
     }
@@ -106,7 +120,9 @@ public:
     void item(
         double value)
     {
-        assert(value > 0.0);
+        if(!(value > 0.0)) {
+            reject("positive real number", std::to_string(value));
+        }
         _values.emplace_back(value);
     }
 
-- 
2.43.0


From fab87bc93ccdd06db33441243fbd8f20f4937be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 53/97] fix: expressions nested more than eight times corrupted
 memory in the syntax-tree reader

---
 .../fern/language/ast/xml/syntax_tree.map.in  |  1 +
 source/fern/language/ast/xml/xsd_pod_stack.h  | 93 +++++++++++++++++++
 2 files changed, 94 insertions(+)
 create mode 100644 source/fern/language/ast/xml/xsd_pod_stack.h

diff --git a/source/fern/language/ast/xml/syntax_tree.map.in b/source/fern/language/ast/xml/syntax_tree.map.in
index 231ed10..f036f41 100644
--- a/source/fern/language/ast/xml/syntax_tree.map.in
+++ b/source/fern/language/ast/xml/syntax_tree.map.in
@@ -2,6 +2,7 @@ namespace http://www.geoneric.eu/fern
 {
     include <memory>;
     include "fern/language/ast/core/vertices.h";
+    include "fern/language/ast/xml/xsd_pod_stack.h";
 
     Fern             "std::shared_ptr<ModuleVertex>";
     Number           "std::shared_ptr<ExpressionVertex>";
diff --git a/source/fern/language/ast/xml/xsd_pod_stack.h b/source/fern/language/ast/xml/xsd_pod_stack.h
new file mode 100644
index 0000000..e3d1682
--- /dev/null
+++ b/source/fern/language/ast/xml/xsd_pod_stack.h
@@ -0,0 +1,93 @@
+// -----------------------------------------------------------------------------
+// Fern © Geoneric
+//
+// This file is part of Geoneric Fern which is available under the terms of
+// the GNU General Public License (GPL), version 2. If you do not want to
+// be bound by the terms of the GPL, you may purchase a proprietary license
+// from Geoneric (http://www.geoneric.eu/contact).
+// -----------------------------------------------------------------------------
+#pragma once
+#include <cstddef>
+#include <vector>
+#include <xsd/cxx/parser/validating/parser.hxx>
+
+
+/*!
+  The stack of validation states in the XSD runtime (4.0.0 and earlier) grows
+  too late: it writes beyond its buffer, and loses a state, once an element is
+  nested within itself more than eight times. This header is included by the
+  generated parser skeletons, before they use that stack, and makes them use a
+  correct one with the same interface.
+*/
+namespace xsd {
+namespace cxx {
+namespace parser {
+
+class fern_pod_stack
+{
+
+public:
+
+    fern_pod_stack(
+        std::size_t element_size,
+        void* first_element)
+
+        : _element_size(element_size),
+          _first(first_element),
+          _size(0)
+
+    {
+    }
+
+    void push()
+    {
+        // The first element is stored elsewhere.
+        if(_size++ > 0) {
+            _data.resize(_size * _element_size);
+        }
+    }
+
+    void pop()
+    {
+        --_size;
+    }
+
+    void* top()
+    {
+        return element(_size);
+    }
+
+    void* under_top()
+    {
+        return element(_size - 1);
+    }
+
+    std::size_t element_size() const
+    {
+        return _element_size;
+    }
+
+private:
+
+    void* element(
+        std::size_t nr)
+    {
+        return nr == 1 ? _first : _data.data() + (nr - 1) * _element_size;
+    }
+
+    std::size_t    _element_size;
+
+    void*          _first;
+
+    std::vector<char> _data;
+
+    std::size_t    _size;
+
+};
+
+} // namespace parser
+} // namespace cxx
+} // namespace xsd
+
+
+#define pod_stack fern_pod_stack
-- 
2.43.0


From 6529ad2689033eee3c3c2e1b79d4ab91c51abdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 54/97] fix: lax used values of cells that became no-data along
 the way, and lost no-data marked by value

---
 .../algorithm/algebra/vector/detail/lax.h     | 107 ++++++++----------
 1 file changed, 49 insertions(+), 58 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/lax.h b/source/fern/algorithm/algebra/vector/detail/lax.h
index 4127bc6..c6dfcb3 100644
--- a/source/fern/algorithm/algebra/vector/detail/lax.h
+++ b/source/fern/algorithm/algebra/vector/detail/lax.h
@@ -10,6 +10,10 @@
 #include "fern/core/assert.h"
 #include "fern/core/base_class.h"
 #include "fern/core/value_type.h"
+#include "fern/feature/core/data_customization_point/array.h"
+#include "fern/feature/core/mask.h"
+#include "fern/algorithm/core/mask_customization_point/array.h"
+#include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/convolution/convolve.h"
 #include "fern/algorithm/convolution/neighborhood/square_traits.h"
 #include "fern/algorithm/algebra/elementary/add.h"
@@ -77,7 +81,20 @@ struct Lax<
 
         // result = (1 - f) * value + f * convolution(value, kernel);
 
-        // result = convolve(value, kernel)
+        // The intermediate results, and a mask containing the no-data cells
+        // of the argument and the no-data cells generated along the way.
+        // The result passed in can't be used for this, since the output
+        // no-data policy may mark no-data in the result itself.
+        auto extents = fern::extents[size(value, 0)][size(value, 1)];
+        Array<Float, 2> averages(extents);
+        Array<Float, 2> multiplied_values(extents);
+        Mask<2> no_data(extents);
+
+        using INP = DetectNoDataByValue<Mask<2>>;
+        INP no_data_policy(no_data, true);
+        MarkNoDataByValue<Mask<2>> mark_no_data(no_data, true);
+
+        // averages = convolve(value, kernel)
         convolution::convolve<
             convolve::SkipNoData,
             convolve::DivideByWeights,
@@ -86,65 +103,39 @@ struct Lax<
             // TODO: Select OutOfRange policy based on the
             //       output-no-data-policy passed in.
             convolve::OutOfRangePolicy>(
-                input_no_data_policy, output_no_data_policy, execution_policy,
-                value, kernel, result);
-
-        // result = f * result
-        {
-            // TODO Tricky, we should use an input no-data policy that can
-            //      detect the no-data in the temp result of the convolve.
-            //      Like it is now, we won't detect generated no-data, but
-            //      only no-data in the origin value passed in. Update INP2.
-            //      Given a type, we need to be able to create an
-            //      input-no-data policy.
-            using INP1 = SkipNoData;
-            using INP2 = decltype(std::get<0>(input_no_data_policy));
-
-            InputNoDataPolicies<INP1, INP2> input_no_data_policy_{{},
-                {std::get<0>(input_no_data_policy)}};
-
-            algebra::multiply<
-                // TODO: Select OutOfRange policy based on the
-                //       output-no-data-policy passed in.
-                algorithm::multiply::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy,
-                    execution_policy, fraction, result, result);
-        }
+                input_no_data_policy, mark_no_data, execution_policy,
+                value, kernel, averages);
+
+        InputNoDataPolicies<SkipNoData, INP> multiply_no_data_policies{{},
+            no_data_policy};
+
+        // averages = f * averages
+        algebra::multiply<
+            // TODO: Select OutOfRange policy based on the
+            //       output-no-data-policy passed in.
+            algorithm::multiply::OutOfRangePolicy>(
+                multiply_no_data_policies, mark_no_data,
+                execution_policy, fraction, averages, averages);
 
         // tmp = (1.0 - f) * value
-        auto multiplied_values = clone<Float>(result);
-        {
-            using INP1 = SkipNoData;
-            using INP2 = decltype(std::get<0>(input_no_data_policy));
-
-            InputNoDataPolicies<INP1, INP2> input_no_data_policy_{{},
-                {std::get<0>(input_no_data_policy)}};
-
-            algebra::multiply<
-                // TODO: Select OutOfRange policy based on the
-                //       output-no-data-policy passed in.
-                algorithm::multiply::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy,
-                    execution_policy, Float(1) - fraction, value,
-                    multiplied_values);
-        }
-
-        // result = tmp + result
-        {
-            // TODO See comment above.
-            using INP1 = SkipNoData;
-            using INP2 = decltype(std::get<0>(input_no_data_policy));
-
-            InputNoDataPolicies<INP1, INP2> input_no_data_policy_{{},
-                {std::get<0>(input_no_data_policy)}};
-
-            algebra::add<
-                // TODO: Select OutOfRange policy based on the
-                //       output-no-data-policy passed in.
-                algorithm::add::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy,
-                    execution_policy, multiplied_values, result, result);
-        }
+        algebra::multiply<
+            // TODO: Select OutOfRange policy based on the
+            //       output-no-data-policy passed in.
+            algorithm::multiply::OutOfRangePolicy>(
+                multiply_no_data_policies, mark_no_data,
+                execution_policy, Float(1) - fraction, value,
+                multiplied_values);
+
+        // result = tmp + averages
+        InputNoDataPolicies<INP, INP> add_no_data_policies{no_data_policy,
+            no_data_policy};
+
+        algebra::add<
+            // TODO: Select OutOfRange policy based on the
+            //       output-no-data-policy passed in.
+            algorithm::add::OutOfRangePolicy>(
+                add_no_data_policies, output_no_data_policy,
+                execution_policy, multiplied_values, averages, result);
     }
 
 };
-- 
2.43.0


From 41b01dc637e708f813fbe418164e637138cb7c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 55/97] fix: slope and laplacian lost no-data marked by value
 in the result

---
 .../algebra/vector/detail/laplacian.h         | 100 +++++-------
 .../fern/algorithm/space/focal/detail/slope.h | 152 +++++++-----------
 2 files changed, 97 insertions(+), 155 deletions(-)

diff --git a/source/fern/algorithm/algebra/vector/detail/laplacian.h b/source/fern/algorithm/algebra/vector/detail/laplacian.h
index c0c4ce6..3f89fd6 100644
--- a/source/fern/algorithm/algebra/vector/detail/laplacian.h
+++ b/source/fern/algorithm/algebra/vector/detail/laplacian.h
@@ -11,9 +11,12 @@
 #include "fern/core/assert.h"
 #include "fern/core/value_type.h"
 #include "fern/feature/core/data_customization_point/array.h"
+#include "fern/feature/core/mask.h"
 #include "fern/algorithm/core/argument_customization_point.h"
 #include "fern/algorithm/core/argument_traits.h"
 #include "fern/algorithm/core/cast.h"
+#include "fern/algorithm/core/mask_customization_point/array.h"
+#include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/convolution/convolve.h"
 #include "fern/algorithm/convolution/dont_divide_by_weights.h"
 #include "fern/algorithm/convolution/neighborhood/square_traits.h"
@@ -91,19 +94,32 @@ struct Laplacian<
             {2, 3, 2}
         });
 
+        auto extents = fern::extents[size(value, 0)][size(value, 1)];
+
+        // The intermediate results, and a mask containing the no-data cells
+        // of the argument and the no-data cells generated along the way.
+        // The result passed in can't be used for this, since the output
+        // no-data policy doesn't have to mark no-data in the result's mask.
+        Array<Float, 2> convolved_values(extents);
+        Array<Float, 2> multiplied_values(extents);
+        Mask<2> no_data(extents);
+
+        using INP = DetectNoDataByValue<Mask<2>>;
+        INP no_data_policy(no_data, true);
+        MarkNoDataByValue<Mask<2>> mark_no_data(no_data, true);
+
         convolution::convolve<
             convolve::SkipNoData,
             convolve::DontDivideByWeights,
             convolve::SkipOutOfImage,
             convolve::KeepNoDataFocusElement,
             convolve::OutOfRangePolicy>(
-                input_no_data_policy, output_no_data_policy, execution_policy,
-                value, kernel, result);
+                input_no_data_policy, mark_no_data, execution_policy,
+                value, kernel, convolved_values);
 
         // Calculate the sum of the kernel weights. This equals the
         // convolution of the mask (inverted) by the kernel used above,
         // without normalizing by the kernel weights.
-        auto extents = fern::extents[size(value, 0)][size(value, 1)];
 
         // Determine which cells have a valid (non-no-data) value. The result
         // will not contain no-data. All elements have a valid value (true or
@@ -125,7 +141,7 @@ struct Laplacian<
             convolve::SkipOutOfImage,
             convolve::KeepNoDataFocusElement,
             unary::DiscardRangeErrors>(
-                input_no_data_policy, output_no_data_policy, execution_policy,
+                input_no_data_policy, mark_no_data, execution_policy,
                 defined_as_floats, kernel, sum_of_weights);
 
 #ifndef NDEBUG
@@ -136,66 +152,32 @@ struct Laplacian<
         }
 #endif
 
-        // Multiply the values by the sum of weights.
-        auto multiplied_values = clone<Float>(result);
-
-        using MultipliedValues = decltype(multiplied_values);
-
-        {
-            using INP1 = SkipNoData;
-            using INP2 = decltype(std::get<0>(input_no_data_policy));
-
-            InputNoDataPolicies<INP1, INP2> input_no_data_policy_{
-                {}, {std::get<0>(input_no_data_policy)}};
-
-            using OutputNoDataPolicyMultipliedValues =
-                OutputNoDataPolicyTemporary<OutputNoDataPolicy,
-                    MultipliedValues>;
-
-            OutputNoDataPolicyMultipliedValues output_no_data_policy_{
-                mask(multiplied_values)};
+        InputNoDataPolicies<INP, INP> no_data_policies{no_data_policy,
+            no_data_policy};
 
-            algebra::multiply<
-                algorithm::multiply::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy_,
-                    execution_policy, sum_of_weights, value, multiplied_values);
-        }
+        // Multiply the values by the sum of weights.
+        algebra::multiply<
+            algorithm::multiply::OutOfRangePolicy>(
+                no_data_policies, mark_no_data, execution_policy,
+                sum_of_weights, value, multiplied_values);
 
         // Subtract the convolution result by the multiplied values.
-        // Result subtracted_results;
-        {
-            // Base INP1 on result.
-            // Base INP2 on multiplied_values.
-            using INP1 = InputNoDataPolicyTemporary<InputNoDataPolicy, Result>;
-            using INP2 = InputNoDataPolicyTemporary<InputNoDataPolicy,
-                MultipliedValues>;
-
-            InputNoDataPolicies<INP1, INP2> input_no_data_policy_{
-                {mask(result)}, {mask(multiplied_values)}};
-
-            algebra::subtract<
-                algorithm::subtract::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy,
-                    execution_policy, result, multiplied_values, result);
-        }
+        algebra::subtract<
+            algorithm::subtract::OutOfRangePolicy>(
+                no_data_policies, mark_no_data, execution_policy,
+                convolved_values, multiplied_values, convolved_values);
 
         // Divide subtracted results by the area of the cells.
-        {
-            // Base INP1 on result.
-            using INP1 = InputNoDataPolicyTemporary<InputNoDataPolicy, Result>;
-            using INP2 = SkipNoData;
-
-            InputNoDataPolicies<INP1, INP2> input_no_data_policy_{
-                {mask(result)}, {}};
-
-            algebra::divide<
-                // Cheap, number as denomenator.
-                divide::OutOfDomainPolicy,
-                divide::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy,
-                    execution_policy, result,
-                    static_cast<Float>(cell_area(value)), result);
-        }
+        InputNoDataPolicies<INP, SkipNoData> divide_no_data_policies{
+            no_data_policy, {}};
+
+        algebra::divide<
+            // Cheap, number as denomenator.
+            divide::OutOfDomainPolicy,
+            divide::OutOfRangePolicy>(
+                divide_no_data_policies, output_no_data_policy,
+                execution_policy, convolved_values,
+                static_cast<Float>(cell_area(value)), result);
     }
 
 };
diff --git a/source/fern/algorithm/space/focal/detail/slope.h b/source/fern/algorithm/space/focal/detail/slope.h
index cdd4b72..48e28be 100644
--- a/source/fern/algorithm/space/focal/detail/slope.h
+++ b/source/fern/algorithm/space/focal/detail/slope.h
@@ -12,11 +12,15 @@
 #include "fern/core/assert.h"
 #include "fern/core/value_type.h"
 #include "fern/core/data_customization_point/scalar.h"
+#include "fern/feature/core/data_customization_point/array.h"
+#include "fern/feature/core/mask.h"
 #include "fern/algorithm/convolution/neighborhood/square_traits.h"
 #include "fern/algorithm/algebra/elementary.h"
 #include "fern/algorithm/convolution/convolve.h"
 #include "fern/algorithm/convolution/policies.h"
 #include "fern/algorithm/core/argument_traits.h"
+#include "fern/algorithm/core/mask_customization_point/array.h"
+#include "fern/algorithm/policy/policies.h"
 
 
 namespace fern {
@@ -91,13 +95,24 @@ struct Slope<
             {1, 2, 1}
         });
 
-        auto dz_dx(clone<Float>(value));
-
-        using DzDx = decltype(dz_dx);
-        using OutputNoDataPolicyDzDx = OutputNoDataPolicyTemporary<
-            OutputNoDataPolicy, DzDx>;
-
-        OutputNoDataPolicyDzDx output_no_data_policy_dz_dx{mask(dz_dx)};
+        // The intermediate results, and a mask containing the no-data cells
+        // of the argument and the no-data cells generated along the way.
+        // The result passed in can't be used for this, since the output
+        // no-data policy doesn't have to mark no-data in the result's mask.
+        auto extents = fern::extents[size(value, 0)][size(value, 1)];
+        Array<Float, 2> dz_dx(extents);
+        Array<Float, 2> dz_dy(extents);
+        Mask<2> no_data(extents);
+
+        using INP = DetectNoDataByValue<Mask<2>>;
+        INP no_data_policy(no_data, true);
+        MarkNoDataByValue<Mask<2>> mark_no_data(no_data, true);
+
+        InputNoDataPolicies<INP> unary_no_data_policies{no_data_policy};
+        InputNoDataPolicies<INP, SkipNoData> constant_no_data_policies{
+            no_data_policy, {}};
+        InputNoDataPolicies<INP, INP> binary_no_data_policies{no_data_policy,
+            no_data_policy};
 
         convolution::convolve<
             convolve::ReplaceNoDataByFocalAverage,
@@ -105,33 +120,14 @@ struct Slope<
             convolve::ReplaceOutOfImageByFocalAverage,
             convolve::KeepNoDataFocusElement,
             convolve::OutOfRangePolicy>(
-                input_no_data_policy, output_no_data_policy_dz_dx,
+                input_no_data_policy, mark_no_data,
                 execution_policy, value, dz_dx_kernel, dz_dx);
 
-        using InputNoDataPolicyDzDx = InputNoDataPolicyTemporary<
-            InputNoDataPolicy, DzDx>;
-
-        InputNoDataPolicyDzDx input_no_data_policy_dz_dx{mask(dz_dx)};
-
-        {
-            InputNoDataPolicies<InputNoDataPolicyDzDx, SkipNoData>
-                input_no_data_policy_{input_no_data_policy_dz_dx, {}};
-
-            algebra::divide<
-                divide::OutOfDomainPolicy,  // Cheap, number as denomenator.
-                divide::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy_dz_dx,
-                    execution_policy, dz_dx, static_cast<Float>(8 *
-                        cell_size(value, 0)), dz_dx);
-        }
-
-        auto dz_dy(clone<Float>(value));
-
-        using DzDy = decltype(dz_dy);
-        using OutputNoDataPolicyDzDy = OutputNoDataPolicyTemporary<
-            OutputNoDataPolicy, DzDy>;
-
-        OutputNoDataPolicyDzDy output_no_data_policy_dz_dy{mask(dz_dy)};
+        algebra::divide<
+            divide::OutOfDomainPolicy,  // Cheap, number as denomenator.
+            divide::OutOfRangePolicy>(
+                constant_no_data_policies, mark_no_data, execution_policy,
+                dz_dx, static_cast<Float>(8 * cell_size(value, 0)), dz_dx);
 
         convolution::convolve<
             convolve::ReplaceNoDataByFocalAverage,
@@ -139,72 +135,36 @@ struct Slope<
             convolve::ReplaceOutOfImageByFocalAverage,
             convolve::KeepNoDataFocusElement,
             convolve::OutOfRangePolicy>(
-                input_no_data_policy, output_no_data_policy_dz_dy,
+                input_no_data_policy, mark_no_data,
                 execution_policy, value, dz_dy_kernel, dz_dy);
 
-        using InputNoDataPolicyDzDy = InputNoDataPolicyTemporary<
-            InputNoDataPolicy, DzDy>;
-
-        InputNoDataPolicyDzDy input_no_data_policy_dz_dy{mask(dz_dy)};
-
-        {
-            InputNoDataPolicies<InputNoDataPolicyDzDy, SkipNoData>
-                input_no_data_policy_{input_no_data_policy_dz_dy, {}};
-
-            algebra::divide<
-                divide::OutOfDomainPolicy,  // Cheap, number as denomenator.
-                divide::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy_dz_dy,
-                    execution_policy, dz_dy, static_cast<Float>(8 *
-                        cell_size(value, 1)), dz_dy);
-        }
-
-        {
-            InputNoDataPolicies<InputNoDataPolicyDzDx, SkipNoData>
-                input_no_data_policy_{input_no_data_policy_dz_dx, {}};
-
-            algebra::pow<
-                binary::DiscardDomainErrors,  // Never a domain error.
-                pow::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy_dz_dx,
-                    execution_policy, dz_dx, Float(2), dz_dx);
-        }
-
-        {
-            InputNoDataPolicies<InputNoDataPolicyDzDy, SkipNoData>
-                input_no_data_policy_{input_no_data_policy_dz_dy, {}};
-
-            algebra::pow<
-                binary::DiscardDomainErrors,  // Never a domain error.
-                pow::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy_dz_dy,
-                    execution_policy, dz_dy, Float(2), dz_dy);
-        }
-
-        {
-            InputNoDataPolicies<InputNoDataPolicyDzDx, InputNoDataPolicyDzDy>
-                input_no_data_policy_{input_no_data_policy_dz_dx,
-                    input_no_data_policy_dz_dy};
-
-            algebra::add<
-                add::OutOfRangePolicy>(
-                    input_no_data_policy_, output_no_data_policy,
-                    execution_policy, dz_dx, dz_dy, result);
-        }
-
-        {
-            using InputNoDataPolicyResult = InputNoDataPolicyTemporary<
-                InputNoDataPolicy, Result>;
-
-            InputNoDataPolicyResult input_no_data_policy_result{mask(result)};
-            InputNoDataPolicies<InputNoDataPolicyResult>
-                input_no_data_policy_{input_no_data_policy_result};
-
-            algebra::sqrt<
-                unary::DiscardDomainErrors>(  // Argument >= 0.
-                input_no_data_policy_, output_no_data_policy, execution_policy,
-                result, result);
-        }
+        algebra::divide<
+            divide::OutOfDomainPolicy,  // Cheap, number as denomenator.
+            divide::OutOfRangePolicy>(
+                constant_no_data_policies, mark_no_data, execution_policy,
+                dz_dy, static_cast<Float>(8 * cell_size(value, 1)), dz_dy);
+
+        algebra::pow<
+            binary::DiscardDomainErrors,  // Never a domain error.
+            pow::OutOfRangePolicy>(
+                constant_no_data_policies, mark_no_data, execution_policy,
+                dz_dx, Float(2), dz_dx);
+
+        algebra::pow<
+            binary::DiscardDomainErrors,  // Never a domain error.
+            pow::OutOfRangePolicy>(
+                constant_no_data_policies, mark_no_data, execution_policy,
+                dz_dy, Float(2), dz_dy);
+
+        algebra::add<
+            add::OutOfRangePolicy>(
+                binary_no_data_policies, mark_no_data, execution_policy,
+                dz_dx, dz_dy, dz_dx);
+
+        algebra::sqrt<
+            unary::DiscardDomainErrors>(  // Argument >= 0.
+                unary_no_data_policies, output_no_data_policy,
+                execution_policy, dz_dx, result);
     }
 
 };
-- 
2.43.0


From ef6c74a680f280661cf4e0411b9c0f5d4ec5cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 56/97] fix: outputs of a module got lost or misplaced when
 redefined, and were reported as inputs when used

---
 source/fern/language/ast/visitor/io_visitor.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/ast/visitor/io_visitor.cc b/source/fern/language/ast/visitor/io_visitor.cc
index 05b333a..d9d3769 100644
--- a/source/fern/language/ast/visitor/io_visitor.cc
+++ b/source/fern/language/ast/visitor/io_visitor.cc
@@ -62,7 +62,10 @@ void IOVisitor::Visit(
 {
     switch(_mode) {
         case Mode::Using: {
-            if(std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
+            // Identifiers that are already defined are not inputs.
+            if(_output_id_by_name.find(vertex.name()) ==
+                    _output_id_by_name.end() &&
+                std::find(_inputs.begin(), _inputs.end(), vertex.name()) ==
                     _inputs.end()) {
                 _inputs.emplace_back(vertex.name());
             }
@@ -74,8 +77,15 @@ void IOVisitor::Visit(
                     _output_id_by_name.end()) {
                 // This identifier is already stored as a result.
                 // Remove it first. We want to store this latter occurence.
-                _outputs.erase(_outputs.begin() + _output_id_by_name[
-                    vertex.name()]);
+                size_t const output_id = _output_id_by_name[vertex.name()];
+                _outputs.erase(_outputs.begin() + output_id);
+
+                // The outputs stored after it have moved.
+                for(auto& pair: _output_id_by_name) {
+                    if(pair.second > output_id) {
+                        --pair.second;
+                    }
+                }
             }
 
             _output_id_by_name[vertex.name()] = _outputs.size();
-- 
2.43.0


From 7f93faa1aea88f89d32ee1d89f5941fd73a4e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 57/97] fix: result types were asked for with the argument
 types in reversed order

---
 source/fern/language/ast/visitor/annotate_visitor.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 1679cef..88255ac 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -149,11 +149,12 @@ void AnnotateVisitor::Visit(
     AstVisitor::Visit(vertex);
 
 
-    // Get the result types from all argument expressions provided.
-    std::vector<ExpressionType> argument_types;
-    for(size_t i = 0; i < vertex.expressions().size(); ++i) {
+    // Get the result types from all argument expressions provided. The type
+    // of the last argument is on top of the stack.
+    std::vector<ExpressionType> argument_types(vertex.expressions().size());
+    for(size_t i = argument_types.size(); i > 0; --i) {
         assert(!_stack.empty());
-        argument_types.emplace_back(_stack.top());
+        argument_types[i - 1] = _stack.top();
         _stack.pop();
     }
 
-- 
2.43.0


From f558a3c184467387c9bb7901a3f566d616d23527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 58/97] fix: int8 and uint8 numbers were written as characters

---
 source/fern/language/ast/visitor/module_visitor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/module_visitor.cc b/source/fern/language/ast/visitor/module_visitor.cc
index 28aa825..98bca80 100644
--- a/source/fern/language/ast/visitor/module_visitor.cc
+++ b/source/fern/language/ast/visitor/module_visitor.cc
@@ -182,7 +182,9 @@ void ModuleVisitor::Visit(
 void ModuleVisitor::Visit(
     NumberVertex<int8_t>& vertex)
 {
-    _module += (boost::format("%1%") % vertex.value()).str();
+    // The value is a number, not a character.
+    _module += (boost::format("%1%") % static_cast<int>(
+        vertex.value())).str();
 }
 
 
@@ -213,7 +215,9 @@ void ModuleVisitor::Visit(
     NumberVertex<uint8_t>& vertex)
 {
     // U?
-    _module += (boost::format("%1%U") % vertex.value()).str();
+    // The value is a number, not a character.
+    _module += (boost::format("%1%U") % static_cast<int>(
+        vertex.value())).str();
 }
 
 
-- 
2.43.0


From 780272ed2c6588ba2b7581a0b6b57a1c8b7f60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 59/97] fix: threading aborted on a return in a nested scope,
 or a function definition after a return

---
 .../language/ast/visitor/thread_visitor.cc    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/fern/language/ast/visitor/thread_visitor.cc b/source/fern/language/ast/visitor/thread_visitor.cc
index 5c32a66..f9e2a40 100644
--- a/source/fern/language/ast/visitor/thread_visitor.cc
+++ b/source/fern/language/ast/visitor/thread_visitor.cc
@@ -407,27 +407,28 @@ void ThreadVisitor::Visit(
 
         for(auto statementVertex: vertex.statements()) {
             statementVertex->Accept(*this);
-            assert(_last_vertex);
-            // Iff the last vertex' successor is the sentinel of this scope,
-            // then the last statement was the return statement, which
-            // explicitly connected to the sentinel. In that case we reset
+            // Iff the last vertex has a successor already, then the last
+            // statement was the return statement, which explicitly
+            // connected to the sentinel of the function. This scope can be
+            // the function's scope or one nested in it. In that case we reset
             // the _last_vertex pointer to null. Subsequent statements are
             // threaded but they are not connected to the control flow graph.
             // This is the reason that leave vertices (expressions,
             // return statement) have to test whether _last_vertex is not
             // null before attaching (they call thread_to(AstVertex)).
-            if(_last_vertex->has_successor()) {
-                assert(_last_vertex->successor() == &*vertex.sentinel());
+            // A function definition doesn't attach.
+            if(_last_vertex && _last_vertex->has_successor()) {
+                assert(!_function_definitions.empty());
+                assert(_last_vertex->successor() ==
+                    &*_function_definitions.top()->scope()->sentinel());
                 _last_vertex = nullptr;
             }
         }
 
-        // If _last_vertex is the null vertex, then the last statement was
-        // a return statement which is already connected to the sentinel
-        // vertex. Otherwise, just visit the sentinel vertex.
+        // If _last_vertex is the null vertex, then the end of this scope
+        // cannot be reached: a return statement connected to the sentinel
+        // vertex of the function. Otherwise, just visit the sentinel vertex.
         if(!_last_vertex) {
-            assert(vertex.statements().back()->successor() ==
-                &*vertex.sentinel());
             _last_vertex = &*vertex.sentinel();
         }
         else {
-- 
2.43.0


From 62ddca2e5adbe04ccbb46957ec740fb30f4357bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 60/97] fix: count the attributes of the feature addressed, not
 of its parent

---
 source/fern/language/feature/core/feature.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 1c6f331..3a3c9c8 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -136,7 +136,9 @@ size_t Feature::nr_attributes() const
 size_t Feature::nr_attributes(
     Path const& path) const
 {
-    return parent_feature(path)->nr_attributes();
+    assert(contains_feature(path));
+
+    return feature(path)->nr_attributes();
 }
 
 
-- 
2.43.0


From a57d09d1b3a07178294bda3c9a057942ed48930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 61/97] fix: tell that a nested attribute is absent instead of
 failing

---
 source/fern/language/feature/core/feature.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index 3a3c9c8..cbe859b 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -167,10 +167,20 @@ std::vector<std::string> Feature::attribute_names() const
 bool Feature::contains_attribute(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _attributes.find(path.generic_string()) != _attributes.end()
-        : static_cast<bool>(attribute(path))
-        ;
+    if(path.names().empty()) {
+        return false;
+    }
+
+    Feature const* feature = this;
+    std::shared_ptr<Feature> parent;
+
+    if(path.names().size() > 1) {
+        parent = this->feature(path.parent_path());
+        feature = parent.get();
+    }
+
+    return feature && feature->_attributes.find(
+        path.filename().generic_string()) != feature->_attributes.end();
 }
 
 
-- 
2.43.0


From 6a35d3f6fc4e3f0d19a8584aaa8fd2ac1d270c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 62/97] fix: address children of a feature by an absolute path

---
 source/fern/language/feature/core/feature.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/feature/core/feature.cc b/source/fern/language/feature/core/feature.cc
index cbe859b..5e762bb 100644
--- a/source/fern/language/feature/core/feature.cc
+++ b/source/fern/language/feature/core/feature.cc
@@ -56,10 +56,7 @@ std::vector<std::string> Feature::feature_names() const
 bool Feature::contains_feature(
     Path const& path) const
 {
-    return path.parent_path().generic_string().empty()
-        ? _features.find(path.generic_string()) != _features.end()
-        : static_cast<bool>(feature(path))
-        ;
+    return static_cast<bool>(feature(path));
 }
 
 
@@ -224,9 +221,9 @@ std::shared_ptr<Attribute> Feature::attribute(
 Feature* Feature::parent_feature(
     Path const& path)
 {
-    assert(path.parent_path().generic_string().empty() ||
+    assert(path.parent_path().names().empty() ||
         contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
+    return path.parent_path().names().empty()
         ? this : feature(path.parent_path()).get();
 }
 
@@ -234,9 +231,9 @@ Feature* Feature::parent_feature(
 Feature const* Feature::parent_feature(
     Path const& path) const
 {
-    assert(path.parent_path().generic_string().empty() ||
+    assert(path.parent_path().names().empty() ||
         contains_feature(path.parent_path()));
-    return path.parent_path().generic_string().empty()
+    return path.parent_path().names().empty()
         ? this : feature(path.parent_path()).get();
 }
 
-- 
2.43.0


From d1cce8885a908e8611463bd7aef8b64801e8b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 63/97] fix: calculate the absolute value of unsigned values

---
 source/fern/language/operation/std/abs.cc | 24 +++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/operation/std/abs.cc b/source/fern/language/operation/std/abs.cc
index cb4d83c..6eefb16 100644
--- a/source/fern/language/operation/std/abs.cc
+++ b/source/fern/language/operation/std/abs.cc
@@ -7,6 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/operation/std/abs.h"
+#include <cmath>
+#include <cstdlib>
+#include <type_traits>
 #include "fern/core/value_type_traits.h"
 #include "fern/language/feature/core/attributes.h"
 #include "fern/language/operation/core/attribute_argument.h"
@@ -15,13 +18,30 @@
 
 namespace fern {
 namespace language {
+namespace {
+
+template<
+    typename T>
+T absolute_value(
+    T const& value)
+{
+    if constexpr(std::is_unsigned<T>::value) {
+        return value;
+    }
+    else {
+        return std::abs(value);
+    }
+}
+
+} // Anonymous namespace
+
 
 template<
     typename T>
 std::vector<std::shared_ptr<Argument>> abs(
         ConstantAttribute<T> const& attribute)
 {
-    T result = std::abs(attribute.values().value());
+    T result = absolute_value(attribute.values().value());
 
     return std::vector<std::shared_ptr<Argument>>({
         std::shared_ptr<Argument>(std::make_shared<AttributeArgument>(
@@ -50,7 +70,7 @@ std::vector<std::shared_ptr<Argument>> abs(
         for(size_t row = 0; row < source_array.shape()[0]; ++row) {
             for(size_t col = 0; col < source_array.shape()[1]; ++col) {
                 if(!source_array.mask()[row][col]) {
-                    destination_array[row][col] = std::abs(
+                    destination_array[row][col] = absolute_value(
                         source_array[row][col]);
                 }
             }
-- 
2.43.0


From 502e2a1bd20969a725a22f7bedf13b2ab5bb96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 64/97] fix: build the file queries with the file permissions
 of C++17

---
 source/fern/language/io/core/file.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/io/core/file.cc b/source/fern/language/io/core/file.cc
index 6794029..529e913 100644
--- a/source/fern/language/io/core/file.cc
+++ b/source/fern/language/io/core/file.cc
@@ -13,6 +13,18 @@
 
 namespace fern {
 namespace language {
+namespace {
+
+bool owner_can_write(
+    std::filesystem::file_status const& status)
+{
+    namespace fs = std::filesystem;
+
+    return (status.permissions() & fs::perms::owner_write) != fs::perms::none;
+}
+
+} // Anonymous namespace
+
 
 //! Return whether \a path points to a regular file or a symbolic link pointing to a regular file.
 /*!
@@ -57,7 +69,7 @@ bool file_is_writable(
         return false;
     }
 
-    if(fs::is_regular_file(status) && status.permissions() & fs::owner_write) {
+    if(fs::is_regular_file(status) && owner_can_write(status)) {
         return true;
     }
 
@@ -65,7 +77,7 @@ bool file_is_writable(
     status = fs::status(pathname);
 
     return fs::exists(status) && fs::is_regular_file(status) &&
-        status.permissions() & fs::owner_write;
+        owner_can_write(status);
 }
 
 
@@ -85,7 +97,7 @@ bool directory_is_writable(
         return false;
     }
 
-    if(fs::is_directory(status) && status.permissions() & fs::owner_write) {
+    if(fs::is_directory(status) && owner_can_write(status)) {
         return true;
     }
 
@@ -93,7 +105,7 @@ bool directory_is_writable(
     status = fs::status(pathname);
 
     return fs::exists(status) && fs::is_directory(status) &&
-        status.permissions() & fs::owner_write;
+        owner_can_write(status);
 }
 
 
-- 
2.43.0


From 294a5c22de6668fd32bc665587de28aa04d36cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 65/97] fix: open datasets with GDAL drivers without an open
 function

---
 source/fern/language/io/gdal/gdal_dataset.cc | 14 ++++++++------
 source/fern/language/io/gdal/gdal_driver.cc  | 12 ++++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index 7e66634..ba57dcf 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -26,9 +26,10 @@ namespace {
     GDALDriver const& driver,
     std::string const& name)
 {
-    GDALOpenInfo open_info(name.c_str(), GA_ReadOnly);
-    ::GDALDataset* dataset = static_cast<::GDALDataset*>(driver.pfnOpen(
-        &open_info));
+    char const* const drivers[] = { driver.GetDescription(), nullptr };
+    ::GDALDataset* dataset = static_cast<::GDALDataset*>(GDALOpenEx(
+        name.c_str(), GDAL_OF_RASTER | GDAL_OF_READONLY, drivers, nullptr,
+        nullptr));
 
     if(!dataset) {
         if(!file_exists(name)) {
@@ -49,9 +50,10 @@ namespace {
     GDALDriver const& driver,
     std::string const& name)
 {
-    GDALOpenInfo open_info(name.c_str(), GA_Update);
-    ::GDALDataset* dataset = static_cast<::GDALDataset*>(driver.pfnOpen(
-        &open_info));
+    char const* const drivers[] = { driver.GetDescription(), nullptr };
+    ::GDALDataset* dataset = static_cast<::GDALDataset*>(GDALOpenEx(
+        name.c_str(), GDAL_OF_RASTER | GDAL_OF_UPDATE, drivers, nullptr,
+        nullptr));
 
     if(!dataset) {
         if(!file_exists(name)) {
diff --git a/source/fern/language/io/gdal/gdal_driver.cc b/source/fern/language/io/gdal/gdal_driver.cc
index b4bc57c..a9f6f5d 100644
--- a/source/fern/language/io/gdal/gdal_driver.cc
+++ b/source/fern/language/io/gdal/gdal_driver.cc
@@ -78,8 +78,10 @@ bool GDALDriver::can_open(
 bool GDALDriver::can_open_for_read(
     std::string const& name)
 {
-    GDALOpenInfo open_info(name.c_str(), GA_ReadOnly);
-    GDALDatasetPtr dataset(_driver->pfnOpen(&open_info), deleter);
+    char const* const drivers[] = { _driver->GetDescription(), nullptr };
+    GDALDatasetPtr dataset(static_cast<::GDALDataset*>(GDALOpenEx(
+        name.c_str(), GDAL_OF_RASTER | GDAL_OF_READONLY, drivers, nullptr,
+        nullptr)), deleter);
     return static_cast<bool>(dataset);
 }
 
@@ -87,8 +89,10 @@ bool GDALDriver::can_open_for_read(
 bool GDALDriver::can_open_for_update(
     std::string const& name)
 {
-    GDALOpenInfo open_info(name.c_str(), GA_Update);
-    GDALDatasetPtr dataset(_driver->pfnOpen(&open_info), deleter);
+    char const* const drivers[] = { _driver->GetDescription(), nullptr };
+    GDALDatasetPtr dataset(static_cast<::GDALDataset*>(GDALOpenEx(
+        name.c_str(), GDAL_OF_RASTER | GDAL_OF_UPDATE, drivers, nullptr,
+        nullptr)), deleter);
     return static_cast<bool>(dataset);
 }
 
-- 
2.43.0


From 957479c14cc4cb81183a56727d04e098125efdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 66/97] fix: tell that a nested feature is absent from a Fern
 dataset

---
 source/fern/language/io/fern/hdf5_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/fern/hdf5_file.cc b/source/fern/language/io/fern/hdf5_file.cc
index 99617d5..9bc3993 100644
--- a/source/fern/language/io/fern/hdf5_file.cc
+++ b/source/fern/language/io/fern/hdf5_file.cc
@@ -72,7 +72,8 @@ bool HDF5File::is_group(
     assert(_file_id > 0);
     bool result = false;
 
-    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT)) {
+    // A negative value is returned if part of the path does not exist.
+    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT) > 0) {
         H5G_stat_t info;
 
         herr_t status = H5Gget_objinfo(_file_id, pathname.c_str(), 0, &info);
@@ -92,7 +93,8 @@ bool HDF5File::is_dataset(
     assert(_file_id > 0);
     bool result = false;
 
-    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT)) {
+    // A negative value is returned if part of the path does not exist.
+    if(H5Lexists(_file_id, pathname.c_str(), H5P_DEFAULT) > 0) {
         H5G_stat_t info;
 
         herr_t status = H5Gget_objinfo(_file_id, pathname.c_str(), 0, &info);
-- 
2.43.0


From 506e5a8ad43a79839f8d67d82edcc218bd39e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 67/97] fix: leave a dataset alone when asked whether it can be
 overwritten

---
 source/fern/language/io/fern/fern_driver.cc | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/source/fern/language/io/fern/fern_driver.cc b/source/fern/language/io/fern/fern_driver.cc
index 0728227..43ddc11 100644
--- a/source/fern/language/io/fern/fern_driver.cc
+++ b/source/fern/language/io/fern/fern_driver.cc
@@ -60,19 +60,10 @@ bool FernDriver::can_open_for_update(
 bool FernDriver::can_open_for_overwrite(
     std::string const& name)
 {
-    bool result = false;
-
-    try {
-        open_file(name, OpenMode::OVERWRITE);
-        result = true;
-    }
-    catch(...) {
-    }
-
-    return result;
-
-    // return (file_exists(name) && can_open_for_update(name)) ||
-    //     directory_is_writable(Path(name).parent_path());
+    // Don't open the file, since that would truncate it.
+    return file_exists(name)
+        ? file_is_writable(name)
+        : directory_is_writable(Path(name).parent_path());
 }
 
 
-- 
2.43.0


From d3be4948f291a0e50ab3e708b2e032779209bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 68/97] fix: close the data types of attributes in a Fern
 dataset

---
 source/fern/language/io/fern/fern_dataset.cc |  6 ++++++
 source/fern/language/io/fern/hdf5_dataset.cc | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/fern/language/io/fern/fern_dataset.cc b/source/fern/language/io/fern/fern_dataset.cc
index 57a67bf..e25f6ae 100644
--- a/source/fern/language/io/fern/fern_dataset.cc
+++ b/source/fern/language/io/fern/fern_dataset.cc
@@ -159,6 +159,9 @@ ValueType FernDataset::value_type(
         UNSUPPORTED_TYPE_CLASS_CASE(H5T_NCLASSES)
     }
 
+    herr_t const status = H5Tclose(type);
+    assert(status == 0);
+
     return result;
 }
 
@@ -404,6 +407,9 @@ ExpressionType FernDataset::expression_type(
         UNSUPPORTED_TYPE_CLASS_CASE(H5T_NCLASSES)
     }
 
+    herr_t const status = H5Tclose(type);
+    assert(status == 0);
+
     return result;
 }
 
diff --git a/source/fern/language/io/fern/hdf5_dataset.cc b/source/fern/language/io/fern/hdf5_dataset.cc
index ed013b3..f5b6331 100644
--- a/source/fern/language/io/fern/hdf5_dataset.cc
+++ b/source/fern/language/io/fern/hdf5_dataset.cc
@@ -70,6 +70,9 @@ hid_t HDF5Dataset::id() const
 }
 
 
+/*!
+  \return    Id of the data type. Must be closed by the caller.
+*/
 hid_t HDF5Dataset::type() const
 {
     assert(_dataset_id > 0);
@@ -80,7 +83,14 @@ hid_t HDF5Dataset::type() const
 H5T_class_t HDF5Dataset::type_class() const
 {
     assert(_dataset_id > 0);
-    return H5Tget_class(type());
+
+    hid_t type = this->type();
+    H5T_class_t type_class = H5Tget_class(type);
+
+    herr_t status = H5Tclose(type);
+    assert(status == 0);
+
+    return type_class;
 }
 
 
-- 
2.43.0


From 76999138ba32fcee04e2f387d17f447818188127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 69/97] fix: support rasters whose cells are not exactly square

---
 source/fern/language/io/gdal/gdal_dataset.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index ba57dcf..47bf434 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -412,14 +412,14 @@ std::shared_ptr<Attribute> GDALDataset::read_attribute(
         geo_transform[5] = 1.0;
     }
 
-    assert(geo_transform[1] == std::abs(geo_transform[5]));
-    double const cell_size = geo_transform[1];
+    double const cell_width = geo_transform[1];
+    double const cell_height = std::abs(geo_transform[5]);
 
     d2::Point south_west, north_east;
     set<0>(south_west, geo_transform[0]);
     set<1>(north_east, geo_transform[3]);
-    set<0>(north_east, get<0>(south_west) + nr_cols * cell_size);
-    set<1>(south_west, get<1>(north_east) - nr_rows * cell_size);
+    set<0>(north_east, get<0>(south_west) + nr_cols * cell_width);
+    set<1>(south_west, get<1>(north_east) - nr_rows * cell_height);
 
     d2::Box box(south_west, north_east);
 
@@ -612,7 +612,7 @@ void GDALDataset::write_attribute(
         geo_transform[5] =
             (get<1>(box.max_corner()) - get<1>(box.min_corner())) / nr_rows;
         assert(geo_transform[1] > 0.0);
-        assert(geo_transform[1] == geo_transform[5]);
+        assert(geo_transform[5] > 0.0);
     }
 
     if(_dataset->SetGeoTransform(geo_transform) != CE_None) {
-- 
2.43.0


From 0447b8a9ebf674d9b9f6ddf0cb1d897ea74ef1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 70/97] fix: locate rasters that are written south of their
 north edge

---
 source/fern/language/io/gdal/gdal_dataset.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index 47bf434..9843036 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -609,10 +609,11 @@ void GDALDataset::write_attribute(
         geo_transform[2] = 0.0;
         geo_transform[3] = get<1>(box.max_corner());  // north
         geo_transform[4] = 0.0;
+        // The first row is the northernmost one.
         geo_transform[5] =
-            (get<1>(box.max_corner()) - get<1>(box.min_corner())) / nr_rows;
+            (get<1>(box.min_corner()) - get<1>(box.max_corner())) / nr_rows;
         assert(geo_transform[1] > 0.0);
-        assert(geo_transform[5] > 0.0);
+        assert(geo_transform[5] < 0.0);
     }
 
     if(_dataset->SetGeoTransform(geo_transform) != CE_None) {
-- 
2.43.0


From 63263fa466e2823a391791251b74ddd670e02a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 71/97] fix: replace the mask when a raster is updated

---
 source/fern/language/io/gdal/gdal_dataset.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index 9843036..14ea969 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -631,10 +631,15 @@ void GDALDataset::write_attribute(
             Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
     }
 
-    if(array.has_masked_values()) {
+    // An existing dataset may already contain a mask, which must be replaced,
+    // also if none of the new values are masked.
+    bool const has_mask_band = band->GetMaskFlags() & GMF_PER_DATASET;
+
+    if(array.has_masked_values() || has_mask_band) {
         // This assumes the dataset contains onle one band. The mask is taken to
         // be global to the dataset.
-        if(band->CreateMaskBand(GMF_PER_DATASET) != CE_None) {
+        if(!has_mask_band &&
+                band->CreateMaskBand(GMF_PER_DATASET) != CE_None) {
             throw IOError(this->name(),
                 Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
         }
-- 
2.43.0


From 0bcc8b7f365fc8085fe30d59ccfcacf3cd3d7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 72/97] fix: report rasters with an unsupported data type

---
 source/fern/language/io/gdal/gdal_dataset.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/io/gdal/gdal_dataset.cc b/source/fern/language/io/gdal/gdal_dataset.cc
index 14ea969..2408821 100644
--- a/source/fern/language/io/gdal/gdal_dataset.cc
+++ b/source/fern/language/io/gdal/gdal_dataset.cc
@@ -148,9 +148,8 @@ ValueTypes gdal_data_type_to_value_types(
         GDAL_DATA_TYPE_TO_VALUE_TYPES_CASE(GDT_Float32)
         GDAL_DATA_TYPE_TO_VALUE_TYPES_CASE(GDT_Float64)
         default: {
+            // The caller has to check whether the data type is supported.
             assert(false);
-            // TODO Throw error stating the data type is not supported. The
-            //      caller should add more info.
         }
         // case GDT_CInt16: {
         //     throw IOError(this->name(),
@@ -301,6 +300,10 @@ ExpressionType GDALDataset::expression_type(
     assert(_dataset->GetRasterCount() == 1);
     GDALRasterBand* band = _dataset->GetRasterBand(1);
     assert(band);
+
+    // Throws if the data type of the band is not supported.
+    this->value_type(*band, path);
+
     result = ExpressionType(DataTypes::STATIC_FIELD,
         gdal_data_type_to_value_types(band->GetRasterDataType()));
 
@@ -520,6 +523,12 @@ ValueType GDALDataset::value_type(
         UNSUPPORTED_RASTER_DATA_TYPE_CASE(GDT_CFloat64);
         UNSUPPORTED_RASTER_DATA_TYPE_CASE(GDT_TypeCount);
         UNSUPPORTED_RASTER_DATA_TYPE_CASE(GDT_Unknown);
+        default: {
+            throw IOError(this->name(),
+                Exception::messages().format_message(
+                    MessageId::UNSUPPORTED_VALUE_TYPE,
+                    path, GDALGetDataTypeName(band.GetRasterDataType())));
+        }
     }
 
     return result;
-- 
2.43.0


From d4c183ad0c91945d913755f0633ce15c1f0d9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 73/97] fix: read command line arguments that name existing
 data

---
 source/fern/language/compiler/parse_command_line.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/fern/language/compiler/parse_command_line.cc b/source/fern/language/compiler/parse_command_line.cc
index 6c1cdbc..cb9a284 100644
--- a/source/fern/language/compiler/parse_command_line.cc
+++ b/source/fern/language/compiler/parse_command_line.cc
@@ -41,8 +41,7 @@ std::shared_ptr<DataSource> data_source(
             OpenMode::READ)) {
         result = std::make_shared<DatasetSource>(data_name);
     }
-
-    if(is_convertable_to<int64_t>(value)) {
+    else if(is_convertable_to<int64_t>(value)) {
         result = std::make_shared<ConstantSource<int64_t>>(as<int64_t>(value));
     }
     else if(is_convertable_to<double>(value)) {
-- 
2.43.0


From 26111b5ea194a8292bcab10bc87128b930329c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 74/97] fix: only accept names that have a value when
 validating modules

---
 .../language/ast/visitor/annotate_visitor.cc  | 12 ++++
 .../language/ast/visitor/annotate_visitor.h   |  2 +
 .../fern/language/interpreter/interpreter.cc  | 60 +++++++++++++++++++
 3 files changed, 74 insertions(+)

diff --git a/source/fern/language/ast/visitor/annotate_visitor.cc b/source/fern/language/ast/visitor/annotate_visitor.cc
index 88255ac..c547fdb 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.cc
+++ b/source/fern/language/ast/visitor/annotate_visitor.cc
@@ -85,6 +85,18 @@ void AnnotateVisitor::add_global_symbols(
 }
 
 
+//! Remove all global symbols from the symbol table.
+/*!
+  Use this method before annotating another module, to forget about the
+  symbols that were defined by modules that were annotated before.
+*/
+void AnnotateVisitor::clear_global_symbols()
+{
+    assert(_symbol_table.scope_level() == 1u);
+    _symbol_table.clear_scope();
+}
+
+
 void AnnotateVisitor::Visit(
     AssignmentVertex& vertex)
 {
diff --git a/source/fern/language/ast/visitor/annotate_visitor.h b/source/fern/language/ast/visitor/annotate_visitor.h
index f2679d8..343e516 100644
--- a/source/fern/language/ast/visitor/annotate_visitor.h
+++ b/source/fern/language/ast/visitor/annotate_visitor.h
@@ -76,6 +76,8 @@ public:
     void           add_global_symbols  (SymbolTable<ExpressionType> const&
                                             symbol_table);
 
+    void           clear_global_symbols();
+
     std::stack<ExpressionType> const& stack() const;
 
     // void           reset               ();
diff --git a/source/fern/language/interpreter/interpreter.cc b/source/fern/language/interpreter/interpreter.cc
index 8c73dec..3f9c948 100644
--- a/source/fern/language/interpreter/interpreter.cc
+++ b/source/fern/language/interpreter/interpreter.cc
@@ -11,6 +11,7 @@
 #include "fern/core/io_error.h"
 #include "fern/core/parse_error.h"
 #include "fern/core/validate_error.h"
+#include "fern/language/operation/core/attribute_argument.h"
 #include "fern/language/operation/std/operations.h"
 #include "fern/language/ast/visitor/identify_visitor.h"
 #ifndef NDEBUG
@@ -44,6 +45,59 @@ SymbolTable<ExpressionType> expression_types(
 }
 
 
+ExpressionType expression_type(
+    Argument const& argument)
+{
+    if(argument.argument_type() == ArgumentType::AT_FEATURE) {
+        // Features are read as a whole. See Read operation.
+        return ExpressionType(DataTypes::STATIC_FIELD, ValueTypes::NUMBER);
+    }
+
+    AttributeArgument const& attribute_argument(
+        dynamic_cast<AttributeArgument const&>(argument));
+
+    DataTypes data_types;
+    switch(attribute_argument.data_type()) {
+        case DT_CONSTANT: data_types = DataTypes::CONSTANT; break;
+        case DT_STATIC_FIELD: data_types = DataTypes::STATIC_FIELD; break;
+    }
+
+    ValueTypes value_types;
+    switch(attribute_argument.value_type()) {
+        case VT_BOOL: value_types = ValueTypes::BOOL; break;
+        case VT_CHAR: value_types = ValueTypes::CHAR; break;
+        case VT_UINT8: value_types = ValueTypes::UINT8; break;
+        case VT_INT8: value_types = ValueTypes::INT8; break;
+        case VT_UINT16: value_types = ValueTypes::UINT16; break;
+        case VT_INT16: value_types = ValueTypes::INT16; break;
+        case VT_UINT32: value_types = ValueTypes::UINT32; break;
+        case VT_INT32: value_types = ValueTypes::INT32; break;
+        case VT_UINT64: value_types = ValueTypes::UINT64; break;
+        case VT_INT64: value_types = ValueTypes::INT64; break;
+        case VT_FLOAT32: value_types = ValueTypes::FLOAT32; break;
+        case VT_FLOAT64: value_types = ValueTypes::FLOAT64; break;
+        case VT_STRING: value_types = ValueTypes::STRING; break;
+    }
+
+    return ExpressionType(data_types, value_types);
+}
+
+
+SymbolTable<ExpressionType> expression_types(
+    SymbolTable<std::shared_ptr<Argument>> const& arguments)
+{
+    SymbolTable<ExpressionType> result;
+    assert(arguments.scope_level() == 1u);
+    result.push_scope();
+
+    for(auto const& argument: arguments.scope(1)) {
+        result.add_value(argument.first, expression_type(*argument.second));
+    }
+
+    return result;
+}
+
+
 // DataSourceSymbolTable solve_read_calls(
 //     ModuleVertexPtr const& tree)
 // {
@@ -266,6 +320,12 @@ void Interpreter::annotate(
     IdentifyVisitor identify_visitor;
     tree->Accept(identify_visitor);
 
+    // Only the symbols that have a value are known to the module. Symbols
+    // defined by modules that were annotated before may have no value: these
+    // modules may not have been executed (succesfully).
+    _annotate_visitor.clear_global_symbols();
+    _annotate_visitor.add_global_symbols(expression_types(
+        _back_end->symbol_table()));
     _annotate_visitor.add_global_symbols(expression_types(symbol_table));
     tree->Accept(_annotate_visitor);
 }
-- 
2.43.0


From cbbc91d9d16bf71fab50f225c4530585675e910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 75/97] fix: a conditional raster with an integral alternative
 keeps its value type

---
 source/fern/python/algorithm/core/python_extension.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/fern/python/algorithm/core/python_extension.cc b/source/fern/python/algorithm/core/python_extension.cc
index 8556fd1..5de0146 100644
--- a/source/fern/python/algorithm/core/python_extension.cc
+++ b/source/fern/python/algorithm/core/python_extension.cc
@@ -47,9 +47,11 @@ BOOST_PYTHON_MODULE(_fern_algorithm_core)
 {
     INIT_PYTHON_MODULE("_fern_algorithm_core")
 
+    // The overload that is added last is tried first. An int is also accepted
+    // where a double is expected, so the overloads for ints must be tried first.
     bp::def("if_", if_raster_raster);
-    bp::def("if_", if_raster_int64);
-    bp::def("if_", if_int64_raster);
     bp::def("if_", if_raster_double);
     bp::def("if_", if_double_raster);
+    bp::def("if_", if_raster_int64);
+    bp::def("if_", if_int64_raster);
 }
-- 
2.43.0


From 43629a0883dd71d2bfe8dacd419e4c9b9b855f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 76/97] fix: reading a raster of an unsupported type raises an
 error

---
 source/fern/python/io/gdal.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/fern/python/io/gdal.cc b/source/fern/python/io/gdal.cc
index 0f2a1a0..02efed4 100644
--- a/source/fern/python/io/gdal.cc
+++ b/source/fern/python/io/gdal.cc
@@ -9,6 +9,7 @@
 #include "fern/python/io/gdal.h"
 #include <memory>
 #include <gdal_priv.h>
+#include "fern/core/io_error.h"
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/feature/core/array.h"
 #include "fern/algorithm/policy/mark_no_data.h"
@@ -34,16 +35,7 @@ switch(value_type) {               \
     case_(GDT_Int32, int32_t)      \
     case_(GDT_Float32, float)      \
     case_(GDT_Float64, double)     \
-    case GDT_Unknown: {            \
-        assert(false);             \
-        break;                     \
-    }                              \
-    case GDT_CInt16:               \
-    case GDT_CInt32:               \
-    case GDT_CFloat32:             \
-    case GDT_CFloat64:             \
-    case GDT_TypeCount: {          \
-        assert(false);             \
+    default: {                     \
         break;                     \
     }                              \
 }
@@ -112,6 +104,12 @@ MaskedRasterHandle read_raster(
 
     SWITCH_ON_GDAL_VALUE_TYPE(gdal_value_type, CASE)
 
+    if(!result) {
+        throw IOError(pathname, Exception::messages().format_message(
+            MessageId::UNSUPPORTED_VALUE_TYPE, "raster band 1",
+            GDALGetDataTypeName(gdal_value_type)));
+    }
+
     return result;
 }
 
-- 
2.43.0


From 6b15c4cc69e8420d7f282d6ae68c1577294cd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 77/97] fix: writing a raster that cannot be written raises an
 error

---
 source/fern/python/io/gdal.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/source/fern/python/io/gdal.cc b/source/fern/python/io/gdal.cc
index 02efed4..2e39d3c 100644
--- a/source/fern/python/io/gdal.cc
+++ b/source/fern/python/io/gdal.cc
@@ -58,7 +58,8 @@ switch(value_type) {            \
     case VT_UINT64:             \
     case VT_INT64:              \
     case VT_STRING: {           \
-        assert(false);          \
+        throw IOError(name,     \
+            Exception::messages()[MessageId::CANNOT_BE_WRITTEN]); \
     }                           \
 }
 
@@ -129,8 +130,11 @@ void write_raster(
     GDALDataType value_type{io::gdal::ValueTypeTraits<T>::gdal_value_type};
     auto dataset = driver->Create(name.c_str(), nr_cols, nr_rows, nr_bands,
         value_type, nullptr);
-    // TODO
-    assert(dataset);
+
+    if(!dataset) {
+        throw IOError(name, Exception::messages()[
+            MessageId::CANNOT_BE_CREATED]);
+    }
 
     // Set some metadata.
     double transformation[]{
@@ -150,8 +154,9 @@ void write_raster(
     if(band->RasterIO(GF_Write, 0, 0, nr_cols, nr_rows,
             const_cast<T*>(raster.data()),
             nr_cols, nr_rows, value_type, 0, 0) != CE_None) {
-        // TODO
-        assert(false);
+        GDALClose(dataset);
+        throw IOError(name, Exception::messages()[
+            MessageId::CANNOT_BE_WRITTEN]);
     }
 
     // // Write mask band.
@@ -205,13 +210,19 @@ void write_raster(
 {
     // Obtain driver.
     auto driver = GetGDALDriverManager()->GetDriverByName(format.c_str());
-    // TODO
-    assert(driver);
+
+    if(!driver) {
+        throw IOError(name, Exception::messages().format_message(
+            MessageId::NO_SUCH_DRIVER, format));
+    }
 
     // Create new dataset, possibly overwriting existing one.
     auto metadata = driver->GetMetadata();
-    // TODO
-    assert(CSLFetchBoolean(metadata, GDAL_DCAP_CREATE, FALSE));
+
+    if(!CSLFetchBoolean(metadata, GDAL_DCAP_CREATE, FALSE)) {
+        throw IOError(name, Exception::messages()[
+            MessageId::CANNOT_BE_CREATED]);
+    }
 
     SWITCH_ON_GDAL_SUPPORTED_VALUE_TYPE(raster->value_type(), CASE)
 }
-- 
2.43.0


From 74ad6a4f026cf8829d65ddcf500e406ecdaa3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 78/97] fix: adding and multiplying in place return the raster
 that was passed

---
 .../python/algorithm/algebra/elementary/python_extension.cc   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/python/algorithm/algebra/elementary/python_extension.cc b/source/fern/python/algorithm/algebra/elementary/python_extension.cc
index fe489af..18f7f9d 100644
--- a/source/fern/python/algorithm/algebra/elementary/python_extension.cc
+++ b/source/fern/python/algorithm/algebra/elementary/python_extension.cc
@@ -112,7 +112,7 @@ BOOST_PYTHON_MODULE(_fern_algorithm_algebra_elementary)
     INIT_PYTHON_MODULE("_fern_algorithm_algebra_elementary")
 
     bp::def("iadd", fp::iadd,
-        bp::return_value_policy<bp::reference_existing_object>());
+        bp::return_arg<2>());
     bp::def("add", add_raster_raster);
     bp::def("add", add_raster_double);
     bp::def("add", add_double_raster);
@@ -120,7 +120,7 @@ BOOST_PYTHON_MODULE(_fern_algorithm_algebra_elementary)
     bp::def("add", add_int64_raster);
 
     bp::def("imultiply", fp::imultiply,
-        bp::return_value_policy<bp::reference_existing_object>());
+        bp::return_arg<2>());
     bp::def("multiply", multiply_raster_raster);
     bp::def("multiply", multiply_raster_double);
     bp::def("multiply", multiply_double_raster);
-- 
2.43.0


From c0d8b912de64503e755f053e3c96afb6f8c360fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 79/97] fix: name of the method for multiplying in place

---
 source/fern/python/algorithm/__init__.py.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fern/python/algorithm/__init__.py.in b/source/fern/python/algorithm/__init__.py.in
index 9816a1b..f9d6b3d 100644
--- a/source/fern/python/algorithm/__init__.py.in
+++ b/source/fern/python/algorithm/__init__.py.in
@@ -21,7 +21,7 @@ fern.feature.MaskedRaster.__iadd__ = iadd
 
 fern.feature.MaskedRaster.__mul__ = multiply
 fern.feature.MaskedRaster.__rmul__ = multiply
-fern.feature.MaskedRaster.__imult__ = imultiply
+fern.feature.MaskedRaster.__imul__ = imultiply
 
 fern.feature.MaskedRaster.__lt__ = less
 fern.feature.MaskedRaster.__gt__ = greater
-- 
2.43.0


From 7f94b0782595728bb13e1a6eba2dc1ce1cba2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 80/97] fix: test the arguments of operations in place before
 they are overwritten

---
 .../algorithm/algebra/elementary/add_raster_raster.cc     | 8 +++++++-
 .../fern/python/algorithm/algebra/elementary/multiply.cc  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc b/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
index dfaf1a3..97bd239 100644
--- a/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
+++ b/source/fern/python/algorithm/algebra/elementary/add_raster_raster.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/algorithm/algebra/elementary/add.h"
+#include <algorithm>
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/algorithm/policy/policies.h"
 #include "fern/algorithm/algebra/elementary/add.h"
@@ -52,7 +53,12 @@ void iadd(
     detail::MaskedRaster<T2> const& other)
 {
     // TODO Assert raster properties.
-    add(execution_policy, self, other, self);
+    // The algorithm uses the arguments after storing a result, so the result
+    // must not be stored in one of them.
+    detail::MaskedRaster<T1> result(self.sizes(), self.origin(),
+        self.cell_sizes());
+    add(execution_policy, self, other, result);
+    std::copy(result.data(), result.data() + result.size(), self.data());
 }
 
 
diff --git a/source/fern/python/algorithm/algebra/elementary/multiply.cc b/source/fern/python/algorithm/algebra/elementary/multiply.cc
index ab53aae..c426228 100644
--- a/source/fern/python/algorithm/algebra/elementary/multiply.cc
+++ b/source/fern/python/algorithm/algebra/elementary/multiply.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/python/algorithm/algebra/elementary/multiply.h"
+#include <algorithm>
 #include "fern/core/data_customization_point/scalar.h"
 #include "fern/python/feature/detail/data_customization_point/masked_raster.h"
 #include "fern/algorithm/policy/policies.h"
@@ -95,7 +96,12 @@ void imultiply(
     detail::MaskedRaster<T2> const& other)
 {
     // TODO Assert raster properties.
-    multiply(execution_policy, self, other, self);
+    // The algorithm uses the arguments after storing a result, so the result
+    // must not be stored in one of them.
+    detail::MaskedRaster<T1> result(self.sizes(), self.origin(),
+        self.cell_sizes());
+    multiply(execution_policy, self, other, result);
+    std::copy(result.data(), result.data() + result.size(), self.data());
 }
 
 
-- 
2.43.0


From 7b8168c535b241504b062b71d8dce558acfbbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 81/97] fix: refuse None where a raster is expected in Python

---
 .../fern/python/feature/python_extension.cc   | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/source/fern/python/feature/python_extension.cc b/source/fern/python/feature/python_extension.cc
index 72bd215..1f5cf64 100644
--- a/source/fern/python/feature/python_extension.cc
+++ b/source/fern/python/feature/python_extension.cc
@@ -16,6 +16,31 @@ namespace bp = boost::python;
 namespace fp = fern::python;
 
 
+namespace {
+
+// Boost.Python accepts None where a shared pointer is expected, and passes a
+// null pointer. No function can do something useful with a missing raster.
+void* refuse_none(
+    PyObject* object)
+{
+    if(object == Py_None) {
+        PyErr_SetString(PyExc_TypeError, "a raster is required");
+        bp::throw_error_already_set();
+    }
+
+    return nullptr;
+}
+
+
+void construct_nothing(
+    PyObject* /* object */,
+    bp::converter::rvalue_from_python_stage1_data* /* data */)
+{
+}
+
+} // Anonymous namespace
+
+
 BOOST_PYTHON_MODULE(_fern_feature)
 {
     INIT_PYTHON_MODULE("_fern_feature")
@@ -78,6 +103,10 @@ BOOST_PYTHON_MODULE(_fern_feature)
             "Value type")
         ;
 
+    // The converter that is added last is tried first.
+    bp::converter::registry::insert(&refuse_none, &construct_nothing,
+        bp::type_id<fp::MaskedRasterHandle>());
+
     bp::def("raster_as_numpy_array", fp::raster_as_numpy_array,
         "Return a Numpy array with the raster values.");
     // bp::def("mask_as_numpy_array", fp::mask_as_numpy_array,
-- 
2.43.0


From 5d4e74e36b55010a32f277b0d058f614ca6d7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 82/97] fix: fern: an unknown command shows the help

---
 source/fern/language/command/fern.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/command/fern.cc b/source/fern/language/command/fern.cc
index a6f4d92..34fe5de 100644
--- a/source/fern/language/command/fern.cc
+++ b/source/fern/language/command/fern.cc
@@ -113,14 +113,14 @@ int main(
             status = EXIT_FAILURE;
         }
 
-        assert(command);
-
-        try {
-            status = command->execute();
-        }
-        catch(std::exception const& exception) {
-            std::cerr << exception.what() << '\n';
-            status = EXIT_FAILURE;
+        if(command) {
+            try {
+                status = command->execute();
+            }
+            catch(std::exception const& exception) {
+                std::cerr << exception.what() << '\n';
+                status = EXIT_FAILURE;
+            }
         }
     }
 
-- 
2.43.0


From 7cb9eb0e2be50ab673940dd10072826ee87f5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 83/97] fix: fern: show the message of an exception

---
 source/fern/language/command/fern.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/fern/language/command/fern.cc b/source/fern/language/command/fern.cc
index 34fe5de..b212729 100644
--- a/source/fern/language/command/fern.cc
+++ b/source/fern/language/command/fern.cc
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <memory>
 #include "fern/configure.h"
+#include "fern/core/exception.h"
 #include "fern/language/command/compile_command.h"
 #include "fern/language/command/describe_command.h"
 #include "fern/language/command/execute_command.h"
@@ -70,6 +71,10 @@ int main(
             fl::enter_interpreter();
             status = EXIT_SUCCESS;
         }
+        catch(fern::Exception const& exception) {
+            std::cerr << exception.message() << '\n';
+            status = EXIT_FAILURE;
+        }
         catch(std::exception const& exception) {
             std::cerr << exception.what() << '\n';
             status = EXIT_FAILURE;
@@ -117,6 +122,10 @@ int main(
             try {
                 status = command->execute();
             }
+            catch(fern::Exception const& exception) {
+                std::cerr << exception.message() << '\n';
+                status = EXIT_FAILURE;
+            }
             catch(std::exception const& exception) {
                 std::cerr << exception.what() << '\n';
                 status = EXIT_FAILURE;
-- 
2.43.0


From bd6aa56321c6fa4c66ed3702acad5ccb73bfe457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 84/97] fix: interactive interpreter: 8 bit integers are shown
 as numbers

---
 source/fern/language/command/interpreter.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/fern/language/command/interpreter.cc b/source/fern/language/command/interpreter.cc
index d302536..bdf5c3a 100644
--- a/source/fern/language/command/interpreter.cc
+++ b/source/fern/language/command/interpreter.cc
@@ -56,6 +56,23 @@ inline void show_value(
 }
 
 
+// These are numbers, not characters.
+template<>
+inline void show_value<int8_t>(
+    int8_t const& value)
+{
+    std::cout << static_cast<int>(value) << "\n";
+}
+
+
+template<>
+inline void show_value<uint8_t>(
+    uint8_t const& value)
+{
+    std::cout << static_cast<unsigned int>(value) << "\n";
+}
+
+
 #define SHOW_VALUE_CASE(                                                       \
         value_type)                                                            \
     case value_type: {                                                         \
-- 
2.43.0


From dd9b189a10b8bf128d684d939a87368adbfa9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 85/97] fix: interactive interpreter: run without a HOME

---
 source/fern/language/command/interpreter.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/command/interpreter.cc b/source/fern/language/command/interpreter.cc
index bdf5c3a..c91bc94 100644
--- a/source/fern/language/command/interpreter.cc
+++ b/source/fern/language/command/interpreter.cc
@@ -204,9 +204,13 @@ void enter_interpreter()
     using_history();
 
     // Determine path name of history file. Reading the file will fail if it
-    // doesn't exists, which is OK.
-    std::string history_filename(std::string(std::getenv("HOME")) + "/.fern");
-    /* int result = */ read_history(history_filename.c_str());
+    // doesn't exists, which is OK. Without a home, there is no history file.
+    char const* home = std::getenv("HOME");
+    std::string history_filename(home ? std::string(home) + "/.fern" : "");
+
+    if(!history_filename.empty()) {
+        /* int result = */ read_history(history_filename.c_str());
+    }
 
     while(true) {
         // Obtain a statement from the user.
@@ -240,7 +244,9 @@ void enter_interpreter()
         interpreter.clear_stack();
     }
 
-    /* result = */ write_history(history_filename.c_str());
+    if(!history_filename.empty()) {
+        /* result = */ write_history(history_filename.c_str());
+    }
 }
 
 } // namespace language
-- 
2.43.0


From c424c282ba7b26e9997acbacf223b606ae836e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 86/97] fix: interactive interpreter: register the drivers

---
 source/fern/language/command/interpreter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/fern/language/command/interpreter.cc b/source/fern/language/command/interpreter.cc
index c91bc94..a41a461 100644
--- a/source/fern/language/command/interpreter.cc
+++ b/source/fern/language/command/interpreter.cc
@@ -23,6 +23,7 @@
 #include "fern/language/interpreter/interpreter.h"
 #include "fern/language/operation/core/attribute_argument.h"
 #include "fern/language/operation/core/feature_argument.h"
+#include "fern/language/io/io_client.h"
 
 
 namespace std {
@@ -197,6 +198,8 @@ void enter_interpreter()
 
     std::unique_ptr<char> line;
     std::string statement;
+    // Registers the drivers used for reading and writing data.
+    IOClient io_client;
     Interpreter interpreter;
     std::shared_ptr<ModuleVertex> script_vertex;
 
-- 
2.43.0


From 87ef4573150eb41a78ef096e4de35753ce1f32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 87/97] fix: describe: datasets as a whole, and their features

---
 source/fern/language/command/describe_command.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/fern/language/command/describe_command.cc b/source/fern/language/command/describe_command.cc
index 06b776e..3dc5c0d 100644
--- a/source/fern/language/command/describe_command.cc
+++ b/source/fern/language/command/describe_command.cc
@@ -43,10 +43,10 @@ DescribeCommand::DescribeCommand(
 
 
 void DescribeCommand::describe_feature(
-    Dataset const& dataset,
+    Dataset const& /* dataset */,
     Path const& path) const
 {
-    auto feature = dataset.open_feature(path);
+    // Opening features is not supported by all datasets.
     std::cout << "feature: " << path << std::endl;
     // TODO
 }
@@ -74,7 +74,9 @@ void DescribeCommand::describe(
             data_name.database_pathname().generic_string(), OpenMode::READ);
         assert(dataset);
 
-        if(!data_name.data_pathname().is_empty()) {
+        // The data pathname is absolute. / is what remains when it is not
+        // provided.
+        if(!(data_name.data_pathname() == Path("/"))) {
             // Describe data pointed to by pathname.
             if(dataset->contains_feature(data_name.data_pathname())) {
                 // Describe feature.
-- 
2.43.0


From a34be1ddb3f8186da2905bab8317e30e143617a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 88/97] fix: commands: tell when a file cannot be written

---
 source/fern/language/command/command.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/fern/language/command/command.cc b/source/fern/language/command/command.cc
index 84c2463..a250baa 100644
--- a/source/fern/language/command/command.cc
+++ b/source/fern/language/command/command.cc
@@ -8,6 +8,7 @@
 // -----------------------------------------------------------------------------
 #include "fern/language/command/command.h"
 #include <fstream>
+#include "fern/core/io_error.h"
 #include "fern/language/script/algebra_parser.h"
 
 
@@ -90,6 +91,12 @@ void Command::write(
     else {
         std::ofstream file(filename.c_str());
         file << contents;
+        file.close();
+
+        if(!file) {
+            throw IOError(filename, Exception::messages()[
+                MessageId::CANNOT_BE_WRITTEN]);
+        }
     }
 }
 
-- 
2.43.0


From 31770ce1aa7c4fb5a4ed4333293509686090a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 89/97] fix: compile dot: refuse too many arguments

---
 source/fern/language/command/compile_command.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/command/compile_command.cc b/source/fern/language/command/compile_command.cc
index 3a2b233..da21eda 100644
--- a/source/fern/language/command/compile_command.cc
+++ b/source/fern/language/command/compile_command.cc
@@ -252,7 +252,7 @@ int CompileCommand::compile_to_dot_ast(
             show_compile_dot_ast_help();
             status = EXIT_FAILURE;
         }
-        else if(argc - current_argument_id > 3) {
+        else if(argc - current_argument_id > 2) {
             std::cerr << "Too many arguments.\n";
             show_compile_dot_ast_help();
             status = EXIT_FAILURE;
@@ -303,12 +303,12 @@ int CompileCommand::compile_to_dot_flowgraph(
 
         if(current_argument_id == argc) {
             std::cerr << "Not enough arguments.\n";
-            show_compile_dot_ast_help();
+            show_compile_dot_flowgraph_help();
             status = EXIT_FAILURE;
         }
-        else if(argc - current_argument_id > 3) {
+        else if(argc - current_argument_id > 2) {
             std::cerr << "Too many arguments.\n";
-            show_compile_dot_ast_help();
+            show_compile_dot_flowgraph_help();
             status = EXIT_FAILURE;
         }
         else {
-- 
2.43.0


From 5f49e49142eaf34acc0f77fb96e950e3844295b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 90/97] fix: compiler: tell when the destination cannot be
 written

---
 source/fern/language/compiler/compiler.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/fern/language/compiler/compiler.cc b/source/fern/language/compiler/compiler.cc
index ba86b50..9baf839 100644
--- a/source/fern/language/compiler/compiler.cc
+++ b/source/fern/language/compiler/compiler.cc
@@ -7,6 +7,7 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/compiler/compiler.h"
+#include "fern/core/io_error.h"
 #include "fern/core/string.h"
 #include "fern/language/io/core/file.h"
 #include "fern/language/operation/std/operations.h"
@@ -59,8 +60,10 @@ void Compiler::compile(
         source_module_path.generic_string());
     assert(module_vertex);
 
-    // TODO Exception.
-    assert(directory_is_writable(destination_module_path));
+    if(!directory_is_writable(destination_module_path)) {
+        throw IOError(destination_module_path.generic_string(),
+            Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
+    }
 
     std::string model_name =
         Path(module_vertex->source_name()).filename().stem().generic_string();
@@ -73,11 +76,11 @@ void Compiler::compile(
         bool can_overwrite_existing_file = file_exists(header_path) &&
             file_is_writable(header_path);
         bool can_create_unexisting_file = (!file_exists(header_path)) &&
-            directory_is_writable(destination_module_path.parent_path());
+            directory_is_writable(destination_module_path);
 
         if(!(can_overwrite_existing_file || can_create_unexisting_file)) {
-            // TODO Exception.
-            assert(false);
+            throw IOError(header_path.generic_string(),
+                Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
         }
     }
 
@@ -85,11 +88,11 @@ void Compiler::compile(
         bool can_overwrite_existing_file = file_exists(module_path) &&
             file_is_writable(module_path);
         bool can_create_unexisting_file = (!file_exists(module_path)) &&
-            directory_is_writable(destination_module_path.parent_path());
+            directory_is_writable(destination_module_path);
 
         if(!(can_overwrite_existing_file || can_create_unexisting_file)) {
-            // TODO Exception.
-            assert(false);
+            throw IOError(module_path.generic_string(),
+                Exception::messages()[MessageId::CANNOT_BE_WRITTEN]);
         }
     }
 
-- 
2.43.0


From e36104c2c0ec2628d39c3f1bcac2b55a25327d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 91/97] fix: dot graphs: escape strings

---
 .../language/ast/visitor/ast_dot_visitor.cc   |  2 +-
 .../fern/language/ast/visitor/dot_visitor.cc  | 22 +++++++++++++++++++
 .../fern/language/ast/visitor/dot_visitor.h   |  2 ++
 .../ast/visitor/flowgraph_dot_visitor.cc      |  2 +-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 19b7855..628f172 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -558,7 +558,7 @@ void AstDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escape(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
diff --git a/source/fern/language/ast/visitor/dot_visitor.cc b/source/fern/language/ast/visitor/dot_visitor.cc
index 560d67d..1a41a3f 100644
--- a/source/fern/language/ast/visitor/dot_visitor.cc
+++ b/source/fern/language/ast/visitor/dot_visitor.cc
@@ -32,5 +32,27 @@ void DotVisitor::add_script(
     _script += string;
 }
 
+
+//! Escape \a string for use in a label.
+/*!
+  Inside the quotes of a label, double quotes and backslashes have a special
+  meaning.
+*/
+std::string DotVisitor::escape(
+    std::string const& string)
+{
+    std::string result;
+
+    for(char const character: string) {
+        if(character == '"' || character == '\\') {
+            result += '\\';
+        }
+
+        result += character;
+    }
+
+    return result;
+}
+
 } // namespace language
 } // namespace fern
diff --git a/source/fern/language/ast/visitor/dot_visitor.h b/source/fern/language/ast/visitor/dot_visitor.h
index 8dec5b3..74a76ca 100644
--- a/source/fern/language/ast/visitor/dot_visitor.h
+++ b/source/fern/language/ast/visitor/dot_visitor.h
@@ -47,6 +47,8 @@ protected:
 
     void           add_script          (std::string const& string);
 
+    static std::string escape          (std::string const& string);
+
 private:
 
     std::string    _script;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index 85081e1..c88cce9 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -386,7 +386,7 @@ void FlowgraphDotVisitor::Visit(
         case Mode::Declaring: {
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
-                " [label=\"\\\"" + vertex.value() +
+                " [label=\"\\\"" + escape(vertex.value()) +
                 "\\\"\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From 563c5a23c8eddf6b4a78558fcf22add485282c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 92/97] fix: dot graphs: 8 bit integers are numbers

---
 source/fern/language/ast/visitor/ast_dot_visitor.cc       | 2 +-
 source/fern/language/ast/visitor/flowgraph_dot_visitor.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 628f172..25bd915 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -156,7 +156,7 @@ void AstDotVisitor::Visit(
                     "];\n")
                     % &vertex
                     % annotate_expression_label(
-                        (boost::format("%1%") % vertex.value()).str(), vertex)
+                        (boost::format("%1%") % +vertex.value()).str(), vertex)
             ).str());
 
             break;
diff --git a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
index c88cce9..5c7fb33 100644
--- a/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/flowgraph_dot_visitor.cc
@@ -270,7 +270,7 @@ void FlowgraphDotVisitor::Visit(
             add_script(
                 (boost::format("\"%1%\"") % &vertex).str() +
                 " [label=\"" +
-                (boost::format("%1%") % vertex.value()).str() +
+                (boost::format("%1%") % +vertex.value()).str() +
                 "\", fontname=courier, shape=box];\n"
             );
             break;
-- 
2.43.0


From 13ff995614d5f7f1881dea15327c162e016773b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 93/97] fix: dot graphs: draw the statements of branches

---
 source/fern/language/ast/visitor/ast_dot_visitor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/fern/language/ast/visitor/ast_dot_visitor.cc b/source/fern/language/ast/visitor/ast_dot_visitor.cc
index 25bd915..e074e7f 100644
--- a/source/fern/language/ast/visitor/ast_dot_visitor.cc
+++ b/source/fern/language/ast/visitor/ast_dot_visitor.cc
@@ -426,8 +426,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
@@ -608,8 +608,8 @@ void AstDotVisitor::Visit(
     }
 
     vertex.condition()->Accept(*this);
-    vertex.true_scope()->Accept(*this);
-    vertex.false_scope()->Accept(*this);
+    Visit(*vertex.true_scope());
+    Visit(*vertex.false_scope());
     // for(auto statement_vertex: vertex.true_scope()->statements()) {
     //     statement_vertex->Accept(*this);
     // }
-- 
2.43.0


From f627d5be20ea7e3cdedd7ae26bdd5dca8e0119a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 94/97] fix: compiler: name the namespace fern::language in
 generated code

---
 .../fern/language/compiler/compile_visitor.cc | 28 +++++++++----------
 source/fern/language/compiler/compiler.cc     |  8 +++---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/source/fern/language/compiler/compile_visitor.cc b/source/fern/language/compiler/compile_visitor.cc
index 79eed38..f8b3e9f 100644
--- a/source/fern/language/compiler/compile_visitor.cc
+++ b/source/fern/language/compiler/compile_visitor.cc
@@ -54,11 +54,11 @@ void CompileVisitor::Visit(
 {
     _statement.clear();
     _statement +=
-        "std::vector<std::shared_ptr<fern::Argument>> results(";
+        "std::vector<std::shared_ptr<fern::language::Argument>> results(";
     vertex.expression()->Accept(*this);
     _body.emplace_back(_statement);
     _body.emplace_back((boost::format(
-        "std::shared_ptr<fern::Argument> %1%(results[0])"
+        "std::shared_ptr<fern::language::Argument> %1%(results[0])"
         ) % vertex.target()->name()).str());
 }
 
@@ -100,7 +100,7 @@ void CompileVisitor::Visit(
     Operation const& operation(*_operations->operation(vertex.name()));
 
     _statement += (boost::format(
-        "_operations->operation(\"%1%\")->execute(std::vector<std::shared_ptr<fern::Argument>>{"
+        "_operations->operation(\"%1%\")->execute(std::vector<std::shared_ptr<fern::language::Argument>>{"
         ) % operation.name()).str();
     visit_expressions(vertex.expressions());
 
@@ -136,7 +136,7 @@ void CompileVisitor::Visit(
         std::vector<std::string> initializers;
         for(auto const& input: visitor.inputs()) {
             initializers.emplace_back((boost::format(
-                "fern::DataDescription(\"%1%\")"
+                "fern::language::DataDescription(\"%1%\")"
             ) % input).str());
         }
         arguments_initializer_list = join(initializers, ", ");
@@ -144,7 +144,7 @@ void CompileVisitor::Visit(
         initializers.clear();
         for(auto const& output: visitor.outputs()) {
             initializers.emplace_back((boost::format(
-                "fern::DataDescription(\"%1%\")"
+                "fern::language::DataDescription(\"%1%\")"
             ) % output->name()).str());
         }
         results_initializer_list = join(initializers, ", ");
@@ -154,7 +154,7 @@ void CompileVisitor::Visit(
     // Prepare the module's inputs.
     for(size_t i = 0; i < visitor.inputs().size(); ++i) {
         _body.emplace_back((boost::format(
-            "std::shared_ptr<fern::Argument> %1%(data_sources[%2%]->read());"
+            "std::shared_ptr<fern::language::Argument> %1%(data_sources[%2%]->read());"
             ) % visitor.inputs()[i] % i).str());
     }
 
@@ -185,7 +185,7 @@ void CompileVisitor::Visit(
 "\n"
 "\n"
 "class %1%:\n"
-"    public fern::Module\n"
+"    public fern::language::Module\n"
 "{\n"
 "\n"
 "public:\n"
@@ -195,15 +195,15 @@ void CompileVisitor::Visit(
 "                   ~%1%                ();\n"
 "\n"
 "    void           run                 (std::vector<std::shared_ptr<\n"
-"                                            fern::DataSource>> const&\n"
+"                                            fern::language::DataSource>> const&\n"
 "                                                data_sources,\n"
 "                                        std::vector<std::shared_ptr<\n"
-"                                            fern::DataSync>> const&\n"
+"                                            fern::language::DataSync>> const&\n"
 "                                                data_syncs) const;\n"
 "\n"
 "private:\n"
 "\n"
-"    std::shared_ptr<fern::Operations> _operations;\n"
+"    std::shared_ptr<fern::language::Operations> _operations;\n"
 "\n"
 "};\n"
     ) % class_name).str();
@@ -214,7 +214,7 @@ void CompileVisitor::Visit(
 "\n"
 "%2%::%2%()\n"
 "\n"
-"    : fern::Module(\n"
+"    : fern::language::Module(\n"
 "          {\n"
 "              // Inputs.\n"
 "              %3%\n"
@@ -223,7 +223,7 @@ void CompileVisitor::Visit(
 "              // Outputs.\n"
 "              %4%\n"
 "          }),\n"
-"      _operations(fern::operations())\n"
+"      _operations(fern::language::operations())\n"
 "\n"
 "{\n"
 "}\n"
@@ -235,8 +235,8 @@ void CompileVisitor::Visit(
 "\n"
 "\n"
 "void %2%::run(\n"
-"    std::vector<std::shared_ptr<fern::DataSource>> const& data_sources,\n"
-"    std::vector<std::shared_ptr<fern::DataSync>> const& data_syncs) const\n"
+"    std::vector<std::shared_ptr<fern::language::DataSource>> const& data_sources,\n"
+"    std::vector<std::shared_ptr<fern::language::DataSync>> const& data_syncs) const\n"
 "{\n"
 "    check_sources_and_syncs(data_sources, data_syncs);\n"
 "    %5%\n"
diff --git a/source/fern/language/compiler/compiler.cc b/source/fern/language/compiler/compiler.cc
index 9baf839..fd03c4a 100644
--- a/source/fern/language/compiler/compiler.cc
+++ b/source/fern/language/compiler/compiler.cc
@@ -201,11 +201,11 @@ void Compiler::compile(
             "    int status = EXIT_FAILURE;\n"
             "\n"
             "    try {\n"
-            "        fern::IOClient io_client;\n"
+            "        fern::language::IOClient io_client;\n"
             "        %2% module;\n"
-            "        std::vector<std::shared_ptr<fern::DataSource>> sources;\n"
-            "        std::vector<std::shared_ptr<fern::DataSync>> syncs;\n"
-            "        std::tie(sources, syncs) = fern::parse_command_line(\n"
+            "        std::vector<std::shared_ptr<fern::language::DataSource>> sources;\n"
+            "        std::vector<std::shared_ptr<fern::language::DataSync>> syncs;\n"
+            "        std::tie(sources, syncs) = fern::language::parse_command_line(\n"
             "            argc, argv, module.arguments(), module.results());\n"
             "        module.run(sources, syncs);\n"
             "        status = EXIT_SUCCESS;\n"
-- 
2.43.0


From 0d13c16523c0e367bd088b2eeed5d4a457d1d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 95/97] fix: compiler: translate all expressions

---
 .../fern/language/compiler/compile_visitor.cc | 170 +++++++++++++++---
 .../fern/language/compiler/compile_visitor.h  |  10 +-
 2 files changed, 155 insertions(+), 25 deletions(-)

diff --git a/source/fern/language/compiler/compile_visitor.cc b/source/fern/language/compiler/compile_visitor.cc
index f8b3e9f..ba2a4f9 100644
--- a/source/fern/language/compiler/compile_visitor.cc
+++ b/source/fern/language/compiler/compile_visitor.cc
@@ -7,6 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #include "fern/language/compiler/compile_visitor.h"
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include "fern/core/path.h"
 #include "fern/core/string.h"
 #include "fern/language/ast/core/vertices.h"
@@ -15,6 +18,86 @@
 
 namespace fern {
 namespace language {
+namespace {
+
+//! Return C++ code for the argument wrapping a constant.
+std::string constant_argument(
+    std::string const& type,
+    std::string const& value)
+{
+    return (boost::format(
+        "std::shared_ptr<fern::language::Argument>("
+            "std::make_shared<fern::language::AttributeArgument>("
+            "std::make_shared<fern::language::ConstantAttribute<%1%>>(%2%)))"
+        ) % type % value).str();
+}
+
+
+//! Return C++ code for \a value, of type \a type.
+template<
+    typename T>
+std::string number(
+    std::string const& type,
+    T const& value)
+{
+    using Limits = std::numeric_limits<T>;
+
+    std::ostringstream stream;
+
+    if(Limits::is_integer) {
+        if(Limits::is_signed && value == Limits::min()) {
+            // Negative literals don't exist.
+            stream << "std::numeric_limits<" << type << ">::min()";
+        }
+        else {
+            stream << "static_cast<" << type << ">(" << +value
+                << (Limits::is_signed ? "LL" : "ULL") << ")";
+        }
+    }
+    else if(value != value) {
+        stream << "std::numeric_limits<" << type << ">::quiet_NaN()";
+    }
+    else if(value == Limits::infinity() || value == -Limits::infinity()) {
+        stream << (value < 0 ? "-" : "")
+            << "std::numeric_limits<" << type << ">::infinity()";
+    }
+    else {
+        stream << "static_cast<" << type << ">(" << std::scientific
+            << std::setprecision(Limits::max_digits10) << value << ")";
+    }
+
+    return stream.str();
+}
+
+
+//! Return C++ code for \a value.
+std::string string(
+    std::string const& value)
+{
+    std::ostringstream stream;
+
+    stream << "\"";
+
+    for(unsigned char const character: value) {
+        if(character == '"' || character == '\\') {
+            stream << '\\' << character;
+        }
+        else if(character >= 32 && character < 127) {
+            stream << character;
+        }
+        else {
+            stream << '\\' << std::oct << std::setw(3) << std::setfill('0')
+                << static_cast<unsigned int>(character);
+        }
+    }
+
+    stream << "\"";
+
+    return stream.str();
+}
+
+} // Anonymous namespace
+
 
 CompileVisitor::CompileVisitor(
     OperationsPtr const& operations,
@@ -49,17 +132,35 @@ std::string const& CompileVisitor::module() const
 }
 
 
+//! Add code to the current statement for the value of \a vertex.
+void CompileVisitor::add_value(
+    ExpressionVertex& vertex)
+{
+    vertex.Accept(*this);
+
+    if(dynamic_cast<OperationVertex*>(&vertex)) {
+        // Operations return a collection of results.
+        _statement += ".at(0)";
+    }
+}
+
+
 void CompileVisitor::Visit(
     AssignmentVertex& vertex)
 {
-    _statement.clear();
-    _statement +=
-        "std::vector<std::shared_ptr<fern::language::Argument>> results(";
-    vertex.expression()->Accept(*this);
-    _body.emplace_back(_statement);
-    _body.emplace_back((boost::format(
-        "std::shared_ptr<fern::language::Argument> %1%(results[0])"
-        ) % vertex.target()->name()).str());
+    std::string const& name(vertex.target()->name());
+
+    add_value(*vertex.expression());
+
+    // Names are declared only once.
+    if(_names.insert(name).second) {
+        _statement = (boost::format(
+            "std::shared_ptr<fern::language::Argument> %1%(%2%)"
+            ) % name % _statement).str();
+    }
+    else {
+        _statement = name + " = " + _statement;
+    }
 }
 
 
@@ -85,8 +186,10 @@ void CompileVisitor::Visit(
 #define VISIT_NUMBER_VERTEX(                                                   \
     type)                                                                      \
 void CompileVisitor::Visit(                                                    \
-    NumberVertex<type>&)                                                       \
+    NumberVertex<type>& vertex)                                                \
 {                                                                              \
+    _statement += constant_argument(#type, number<type>(#type,                 \
+        vertex.value()));                                                      \
 }
 
 VISIT_NUMBER_VERTICES(VISIT_NUMBER_VERTEX)
@@ -102,19 +205,31 @@ void CompileVisitor::Visit(
     _statement += (boost::format(
         "_operations->operation(\"%1%\")->execute(std::vector<std::shared_ptr<fern::language::Argument>>{"
         ) % operation.name()).str();
-    visit_expressions(vertex.expressions());
+
+    for(size_t i = 0; i < vertex.expressions().size(); ++i) {
+        if(i > 0) {
+            _statement += ", ";
+        }
+
+        add_value(*vertex.expressions()[i]);
+    }
 
     _statement +=
-        "}))";
+        "})";
 }
 
 
 void CompileVisitor::Visit(
-    StatementVertex& vertex)
+    ScopeVertex& vertex)
 {
-    _statement.clear();
-    AstVisitor::Visit(vertex);
-    // _statement += ";";
+    for(auto const& statement: vertex.statements()) {
+        _statement.clear();
+        statement->Accept(*this);
+
+        if(!_statement.empty()) {
+            _body.emplace_back(_statement);
+        }
+    }
 }
 
 
@@ -124,6 +239,7 @@ void CompileVisitor::Visit(
     _header.clear();
     _statement.clear();
     _body.clear();
+    _names.clear();
     _module.clear();
 
     // Determine inputs and outputs of the module.
@@ -153,24 +269,22 @@ void CompileVisitor::Visit(
 
     // Prepare the module's inputs.
     for(size_t i = 0; i < visitor.inputs().size(); ++i) {
+        _names.insert(visitor.inputs()[i]);
         _body.emplace_back((boost::format(
-            "std::shared_ptr<fern::language::Argument> %1%(data_sources[%2%]->read());"
+            "std::shared_ptr<fern::language::Argument> %1%(data_sources[%2%]->read())"
             ) % visitor.inputs()[i] % i).str());
     }
 
     // Add the module's C++ code to the body.
-    AstVisitor::Visit(vertex);
+    Visit(*vertex.scope());
 
     // Write out the results, if needed.
     for(size_t i = 0; i < visitor.outputs().size(); ++i) {
         _body.emplace_back((boost::format(
-            "if(%1% < data_syncs.size()) {"
-            ) % i).str());
-        _body.emplace_back((boost::format(
-            "    data_syncs[%1%]->write(*%2%);"
+            "if(%1% < data_syncs.size()) {\n"
+            "        data_syncs[%1%]->write(*%2%);\n"
+            "    }"
             ) % i % visitor.outputs()[i]->name()).str());
-        _body.emplace_back(
-            "}");
     }
 
     // Now put the new module's code in the header and module strings.
@@ -180,7 +294,14 @@ void CompileVisitor::Visit(
 
     _header = (boost::format(
 "#pragma once\n"
+"#include <cstdint>\n"
+"#include <limits>\n"
+"#include <memory>\n"
+"#include <string>\n"
+"#include <vector>\n"
 "#include \"fern/language/compiler/module.h\"\n"
+"#include \"fern/language/feature/core/constant_attribute.h\"\n"
+"#include \"fern/language/operation/core/attribute_argument.h\"\n"
 "#include \"fern/language/operation/std/operations.h\"\n"
 "\n"
 "\n"
@@ -250,8 +371,9 @@ void CompileVisitor::Visit(
 
 
 void CompileVisitor::Visit(
-    StringVertex& /* vertex */)
+    StringVertex& vertex)
 {
+    _statement += constant_argument("std::string", string(vertex.value()));
 }
 
 
diff --git a/source/fern/language/compiler/compile_visitor.h b/source/fern/language/compiler/compile_visitor.h
index 82c5f11..2fa955f 100644
--- a/source/fern/language/compiler/compile_visitor.h
+++ b/source/fern/language/compiler/compile_visitor.h
@@ -7,6 +7,9 @@
 // from Geoneric (http://www.geoneric.eu/contact).
 // -----------------------------------------------------------------------------
 #pragma once
+#include <set>
+#include <string>
+#include <vector>
 #include "fern/language/ast/visitor/ast_visitor.h"
 #include "fern/language/operation/core/operations.h"
 
@@ -53,8 +56,13 @@ private:
     //! The C++ code of the translated tree.
     std::vector<std::string> _body;
 
+    //! Names declared by the C++ code.
+    std::set<std::string> _names;
+
     std::string    _module;
 
+    void           add_value           (ExpressionVertex& vertex);
+
     void           Visit               (AssignmentVertex& vertex);
 
     void           Visit               (IfVertex& vertex);
@@ -85,7 +93,7 @@ private:
 
     void           Visit               (OperationVertex& vertex);
 
-    void           Visit               (StatementVertex& vertex);
+    void           Visit               (ScopeVertex& vertex);
 
     void           Visit               (StringVertex& vertex);
 
-- 
2.43.0


From 18284b90eb9f1628e121e13aeab96cb91e8ca066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 96/97] fix: compiler: refuse calls of unknown operations and
 wrong numbers of arguments

---
 source/fern/language/compiler/compile_visitor.cc | 15 +++++++++++++++
 source/fern/language/compiler/compile_visitor.h  |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/source/fern/language/compiler/compile_visitor.cc b/source/fern/language/compiler/compile_visitor.cc
index ba2a4f9..e71a09b 100644
--- a/source/fern/language/compiler/compile_visitor.cc
+++ b/source/fern/language/compiler/compile_visitor.cc
@@ -12,6 +12,7 @@
 #include <sstream>
 #include "fern/core/path.h"
 #include "fern/core/string.h"
+#include "fern/core/validate_error.h"
 #include "fern/language/ast/core/vertices.h"
 #include "fern/language/ast/visitor/io_visitor.h"
 
@@ -200,8 +201,21 @@ VISIT_NUMBER_VERTICES(VISIT_NUMBER_VERTEX)
 void CompileVisitor::Visit(
     OperationVertex& vertex)
 {
+    if(!_operations->has_operation(vertex.name())) {
+        throw ValidateError(_source_name, vertex.line(), vertex.col(),
+            Exception::messages().format_message(
+                MessageId::UNDEFINED_OPERATION, vertex.name()));
+    }
+
     Operation const& operation(*_operations->operation(vertex.name()));
 
+    if(vertex.expressions().size() != operation.arity()) {
+        throw ValidateError(_source_name, vertex.line(), vertex.col(),
+            Exception::messages().format_message(
+                MessageId::WRONG_NUMBER_OF_ARGUMENTS, vertex.name(),
+                operation.arity(), vertex.expressions().size()));
+    }
+
     _statement += (boost::format(
         "_operations->operation(\"%1%\")->execute(std::vector<std::shared_ptr<fern::language::Argument>>{"
         ) % operation.name()).str();
@@ -236,6 +250,7 @@ void CompileVisitor::Visit(
 void CompileVisitor::Visit(
     ModuleVertex& vertex)
 {
+    _source_name = vertex.source_name();
     _header.clear();
     _statement.clear();
     _body.clear();
diff --git a/source/fern/language/compiler/compile_visitor.h b/source/fern/language/compiler/compile_visitor.h
index 2fa955f..5148fd0 100644
--- a/source/fern/language/compiler/compile_visitor.h
+++ b/source/fern/language/compiler/compile_visitor.h
@@ -48,6 +48,9 @@ private:
 
     std::string    _header_filename;
 
+    //! Name of the source of the tree being translated.
+    std::string    _source_name;
+
     std::string    _header;
 
     //! A statement of C++ code.
-- 
2.43.0


From 275140e59da57d705b0b4de22a138866ffdb7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:21 +0000
Subject: [PATCH 97/97] fix: compiler: names of variables can be C++ keywords

---
 .../fern/language/compiler/compile_visitor.cc | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/fern/language/compiler/compile_visitor.cc b/source/fern/language/compiler/compile_visitor.cc
index e71a09b..47433f4 100644
--- a/source/fern/language/compiler/compile_visitor.cc
+++ b/source/fern/language/compiler/compile_visitor.cc
@@ -97,6 +97,17 @@ std::string string(
     return stream.str();
 }
 
+
+//! Return name of the C++ variable for the value called \a name.
+/*!
+  The name itself may mean something in C++, or be used by the generated code.
+*/
+std::string variable(
+    std::string const& name)
+{
+    return name + "_";
+}
+
 } // Anonymous namespace
 
 
@@ -149,7 +160,7 @@ void CompileVisitor::add_value(
 void CompileVisitor::Visit(
     AssignmentVertex& vertex)
 {
-    std::string const& name(vertex.target()->name());
+    std::string const name(variable(vertex.target()->name()));
 
     add_value(*vertex.expression());
 
@@ -180,7 +191,7 @@ void CompileVisitor::Visit(
 void CompileVisitor::Visit(
     NameVertex& vertex)
 {
-    _statement += vertex.name();
+    _statement += variable(vertex.name());
 }
 
 
@@ -284,10 +295,10 @@ void CompileVisitor::Visit(
 
     // Prepare the module's inputs.
     for(size_t i = 0; i < visitor.inputs().size(); ++i) {
-        _names.insert(visitor.inputs()[i]);
+        _names.insert(variable(visitor.inputs()[i]));
         _body.emplace_back((boost::format(
             "std::shared_ptr<fern::language::Argument> %1%(data_sources[%2%]->read())"
-            ) % visitor.inputs()[i] % i).str());
+            ) % variable(visitor.inputs()[i]) % i).str());
     }
 
     // Add the module's C++ code to the body.
@@ -299,7 +310,7 @@ void CompileVisitor::Visit(
             "if(%1% < data_syncs.size()) {\n"
             "        data_syncs[%1%]->write(*%2%);\n"
             "    }"
-            ) % i % visitor.outputs()[i]->name()).str());
+            ) % i % variable(visitor.outputs()[i]->name())).str());
     }
 
     // Now put the new module's code in the header and module strings.
-- 
2.43.0

