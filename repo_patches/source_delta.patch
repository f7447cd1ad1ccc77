From 7846b5314fa07293fe6557a065a8e144c6a291d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 01/58] fix: ceil and floor of negative values and of values
 next to the type limits

---
 include/eirin/math.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..1e4a896 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -33,13 +33,14 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> f
 {
     using fixed = fixed_num<T, I, f, r>;
     constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    if(value > 0)
-        value += frac_mult - 1;
-    // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    const T value = fp.internal_value();
+    const T whole = static_cast<T>(value / frac_mult * frac_mult);
+    if(value <= whole)
+        return fixed::from_internal_value(whole);
+    // the next integer is not representable.
+    if(whole > std::numeric_limits<T>::max() - frac_mult)
+        return fixed::from_internal_value(std::numeric_limits<T>::max());
+    return fixed::from_internal_value(static_cast<T>(whole + frac_mult));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
@@ -47,14 +48,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r>
 {
     using fixed = fixed_num<T, I, f, r>;
     constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
-    if(value < 0)
-        value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    const T value = fp.internal_value();
+    const T whole = static_cast<T>(value / frac_mult * frac_mult);
+    if(value >= whole)
+        return fixed::from_internal_value(whole);
+    return fixed::from_internal_value(static_cast<T>(whole - frac_mult));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From c0dc75e5e3bd3135224cb730866db2909d736902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:18 +0000
Subject: [PATCH 02/58] fix: integral_part of a negative non-integral value was
 one too large

---
 include/eirin/fixed.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..f11d379 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -264,15 +264,9 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
-        if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
-        result >>= fraction; // Drop fractional part
-
-        return result;
+        // Drop fractional part, the division truncates towards zero so this is the magnitude.
+        const Type result = static_cast<Type>(m_value / (static_cast<Type>(1) << fraction));
+        return signbit(*this) ? static_cast<Type>(-result) : result;
     }
 
     EIRIN_ALWAYS_INLINE constexpr Type fractional_part() const noexcept
-- 
2.43.0


From ecfa7ac556b626955ddbe2d40045a8a86beffb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:39 +0000
Subject: [PATCH 03/58] fix: conversion to floating point dropped the
 fractional part

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f11d379..4fd2321 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -289,7 +289,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(fraction_multiplier);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From a95c7ca6542c3a1c9cf85e477123e7887c42b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:57 +0000
Subject: [PATCH 04/58] fix: widening conversion between fixed types overflowed
 in the source type

---
 include/eirin/fixed.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4fd2321..090edd2 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -491,7 +491,9 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        // scale in the wider type, the source type may not hold the scaled value.
+        using wide = std::conditional_t<(sizeof(T) > sizeof(IntermediateType)), T, IntermediateType>;
+        return fixed_num(static_cast<Type>(static_cast<wide>(inner_value) * (wide(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From ef0f7f7fc5e994f393a261e3ad11e1ec78b55101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:39 +0000
Subject: [PATCH 05/58] fix: rounding construction from a positive floating
 point value halved it

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 090edd2..7c8d0d2 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
-- 
2.43.0


From 53318e94619d41ea946d252b593d18765e685b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:54 +0000
Subject: [PATCH 06/58] fix: rounding multiplication and division returned
 twice the quotient

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 7c8d0d2..c66bd18 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -331,7 +331,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + _value % 2), raw_value_construct_tag{});
         }
         else
         {
@@ -344,7 +344,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + _value % 2);
         }
         else
         {
@@ -365,7 +365,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + _value % 2), raw_value_construct_tag{});
         }
         else
         {
@@ -378,7 +378,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + _value % 2);
         }
         else
         {
@@ -613,7 +613,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + _value % 2), raw_value_construct_tag{});
         }
         else
         {
@@ -638,7 +638,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + _value % 2);
         }
         else
         {
-- 
2.43.0


From c56e036e8fbdf219468aa9e6d9cbcea748291f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 07/58] fix: division of a negative value by an unsigned
 integer

---
 include/eirin/fixed.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index c66bd18..dcc19b5 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,23 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    // divide by an integer, an unsigned divisor must not turn a negative dividend into an unsigned one.
+    template <std::integral T>
+    static constexpr inline Type divide_value(Type value, T val) noexcept
+    {
+        if constexpr(std::is_signed_v<Type> && std::is_unsigned_v<T>)
+        {
+            using U = std::make_unsigned_t<Type>;
+            const U magnitude = value < 0 ? static_cast<U>(U(0) - static_cast<U>(value)) : static_cast<U>(value);
+            const U quotient = static_cast<U>(magnitude / val);
+            return static_cast<Type>(value < 0 ? static_cast<U>(U(0) - quotient) : quotient);
+        }
+        else
+        {
+            return static_cast<Type>(value / val);
+        }
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -389,7 +406,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_value(m_value, val);
         return *this;
     }
 
@@ -602,7 +619,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_value(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -626,7 +643,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_value(m_value, val);
         return *this;
     }
 
-- 
2.43.0


From 4a1a13bce6921b2aedebaa138ace96c64d6e2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:24 +0000
Subject: [PATCH 08/58] fix: remainder of a fixed number by an integer did not
 compile

---
 include/eirin/fixed.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index dcc19b5..5cad51c 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -421,6 +421,11 @@ public:
         return *this;
     }
 
+    constexpr inline fixed_num& operator%=(const std::integral auto& val) noexcept
+    {
+        return *this %= fixed_num(val);
+    }
+
     constexpr inline fixed_num operator-() const noexcept
     {
         return fixed_num(-m_value, raw_value_construct_tag{});
-- 
2.43.0


From 6bf757e0598f684fd53ba5f709321f856c3cc6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:37 +0000
Subject: [PATCH 09/58] fix: nearly comparisons overflowed for distant values
 and unsigned types

---
 include/eirin/fixed.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5cad51c..6537e8a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -468,26 +468,24 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
+        return !nearly_gt(other) && !nearly_lt(other);
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
+        return nearly_gt(other) || nearly_lt(other);
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div > nearly_compare_epsilon().m_value;
+        // the difference may not be representable in the store type.
+        return m_value > other.m_value &&
+               static_cast<IntermediateType>(m_value) - static_cast<IntermediateType>(other.m_value) > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value;
+        return other.nearly_gt(*this);
     }
 
     constexpr inline bool nearly_gt_eq(const fixed_num& other) const noexcept
-- 
2.43.0


From 1626b7467a87e26147dd3c2d3b90f0ccbb091a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:29 +0000
Subject: [PATCH 10/58] fix: text with many integer digits wrapped around and
 passed the overflow check

---
 include/eirin/fixed.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 6537e8a..e89fe6d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -719,6 +719,7 @@ namespace detail
             next();
         }
 
+        constexpr I max_integer = (static_cast<I>(std::numeric_limits<T>::max()) >> fixed::precision) + 1;
         I int_part = I(0), dec_part = I(0);
         // parse the integer part.
         while(pos < len && str[pos] != '.')
@@ -726,6 +727,9 @@ namespace detail
             if(!check_ch(str[pos]))
                 return false;
             int_part = int_part * 10 + (next() - '0');
+            // not representable any more, stop before the accumulator wraps around.
+            if(int_part > max_integer)
+                return false;
         }
 
         I fixed_value;
@@ -925,6 +929,7 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         next();
     }
 
+    constexpr int64_t max_integer = (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1;
     int64_t int_part = 0, dec_part = 0;
     // parse the integer part.
     while(has_next() && peek() != '.')
@@ -934,6 +939,11 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             return false;
         }
         int_part = int_part * 10 + (next() - '0');
+        // not representable any more, stop before the accumulator wraps around.
+        if(int_part > max_integer)
+        {
+            return false;
+        }
     }
     int64_t fixed_value;
     // parse the decimal part.
@@ -1005,6 +1015,7 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         next();
     }
 
+    constexpr I max_integer = (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1;
     I int_part = I(0), dec_part = I(0);
     // parse the integer part.
     while(has_next() && peek() != '.')
@@ -1012,6 +1023,9 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         if(!check_ch(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        // not representable any more, stop before the accumulator wraps around.
+        if(int_part > max_integer)
+            return false;
     }
     I fixed_value = I(0);
     // parse the decimal part.
-- 
2.43.0


From dfe2ec6b9b54af861c77fe21430d85be5dbb6224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:42 +0000
Subject: [PATCH 11/58] fix: text of the most negative value was rejected and a
 sign was accepted for unsigned types

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e89fe6d..dece4af 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -758,6 +758,8 @@ namespace detail
             fixed_value = int_part << fixed::precision;
         }
 
+        if(negative)
+            fixed_value = -fixed_value;
         // check overflow
         if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
         {
@@ -765,8 +767,6 @@ namespace detail
         }
 
         fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
         return true;
     }
 } // namespace detail
@@ -973,6 +973,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         fixed_value = int_part << fixed32::precision;
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
     {
@@ -980,8 +982,6 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
@@ -1049,6 +1049,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         fixed_value = (int_part << f);
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
@@ -1056,8 +1058,6 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
-- 
2.43.0


From d648c270d2c51edcaf4692b2718889cc00b4dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:46 +0000
Subject: [PATCH 12/58] fix: decimal digits: lost precision, unchecked tail and
 scale overflow on long fractions

---
 include/eirin/fixed.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index dece4af..2395b31 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -738,16 +738,17 @@ namespace detail
         {
             ++pos;
             constexpr auto max_fraction = ((std::int64_t)1 << fixed::precision) - 1;
+            // keeps the scaled decimal part representable in the intermediate type.
+            constexpr I max_decimal = ((I(1) << (sizeof(I) * 8 - 2 - fixed::precision)) - 9) / 10;
             I divisor = I(1);
             while(pos < len)
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
-                {
-                    break;
-                }
                 auto digit = next() - '0';
+                // the remaining digits are below the precision.
+                if(divisor > max_fraction || dec_part > max_decimal)
+                    continue;
                 dec_part = dec_part * 10 + digit;
                 divisor *= 10;
             }
@@ -958,11 +959,12 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
+            auto digit = next() - '0';
+            // the remaining digits are below the precision.
+            if(divisor > max_fraction)
             {
-                break;
+                continue;
             }
-            auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
@@ -1032,13 +1034,18 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
+        constexpr I max_fraction = (I(1) << f) - I(1);
+        // keeps the scaled decimal part representable in the intermediate type.
+        constexpr I max_decimal = ((I(1) << (sizeof(I) * 8 - 2 - f)) - 9) / 10;
         I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(!check_ch(peek()))
                 break;
             auto digit = next() - '0';
+            // the remaining digits are below the precision.
+            if(divisor > max_fraction || dec_part > max_decimal)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-- 
2.43.0


From 7fdfe2c426c5d3d5683855245bf9a0c1cf31c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:00 +0000
Subject: [PATCH 13/58] fix: stream extraction computed in the store type and
 terminated when the stream throws

---
 include/eirin/fixed.hpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 2395b31..2878f52 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1069,7 +1069,7 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
     using fixed = fixed_num<T, I, f, r>;
     bool negative = false;
@@ -1096,36 +1096,49 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    constexpr I max_integer = (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1;
+    I int_part = I(0), dec_part = I(0);
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
         if(!isdigit(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        auto digit = next() - '0';
+        // not representable any more, do not let the accumulator wrap around.
+        if(int_part <= max_integer)
+            int_part = int_part * 10 + digit;
     }
+    I fixed_value = int_part > max_integer ? (max_integer + 1) << f : int_part << f;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
-        constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
+        constexpr I max_fraction = (I(1) << f) - I(1);
+        // keeps the scaled decimal part representable in the intermediate type.
+        constexpr I max_decimal = ((I(1) << (sizeof(I) * 8 - 2 - f)) - 9) / 10;
+        I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
+            if(!isdigit(peek()))
                 break;
             auto digit = next() - '0';
+            // the remaining digits are below the precision.
+            if(divisor > max_fraction || dec_part > max_decimal)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
+        fixed_value += (dec_part << f) / divisor;
     }
-    else
+    if(negative)
+        fixed_value = -fixed_value;
+    // check overflow
+    if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
-        fp = fixed::from_internal_value(int_part << f);
+        is.setstate(std::ios_base::failbit);
+        return is;
     }
-    if(negative)
-        fp = -fp;
+    fp = fixed::from_internal_value(static_cast<T>(fixed_value));
     return is;
 }
 
-- 
2.43.0


From 95b562ebbaac48402cb162dd74514a8ce4f02376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:16 +0000
Subject: [PATCH 14/58] fix: invalid literals returned an uninitialised value

---
 include/eirin/fixed.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 2878f52..babe403 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -808,7 +808,8 @@ inline namespace literals
     constexpr inline fixed32 operator""_f32(const char* str, size_t len)
     {
         fixed32 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid fixed point literal");
         return fp;
     }
 
@@ -818,7 +819,8 @@ inline namespace literals
         auto len = sizeof...(chars);
         const char str[] = {chars...};
         fixed32 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid fixed point literal");
         return fp;
     }
 
@@ -826,7 +828,8 @@ inline namespace literals
     constexpr inline fixed64 operator""_f64(const char* str, size_t len)
     {
         fixed64 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid fixed point literal");
         return fp;
     }
 
@@ -836,7 +839,8 @@ inline namespace literals
         auto len = sizeof...(chars);
         const char str[] = {chars...};
         fixed64 fp;
-        detail::parse(str, len, fp);
+        if(!detail::parse(str, len, fp))
+            EIRIN_THROW_EXCEPTION(std::invalid_argument, "invalid fixed point literal");
         return fp;
     }
 #endif
-- 
2.43.0


From f368880bae8c2771c6c6be8e81f73c7b5f75bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:30 +0000
Subject: [PATCH 15/58] fix: parsing a string view read past its end

---
 include/eirin/io/parse.hpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..ab77d9e 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,15 +8,10 @@
 
 namespace eirin::io
 {
-/**
- * @brief Parse fixed point number from string
- *
- * @param start the beginning pos of the pointer.
- * @param stop the end pos of the pointer.
- * @param out tge output fixed point number
- * @return the pos of the pointer.
- */
-inline const char* parse(const char* start, const char* stop, fixed32& out)
+namespace detail
+{
+template <typename Stop>
+inline const char* parse_until(const char* start, Stop is_stop, fixed32& out)
 {
     size_t pos = 0;
     bool negative = false;
@@ -31,7 +26,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     };
     auto has_next = [&]() -> bool
     {
-        return *start != *stop;
+        return !is_stop(start);
     };
 
     if(has_next() && peek() == '-')
@@ -85,14 +80,25 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         out = -out;
     return start;
 }
+} // namespace detail
+
+/**
+ * @brief Parse fixed point number from string
+ *
+ * @param start the beginning pos of the pointer.
+ * @param stop the end pos of the pointer.
+ * @param out tge output fixed point number
+ * @return the pos of the pointer.
+ */
+inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_until(start, [stop](const char* p) { return *p == *stop; }, out);
+}
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
-        out
-    );
+    const char* const end = str.data() + str.size();
+    return detail::parse_until(str.data(), [end](const char* p) { return p == end; }, out);
 }
 } // namespace eirin::io
 
-- 
2.43.0


From f37bfe892dae75fce87813aa0962df0e6c0acd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 16/58] fix: io::parse computed in 32 bits and accepted
 unrepresentable values

---
 include/eirin/io/parse.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index ab77d9e..58f7944 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -40,7 +40,8 @@ inline const char* parse_until(const char* start, Stop is_stop, fixed32& out)
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    constexpr int64_t max_integer = (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1;
+    int64_t int_part = 0, dec_part = 0;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -49,35 +50,44 @@ inline const char* parse_until(const char* start, Stop is_stop, fixed32& out)
             return start -= pos;
         }
         int_part = int_part * 10 + (next() - '0');
+        // not representable any more, stop before the accumulator wraps around.
+        if(int_part > max_integer)
+        {
+            return start -= pos;
+        }
     }
+    int64_t fixed_value = int_part << fixed32::precision;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
+        int64_t divisor = 1;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
+            auto digit = next() - '0';
+            // the remaining digits are below the precision.
+            if(divisor > max_fraction)
             {
-                break;
+                continue;
             }
-            auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
+        fixed_value += (dec_part << fixed32::precision) / divisor;
     }
-    else
+    if(negative)
+        fixed_value = -fixed_value;
+    // check overflow
+    if(fixed_value > std::numeric_limits<int32_t>::max() || fixed_value < std::numeric_limits<int32_t>::min())
     {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
+        return start -= pos;
     }
-    if(negative)
-        out = -out;
+    out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
     return start;
 }
 } // namespace detail
-- 
2.43.0


From 9c1caaa0431fdda03ec9a7834e9b35a34bfb40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:28 +0000
Subject: [PATCH 17/58] fix: sine of a small negative angle had the wrong sign

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 1e4a896..edfe2ec 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -221,7 +221,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
     if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From 9eb5edf89ec33424a4f02d87de19cf4522a2a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 18/58] fix: atan diverged outside of [-1, 1], which also broke
 asin and acos

---
 include/eirin/math.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index edfe2ec..53a1198 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -291,11 +291,18 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
     // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
     auto abs_fp = abs(fp);
-    auto x = abs_fp;
+    // the magnitude of the lowest value is not representable.
+    if(abs_fp < fixed(0))
+        abs_fp = max_value<fixed>();
+    // the fitting is only valid in [0, 1], use atan(x) = pi / 2 - atan(1 / x) outside.
+    const bool reciprocal = abs_fp > fixed(1);
+    auto x = reciprocal ? fixed(1) / abs_fp : abs_fp;
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(reciprocal)
+        result = pi / fixed(2) - result;
     // if the input is negative, return negative result.
-    if(fp.signbit_mask() & fp.internal_value())
+    if(signbit(fp))
         result = -result;
     return result;
     // another calc algorithm: x / (1 + 0.28125 * x * x)
-- 
2.43.0


From f008cc72b288e562dbea6f239d009b4c38a113d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 19/58] fix: asin and acos accepted the lowest value

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 53a1198..2b06a5f 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -329,7 +329,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -342,7 +342,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From b8ecba7cca72f53718feb195b2a12fe2b190e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:04 +0000
Subject: [PATCH 20/58] fix: 32-bit sqrt assumed 16 fractional bits and
 returned garbage for negative values

---
 include/eirin/math.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 2b06a5f..5a9d349 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -102,19 +102,12 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
     using fixed = fixed_num<T, I, f, r>;
     // test if T is int32_t, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    // the bit hack below is written for 16 fractional bits.
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
-        uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        if(fp < fixed(0))
+            return fixed(-1);
+        uint64_t t, q = 0, b = 0x40000000UL, v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
-- 
2.43.0


From 7222a00000a891a6c4976f44cdcf068471bb6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:17 +0000
Subject: [PATCH 21/58] fix: exp used half of its linear coefficient

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 5a9d349..4c99f07 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -524,7 +524,7 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From 8643c5507d19f7fd5c4a32f983479910d81675e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:30 +0000
Subject: [PATCH 22/58] fix: exp of a negative value whose reciprocal overflows
 returned garbage or trapped

---
 include/eirin/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4c99f07..acf1bfc 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -538,7 +538,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
     if(fp == fixed(0))
         return fixed(1);
     if(fp < fixed(0))
-        return fixed(1) / detail::exp_expand(-fp);
+    {
+        // e^x = (1/e)^-n * e^(x - n) with n = floor(x), which cannot overflow.
+        const fixed whole = floor(fp);
+        return pow(fixed(1) / numbers::e_v<fixed>(), -static_cast<T>(whole)) * detail::exp_expand(fp - whole);
+    }
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From 4f4141534db1c6c4ea7cdca08bfa7edef3d003a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:44 +0000
Subject: [PATCH 23/58] fix: pow with a negative exponent divided by an over-
 or underflowed power

---
 include/eirin/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index acf1bfc..49c8115 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -496,7 +496,15 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
         for(auto i = b; e != 0; e /= 2, i *= i)
         {
             if(e % 2 != 0)
+            {
+                // the power underflowed, so its reciprocal is not representable.
+                if(i == fixed(0))
+                    return res < fixed(0) ? min_value<fixed>() : max_value<fixed>();
                 res /= i;
+            }
+            // the power overflows, so its reciprocal vanishes.
+            if(e / 2 != 0 && (static_cast<I>(i.internal_value()) * i.internal_value() >> f) > static_cast<I>(std::numeric_limits<T>::max()))
+                return fixed(0);
         }
     }
     else
-- 
2.43.0


From f68f01f2a741835ca7cc6e776da3cc71fdd92759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:00 +0000
Subject: [PATCH 24/58] fix: pow with a fixed exponent terminated on a negative
 base

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 49c8115..e34f61d 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -557,7 +557,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -570,6 +570,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From db800e48ec231102eb54a638e1dbec20931c75bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:13 +0000
Subject: [PATCH 25/58] fix: log2 shifted out of range for many fractional bits

---
 include/eirin/math.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e34f61d..e59c69a 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -414,17 +414,18 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    T b = static_cast<T>(1) << (f - 1), y = 0;
+    I x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-    while(x < (static_cast<T>(1u) << f))
+    while(x < (static_cast<I>(1) << f))
     {
         x <<= 1;
         y -= (static_cast<T>(1u) << f);
     }
 
-    while(x >= (static_cast<T>(2u) << f))
+    while(x >= (static_cast<I>(2) << f))
     {
         x >>= 1;
         y += (static_cast<T>(1u) << f);
@@ -434,7 +435,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     for(size_t i = 0; i < f; ++i)
     {
         z = (z * z) >> f;
-        if(z >= (static_cast<T>(2u) << f))
+        if(z >= (static_cast<I>(2) << f))
         {
             z >>= 1;
             y += b;
-- 
2.43.0


From 25861ca31cd813471e371e583ed7f87a7677df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 26/58] fix: an empty format specification swallowed the
 closing brace before an alignment character

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..ef957ec 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -407,7 +407,8 @@ public:
         {
             auto nxt = it;
             ++nxt;
-            if(nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
+            // a '}' ends the specification, what follows it is not part of it.
+            if(*it != '}' && nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
             {
                 st.fill_ch = *it;
                 st.align_mode = *nxt;
-- 
2.43.0


From 76146412b3bc2298292d4a2de7dd50a347981ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:25 +0000
Subject: [PATCH 27/58] fix: ':' as the format fill character was ignored

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index ef957ec..85aeb76 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -393,7 +393,8 @@ public:
             auto p = it;
             while(p != end && *p >= '0' && *p <= '9')
                 ++p;
-            if(p != end && *p == ':')
+            // without an index the ':' is a fill character.
+            if(p != it && p != end && *p == ':')
                 it = p + 1;
         }
 
-- 
2.43.0


From 7bc18a8a4abcee707eae2cb4225f49b3644e53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:23 +0000
Subject: [PATCH 28/58] fix: zero padding of a formatted number was put before
 the sign or after the digits

---
 include/eirin/io/format.hpp | 46 +++++++++++++++----------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 85aeb76..468919e 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -106,28 +106,9 @@ public:
         std::basic_string<CharT> body;
 
         if(int_only)
-        {
-            if(m_state.zero_pad && m_state.width_val > 0)
-            {
-                std::size_t total = prefix.size() + digit_str.size();
-                if(static_cast<int>(total) < m_state.width_val)
-                {
-                    std::size_t zeros = static_cast<std::size_t>(m_state.width_val) - total;
-                    body = prefix + std::basic_string<CharT>(zeros, static_cast<CharT>('0')) + digit_str;
-                }
-                else
-                {
-                    body = prefix + digit_str;
-                }
-            }
-            else
-            {
-                body = prefix + digit_str;
-            }
-            return output_aligned(out, body);
-        }
+            return output_padded(out, prefix, digit_str);
 
-        body = prefix + digit_str;
+        body = digit_str;
         {
             // fractional part
             T frac_val = fp.fractional_part();
@@ -178,7 +159,7 @@ public:
             }
         }
 
-        return output_aligned(out, body);
+        return output_padded(out, prefix, body);
     }
 
 private:
@@ -213,11 +194,11 @@ private:
             uval = static_cast<unsigned_type>(int_val);
         }
 
-        std::basic_string<CharT> body;
-        append_sign(body, neg);
+        std::basic_string<CharT> prefix, body;
+        append_sign(prefix, neg);
 
         if(m_state.alt_form)
-            append_alt_prefix(body, 16, upper);
+            append_alt_prefix(prefix, 16, upper);
 
         const auto& digits = detail::digit_map_lower;
 
@@ -237,7 +218,7 @@ private:
             body += rev;
         }
 
-        return output_aligned(out, body);
+        return output_padded(out, prefix, body);
     }
 
     // Convert an integer to a string in the given base
@@ -323,6 +304,17 @@ private:
         }
     }
 
+    // zero padding goes between the prefix and the digits.
+    template <typename OutputIt>
+    OutputIt output_padded(OutputIt out, const std::basic_string<CharT>& prefix, const std::basic_string<CharT>& digit_str) const
+    {
+        std::size_t total = prefix.size() + digit_str.size();
+        std::size_t zeros = 0;
+        if(m_state.zero_pad && m_state.width_val > 0 && total < static_cast<std::size_t>(m_state.width_val))
+            zeros = static_cast<std::size_t>(m_state.width_val) - total;
+        return output_aligned(out, prefix + std::basic_string<CharT>(zeros, static_cast<CharT>('0')) + digit_str);
+    }
+
     template <typename OutputIt>
     OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
     {
@@ -331,7 +323,7 @@ private:
             return std::copy(body.begin(), body.end(), out);
 
         std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;
-        CharT pad_ch = m_state.zero_pad ? static_cast<CharT>('0') : m_state.fill_ch;
+        CharT pad_ch = m_state.fill_ch;
 
         char eff_align = (m_state.align_mode == '\0') ? '>' : m_state.align_mode;
 
-- 
2.43.0


From c07f332d6e74685e5880a9618379ffe61ebf9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 29/58] fix: a number formatted with precision zero ended with
 a decimal point

---
 include/eirin/io/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 468919e..1013150 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -121,7 +121,7 @@ public:
             bool has_frac = (frac_val != 0);
             int used_prec = 0;
 
-            if(has_frac)
+            if(has_frac && m_state.precision != 0)
             {
                 body.push_back(static_cast<CharT>('.'));
 
-- 
2.43.0


From f632120eb939b69f7dae0f45c43abc1cf0e38cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:58 +0000
Subject: [PATCH 30/58] fix: formatting a fraction of 28 or more bits of a
 32-bit type overflowed

---
 include/eirin/io/format.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1013150..bd784c3 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -131,14 +131,15 @@ public:
 
                 int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
 
-                T frac_bits = frac_val;
+                // the scaled fraction may not be representable in the store type.
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From 5a7e1cde2758747b094390989cc2a429673b87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 31/58] fix: stream output of unsigned types and of wide
 fractions overflowed the store type

---
 include/eirin/fixed.hpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index babe403..b9a9204 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -540,30 +540,22 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        // the scaled fraction may not be representable in the store type.
+        IntermediateType divisor = static_cast<IntermediateType>(1) << fraction;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
-        Type int_part;
-        if(value == val.signbit_mask())
+        // the magnitude of the lowest value is not representable in the store type.
+        IntermediateType value = val.m_value;
+        if(value < 0)
         {
             put_char('-');
-            int_part = ~(value >> fraction) + 1;
-            value = 0;
-        }
-        else
-        {
-            if(value < 0)
-            {
-                put_char('-');
-                value = -value;
-            }
-            int_part = value >> fraction;
+            value = -value;
         }
+        IntermediateType int_part = value >> fraction;
         value %= divisor;
         std::array<char, 514> buffer;
         auto iter = buffer.begin();
-- 
2.43.0


From e8fefc693e1a09d09029ce68a0ec7865b7f2da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:56 +0000
Subject: [PATCH 32/58] fix: CORDIC sine of a negative angle used its two's
 complement bits as the magnitude

---
 include/eirin/ext/cordic.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..2d89341 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,14 +81,12 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
-
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
-        
+
+        // abs Q, which cannot overflow once it is scaled.
+        Q = Q < const_0 ? -Q : Q;
+
         const bool in_second_half = (Q > pi);
         Q = in_second_half ? (Q - pi) : Q;
 
-- 
2.43.0


From 6d7c92d2237f96c1b051fef84d8aab28d53d4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:11 +0000
Subject: [PATCH 33/58] fix: PCG mixing shifted by an amount taken from the
 state, which is undefined

---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..7da6b5e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From bcf7b3f53972476f2efd8903c7bdf57e39841152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:26 +0000
Subject: [PATCH 34/58] fix: reseeding a PCG kept its position, so it did not
 reproduce the sequence of the seed

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 7da6b5e..d5fe8c5 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 0f1ff31ed17c727ab6b5c2f7a871fac20b7f41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:42 +0000
Subject: [PATCH 35/58] fix: PCG advertised a larger range than it generates,
 so distributions never reached their upper half

---
 include/eirin/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index d5fe8c5..fef1dec 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -124,7 +124,8 @@ public:
 
     static constexpr result_type max() noexcept
     {
-        return std::numeric_limits<result_type>::max();
+        // the bits which the output permutation can set.
+        return (std::numeric_limits<result_type>::max() & 0x7FFFFFFE) | (std::numeric_limits<result_type>::max() >> 8);
     }
 
     friend bool operator==(const permuted_congruential_engine& lhs, const permuted_congruential_engine& rhs)
-- 
2.43.0


From 335059ac5ebae99920d40525ab1ddb7e780740e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 36/58] fix: distribution adapters ignored the parameters
 passed with a call

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From ac3ce573974fff836fa1ca2d00a64950d9880442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:23 +0000
Subject: [PATCH 37/58] fix: cbrt of negative and large values divided by an
 overflowed square

---
 include/eirin/math.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e59c69a..1ec59cb 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -363,9 +363,15 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    if(abs(fp) < fixed::epsilon() || fp == fixed(0))
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
+    const bool negative = signbit(fp);
+    // the magnitude of the lowest value is not representable.
+    if(negative)
+        fp = fp == min_value<fixed>() ? max_value<fixed>() : -fp;
+    // start at a power of two just above the root, so that its square is representable.
+    const int exponent = detail::find_msb(fp.internal_value()) - static_cast<int>(f);
+    auto x = fixed::from_internal_value(static_cast<T>(T(1) << (static_cast<int>(f) + (exponent >= 0 ? exponent / 3 + 1 : exponent / 3))));
     auto iter_count = 0;
     constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
 
@@ -374,7 +380,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
         x = (fp / (x * x) + x * 2) / 3;
         ++iter_count;
     }
-    return x;
+    return negative ? -x : x;
 }
 
 /**
-- 
2.43.0


From 63c4713ea351f4af89389f21da2d95a7f6834ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 38/58] fix: SIMD angle reduction kept only the low half of the
 product with AVX-512DQ

---
 include/eirin/ext/simd_math.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..e6c3083 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,7 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // Lane-wise (a * b) >> 32, the product needs 128 bits so that even AVX-512 has no instruction for it.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +143,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From 88efb8a2c95a55029313b0fde237eabf4892adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 39/58] fix: two lane angle reduction multiplied 32-bit halves
 without scaling and swapped its lanes

---
 include/eirin/ext/simd_math.hpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index e6c3083..ddd5b54 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -196,6 +196,25 @@ namespace detail
     //     static const __m256i threshold = _mm256_set1_epi64x((0.00015_f64).internal_value());
     // }
 
+    // (a * b) >> 32 for two lanes, see avx_mm256_mullo_epi64.
+    EIRIN_ALWAYS_INLINE __m128i sse_mm_mullo_epi64(__m128i __A, __m128i __B)
+    {
+        const __m128i zero = _mm_setzero_si128();
+        __m128i sign_mask_a = _mm_sub_epi64(zero, _mm_srli_epi64(__A, 63));
+        __m128i sign_mask_b = _mm_sub_epi64(zero, _mm_srli_epi64(__B, 63));
+        __m128i a_lo = _mm_sub_epi64(_mm_xor_si128(__A, sign_mask_a), sign_mask_a);
+        __m128i b_lo = _mm_sub_epi64(_mm_xor_si128(__B, sign_mask_b), sign_mask_b);
+        __m128i a_hi = _mm_srli_epi64(a_lo, 32);
+        __m128i b_hi = _mm_srli_epi64(b_lo, 32);
+
+        // the multiplication only reads the low 32 bits of the lanes.
+        __m128i mid = _mm_add_epi64(_mm_mul_epu32(a_hi, b_lo), _mm_mul_epu32(a_lo, b_hi));
+        __m128i result = _mm_add_epi64(_mm_add_epi64(mid, _mm_slli_epi64(_mm_mul_epu32(a_hi, b_hi), 32)), _mm_srli_epi64(_mm_mul_epu32(a_lo, b_lo), 32));
+
+        __m128i sign = _mm_xor_si128(sign_mask_a, sign_mask_b);
+        return _mm_sub_epi64(_mm_xor_si128(result, sign), sign);
+    }
+
     EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
     {
         // these [2 * i64] vector stores the fixed point internal represent.
@@ -203,10 +222,14 @@ namespace detail
         static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
         static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
         static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
+        // n = trunc(x / (2pi))
+        __m128i n = sse_mm_mullo_epi64(x, inv_two_pi);
+        __m128i sign = _mm_sub_epi64(_mm_setzero_si128(), _mm_srli_epi64(n, 63));
+        n = _mm_sub_epi64(_mm_xor_si128(n, sign), sign);
+        n = _mm_slli_epi64(_mm_srli_epi64(n, 32), 32);
+        n = _mm_sub_epi64(_mm_xor_si128(n, sign), sign);
         // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
+        return _mm_sub_epi64(x, sse_mm_mullo_epi64(n, two_pi));
     }
 } // namespace detail
 
@@ -224,7 +247,7 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed6
 {
     __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
     __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
+    int64_t r1 = _mm_extract_epi64(rv, 0), r2 = _mm_extract_epi64(rv, 1);
     return {FIXED64(r1), FIXED64(r2)};
 }
 
-- 
2.43.0


From cb51ce273b893f4d3350d78accbf230b1762b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:07 +0000
Subject: [PATCH 40/58] fix: atan relied on the overflow of abs to recognise
 the lowest value

---
 include/eirin/math.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 1ec59cb..662bf7a 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -283,10 +283,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
     // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
-    auto abs_fp = abs(fp);
     // the magnitude of the lowest value is not representable.
-    if(abs_fp < fixed(0))
-        abs_fp = max_value<fixed>();
+    auto abs_fp = signbit(fp) && fp == min_value<fixed>() ? max_value<fixed>() : abs(fp);
     // the fitting is only valid in [0, 1], use atan(x) = pi / 2 - atan(1 / x) outside.
     const bool reciprocal = abs_fp > fixed(1);
     auto x = reciprocal ? fixed(1) / abs_fp : abs_fp;
-- 
2.43.0


From a76a9f0d7b3be19584dbec7d86b33605f72e1832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:44 +0000
Subject: [PATCH 41/58] fix: remainder of the lowest value by the smallest
 negative step trapped

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index b9a9204..0315ef9 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -412,12 +412,12 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
-        return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(m_value) % other.m_value), raw_value_construct_tag{});
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
-        m_value %= other.m_value;
+        m_value = static_cast<Type>(static_cast<IntermediateType>(m_value) % other.m_value);
         return *this;
     }
 
-- 
2.43.0


From 23ab97592eaceaf0b961843d0c1b39910bc27538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:22 +0000
Subject: [PATCH 42/58] fix: numeric_limits reported unsigned fixed point types
 as signed

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 0315ef9..5b728d4 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1162,7 +1162,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     using fixed_type = eirin::fixed_num<T, I, f, r>;
 
     static constexpr bool is_specialized = true;
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = std::is_signed_v<T>;
     static constexpr bool is_integer = false;
     static constexpr bool is_exact = true;
     static constexpr bool has_infinity = false;
-- 
2.43.0


From 55eaedfaebbacf4e8194d9a2dd1a428890ea834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:43 +0000
Subject: [PATCH 43/58] fix: rounding construction from floating point was one
 step off for large significands

---
 include/eirin/fixed.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5b728d4..4cc9086 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -193,9 +193,17 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * fraction_multiplier;
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // adding one half before truncating would itself be rounded for large values.
+                const T rest = scaled - static_cast<T>(m_value);
+                if(rest >= T{0.5})
+                    ++m_value;
+                else if(rest <= T{-0.5})
+                    --m_value;
+            }
         }
     };
 
-- 
2.43.0


From b41ffa253360ee069ca600f062cd1af1e8047b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:30 +0000
Subject: [PATCH 44/58] fix: sin of the lowest value returned its argument

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 662bf7a..de7b4d4 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -213,7 +213,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // we reconginzed the sin(x) = x when x is small enough.
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
-    if(abs(fp) < fixed(0.00015))
+    // the magnitude of the lowest value is not representable, so do not compare abs(fp).
+    if(fp < fixed(0.00015) && fp > -fixed(0.00015))
         return fp;
 
     // reduce the range to [0, 1] due to sin is
-- 
2.43.0


From fc36be61f3dd7bcf91522293ec5de137b601949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:49 +0000
Subject: [PATCH 45/58] fix: cbrt of the lowest value was zero

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index de7b4d4..4572cf9 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -362,7 +362,8 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon() || fp == fixed(0))
+    // the magnitude of the lowest value is not representable, so do not compare abs(fp).
+    if((fp < fixed::epsilon() && fp > -fixed::epsilon()) || fp == fixed(0))
         return fixed(0);
     const bool negative = signbit(fp);
     // the magnitude of the lowest value is not representable.
-- 
2.43.0


From 3ba1a8afc3f289cc4348720ce851ade75d95f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 46/58] fix: cordic_sine declared constexpr was not usable in
 constant expressions

---
 include/eirin/ext/cordic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 2d89341..4d205a0 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -19,7 +19,7 @@ namespace detail
     }
 
     template <fixed_point T>
-    const T K = cordic_k<T>();
+    inline constexpr T K = cordic_k<T>();
 
     template <typename T, typename I, unsigned int f, bool r>
     struct cordic_angels
-- 
2.43.0


From 043128abfecf02c065958eeffd85a58ad4411a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 47/58] fix: writing a random engine to a stream changed the
 stream's base

---
 include/eirin/random.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index fef1dec..96ece44 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -141,10 +141,10 @@ public:
     template <typename charT, typename charTraits>
     inline friend std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine& obj)
     {
-        // set fmtflags to dec and left, padding with space.
-        os.setf(std::ios::fmtflags(os.flags() | std::ios::dec | std::ios_base::left), std::ios::basefield);
-        // write the current state into the stream.
+        // write the current state into the stream in decimal, and leave its format flags as they were.
+        const std::ios_base::fmtflags flags = os.flags(std::ios_base::dec | std::ios_base::left);
         os << obj.m_seed << ' ' << obj.m_state;
+        os.flags(flags);
         return os;
     }
 };
-- 
2.43.0


From 8a385292b4a3ce054add78fc5bf62615c8f07e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 48/58] fix: the headers did not compile with exceptions
 disabled

---
 include/eirin/error.hpp |  2 ++
 include/eirin/macro.hpp | 13 +++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/eirin/error.hpp b/include/eirin/error.hpp
index e3d3bda..00860d0 100644
--- a/include/eirin/error.hpp
+++ b/include/eirin/error.hpp
@@ -1,7 +1,9 @@
 #ifndef EIRIN_MATH_ERROR_HPP
 #define EIRIN_MATH_ERROR_HPP
 
+#include <exception>
 #include <stdexcept>
+#include "macro.hpp"
 
 namespace eirin
 {
diff --git a/include/eirin/macro.hpp b/include/eirin/macro.hpp
index b6e52ac..d6f5f36 100644
--- a/include/eirin/macro.hpp
+++ b/include/eirin/macro.hpp
@@ -15,12 +15,13 @@
 #    define EIRIN_ALWAYS_INLINE inline
 #endif
 
-#if defined(__EXCEPTIONS) && __EXCEPTIONS != 1
-#    define EIRIN_NO_EXCEPTIONS
-#endif
-
-#if defined(_MSC_VER) && !defined(_CPPUNWIND)
-#    define EIRIN_NO_EXCEPTIONS
+// GCC and Clang do not define __EXCEPTIONS at all when exceptions are disabled.
+#ifndef EIRIN_NO_EXCEPTIONS
+#    if defined(__GNUC__) && !defined(__EXCEPTIONS)
+#        define EIRIN_NO_EXCEPTIONS
+#    elif defined(_MSC_VER) && !defined(_CPPUNWIND)
+#        define EIRIN_NO_EXCEPTIONS
+#    endif
 #endif
 
 // operate system detection
-- 
2.43.0


From 00c219f3e97e817d3acd0d90235426ac906ad166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:32 +0000
Subject: [PATCH 49/58] fix: bbp_calc_pi did not compile for types of at most
 32 bits

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index f4da867..37463b5 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -163,7 +163,7 @@ namespace pi_calc
     {
 // BBP formula: pi = sum(k=0~inf){1/16^k * (4/(8k+1) - 2/(8k+4) - 1/(8k+5) - 1/(8k+6))}
 #ifdef EIRIN_MATH_HAS_INT128
-        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
+        using intermediate_t = std::conditional_t<sizeof(T) <= 4, std::conditional_t<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>;
 #else
         if constexpr(sizeof(T) <= 2)
             using intermediate_t = int32_t;
-- 
2.43.0


From 6d29d97b84587e997dd3d7edb4cfeeb813bd273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 50/58] fix: bbp_calc_pi divided the terms by 16^(4k) instead
 of 16^k

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index 37463b5..704fd89 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -178,7 +178,7 @@ namespace pi_calc
         for(int k = 0; k < N; ++k)
         {
             intermediate_t factor = frac_mult;
-            for(int i = 0; i < 4 * k; ++i)
+            for(int i = 0; i < k; ++i)
                 factor /= 16;
 
             intermediate_t term1 = (4 * factor) / (8 * k + 1);
-- 
2.43.0


From 16c6f45c0ac38b6260d94be514902880cabcd5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 51/58] fix: lut_calc_sin of negative angles

---
 include/eirin/detail/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index 704fd89..fe8de70 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -230,7 +230,7 @@ namespace lut
         static auto lut = func_ptr_lut<N>(__sin);
         // linear interpolation
         constexpr auto two_pi = eirin::numbers::pi_f64 * 2_f64;
-        auto x_mod = x - two_pi * (x / two_pi).integral_part();
+        auto x_mod = x - two_pi * static_cast<int64_t>(x / two_pi);
         bool negate = false;
         if(x_mod >= eirin::numbers::pi_f64)
         {
-- 
2.43.0


From 43e22bcada80a936f91b80bb0d5cbd5c9157e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 52/58] fix: lut_calc_sin looked up a table with a different
 step

---
 include/eirin/detail/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index fe8de70..db5d22a 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -210,7 +210,8 @@ namespace lut
     std::array<fixed64, N> func_ptr_lut(fixed64 (*func)(fixed64))
     {
         std::array<fixed64, N> lut = {};
-        constexpr fixed64 step = eirin::numbers::pi_f64 / fixed64(N);
+        // lut_calc_sin expects the last entry at pi.
+        constexpr fixed64 step = eirin::numbers::pi_f64 / fixed64(N - 1);
         for(size_t i = 0; i < N; ++i)
         {
             lut[i] = func(step * fixed64(i));
-- 
2.43.0


From 7588a02ff044d504d62b6c0bbf245f3ff0c8ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 53/58] fix: reading from a stream passed any character to
 isdigit

---
 include/eirin/fixed.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4cc9086..b7935e2 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1090,6 +1090,11 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         auto ch = is.peek();
         return !is.eof();
     };
+    // isdigit is only defined for the values of unsigned char.
+    auto check_ch = [](CharT ch) -> bool
+    {
+        return '0' <= ch && ch <= '9';
+    };
     if(!has_next())
     {
         return is;
@@ -1105,7 +1110,7 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
-        if(!isdigit(peek()))
+        if(!check_ch(peek()))
             break;
         auto digit = next() - '0';
         // not representable any more, do not let the accumulator wrap around.
@@ -1123,7 +1128,7 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         I divisor = I(1);
         while(has_next())
         {
-            if(!isdigit(peek()))
+            if(!check_ch(peek()))
                 break;
             auto digit = next() - '0';
             // the remaining digits are below the precision.
-- 
2.43.0


From e68a5d72cd40ef679525d3d380d0c795512d4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 54/58] fix: a width or precision which does not fit an int
 overflowed

---
 include/eirin/io/format.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index bd784c3..7b2aa60 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -442,7 +442,7 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
+                st.width_val = append_digit(st.width_val, static_cast<int>(*it - '0'));
                 ++it;
             }
         }
@@ -454,7 +454,7 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.precision = st.precision * 10 + static_cast<int>(*it - '0');
+                st.precision = append_digit(st.precision, static_cast<int>(*it - '0'));
                 ++it;
             }
         }
@@ -497,6 +497,14 @@ public:
     }
 
 private:
+    // a number which is not representable is an error.
+    static constexpr int append_digit(int value, int digit)
+    {
+        if(value > (std::numeric_limits<int>::max() - digit) / 10)
+            EIRIN_THROW_EXCEPTION(std::format_error, "number is too big");
+        return value * 10 + digit;
+    }
+
     my_base_fmt m_fmt;
 };
 
-- 
2.43.0


From 6207cff52ce97dcfc95b9865c86a390413302399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 55/58] fix: sqrt of large values overflowed while measuring
 its error

The square of the Newton iterate may lie above the largest value, the
subtraction in the stopping test was then undefined (and sqrt of such a value
not a constant expression).
---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4572cf9..8198928 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -172,7 +172,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         for(int i = 0; i < 5; ++i)
         {
             x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            // the square, or its distance to the argument, may not be representable in the store type.
+            const I diff = static_cast<I>(val) - ((static_cast<I>(x.internal_value()) * x.internal_value()) >> f);
+            if((diff < 0 ? -diff : diff) < eps.internal_value())
                 break;
         }
         return x;
-- 
2.43.0


From f8de5e6131fb971ed6d98c583f34839e810df3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 56/58] fix: cbrt overflowed while measuring its error

The iteration starts above the root, where the cube may not be representable,
and the subtraction in the stopping test was then undefined.
---
 include/eirin/math.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 8198928..0295eb9 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -376,8 +376,14 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
     auto x = fixed::from_internal_value(static_cast<T>(T(1) << (static_cast<int>(f) + (exponent >= 0 ? exponent / 3 + 1 : exponent / 3))));
     auto iter_count = 0;
     constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
+    // the cube, or its distance to the argument, may not be representable in the store type.
+    auto error = [&]() -> I
+    {
+        const I diff = static_cast<I>(fp.internal_value()) - ((static_cast<I>((x * x).internal_value()) * x.internal_value()) >> f);
+        return diff < 0 ? -diff : diff;
+    };
 
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    while(error() >= precision.internal_value() && iter_count <= iter_max)
     {
         x = (fp / (x * x) + x * 2) / 3;
         ++iter_count;
-- 
2.43.0


From 9f0dc24c24c94bf5f4a13a3bed452bbf538f9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 57/58] fix: table sine of the lowest arguments overflowed

The whole number of turns was rounded down, its product with two pi is then
not representable next to the lowest value. Take the remainder instead.
---
 include/eirin/detail/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index db5d22a..419b820 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -231,7 +231,9 @@ namespace lut
         static auto lut = func_ptr_lut<N>(__sin);
         // linear interpolation
         constexpr auto two_pi = eirin::numbers::pi_f64 * 2_f64;
-        auto x_mod = x - two_pi * static_cast<int64_t>(x / two_pi);
+        auto x_mod = x % two_pi;
+        if(x_mod < fixed64(0))
+            x_mod += two_pi;
         bool negate = false;
         if(x_mod >= eirin::numbers::pi_f64)
         {
-- 
2.43.0


From a022bbd267d10528c1bd730702f3b226e5f11ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 58/58] fix: headers did not compile on targets without a
 128-bit integer type (32-bit GCC and Clang)

---
 include/eirin/detail/int128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/detail/int128.hpp b/include/eirin/detail/int128.hpp
index b2f917a..f897978 100644
--- a/include/eirin/detail/int128.hpp
+++ b/include/eirin/detail/int128.hpp
@@ -18,7 +18,7 @@
 #    include <__msvc_int128.hpp>
 #endif
 
-#ifdef __GNUC__
+#if defined(__GNUC__) && defined(__SIZEOF_INT128__)
 #    define EIRIN_MATH_HAS_INT128
 // Built-in __int128
 #    define EIRIN_MATH_DETAIL_BUILTIN__INT128
-- 
2.43.0

