From 9d76d90291140e702958686f82ab51d80f93c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 01/56] fix: reject NaN and max()+1 when converting floats to
 integers with checking

---
 include/dynd/assignment.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..1c6d93c 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -14,6 +14,15 @@ namespace dynd {
 
 struct inexact_check_t {};
 
+// True when truncating s to the integer type RetType is well defined. NaN is not in range, and neither is the
+// value one above max(), which is what max() itself becomes when ArgType has too few bits to hold it.
+template <typename RetType, typename ArgType>
+bool in_integral_range(ArgType s) {
+  return s >= static_cast<ArgType>(std::numeric_limits<RetType>::min()) &&
+         s <= static_cast<ArgType>(std::numeric_limits<RetType>::max()) &&
+         s < static_cast<ArgType>(std::numeric_limits<RetType>::max() / 2 + 1) * 2;
+}
+
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_complex<RetType>::value && is_signed<ArgType>::value && is_integral<ArgType>::value, RetType>
 nocheck_cast(ArgType arg) {
@@ -26,7 +35,7 @@ std::enable_if_t<is_complex<RetType>::value && is_signed<ArgType>::value && is_i
 check_cast(ArgType arg, inexact_check_t) {
   typename RetType::value_type d = static_cast<typename RetType::value_type>(arg);
 
-  if (static_cast<ArgType>(d) != arg) {
+  if (!in_integral_range<ArgType>(d) || static_cast<ArgType>(d) != arg) {
     std::stringstream ss;
     ss << "inexact value while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << arg << " to " << ndt::make_type<RetType>() << " value " << d;
@@ -42,7 +51,7 @@ std::enable_if_t<is_floating_point<RetType>::value && is_unsigned<ArgType>::valu
 check_cast(ArgType arg, inexact_check_t) {
   RetType res = static_cast<RetType>(arg);
 
-  if (static_cast<ArgType>(res) != arg) {
+  if (!in_integral_range<ArgType>(res) || static_cast<ArgType>(res) != arg) {
     std::stringstream ss;
     ss << "inexact value while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << arg << " to " << ndt::make_type<RetType>() << " value " << res;
@@ -57,7 +66,7 @@ std::enable_if_t<is_complex<RetType>::value && is_unsigned<ArgType>::value && is
 check_cast(ArgType arg, inexact_check_t) {
   typename RetType::value_type res = static_cast<typename RetType::value_type>(arg);
 
-  if (static_cast<ArgType>(res) != arg) {
+  if (!in_integral_range<ArgType>(res) || static_cast<ArgType>(res) != arg) {
     std::stringstream ss;
     ss << "inexact value while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << arg << " to " << ndt::make_type<RetType>() << " value " << res;
@@ -230,7 +239,7 @@ std::enable_if_t<is_floating_point<RetType>::value && is_signed<ArgType>::value
 check_cast(ArgType s, inexact_check_t) {
   RetType d = static_cast<RetType>(s);
 
-  if (static_cast<ArgType>(d) != s) {
+  if (!in_integral_range<ArgType>(d) || static_cast<ArgType>(d) != s) {
     std::stringstream ss;
     ss << "inexact value while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>() << " value " << d;
@@ -245,7 +254,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
+  if (!in_integral_range<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -268,7 +277,7 @@ overflow_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
+  if (!in_integral_range<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -285,7 +294,7 @@ std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && i
                  RetType>
 overflow_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
+  if (!in_integral_range<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -306,7 +315,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
+  if (!in_integral_range<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -509,7 +518,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
+  if (!in_integral_range<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -538,7 +547,7 @@ fractional_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
+  if (!in_integral_range<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -561,7 +570,7 @@ std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && i
                  RetType>
 fractional_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
+  if (!in_integral_range<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -590,7 +599,7 @@ fractional_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
+  if (!in_integral_range<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
-- 
2.43.0


From 7b16a7a5f6e77d618b3dc2c8880ff5e5679f1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 02/56] fix: raise an error for every integer division and
 modulo without a result

---
 include/dynd/kernels/arithmetic.hpp          | 31 +++++++++++++++++++-
 include/dynd/kernels/compound_div_kernel.hpp | 13 ++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..33fb48d 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,9 +163,35 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
   }
 
+  // The one quotient of signed integers that does not fit their type.
+  template <typename T>
+  std::enable_if_t<is_signed_integral<T>::value, bool> is_division_overflow(T a, T b) {
+    return a == std::numeric_limits<T>::min() && b == -1;
+  }
+
+  template <typename T>
+  std::enable_if_t<!is_signed_integral<T>::value, bool> is_division_overflow(T DYND_UNUSED(a), T DYND_UNUSED(b)) {
+    return false;
+  }
+
+  // Raise an error when the integer division a / b has no result.
+  template <typename Arg0Type, typename Arg1Type>
+  std::enable_if_t<needs_zero_check<Arg0Type, Arg1Type>()> check_integer_division(Arg0Type a, Arg1Type b) {
+    if (b == 0) {
+      throw dynd::zero_division_error("Integer division or modulo by zero.");
+    }
+    if (is_division_overflow<decltype(a / b)>(a, b)) {
+      throw std::overflow_error("Integer division or modulo overflow.");
+    }
+  }
+
+  template <typename Arg0Type, typename Arg1Type>
+  std::enable_if_t<!needs_zero_check<Arg0Type, Arg1Type>()> check_integer_division(Arg0Type DYND_UNUSED(a),
+                                                                                   Arg1Type DYND_UNUSED(b)) {}
+
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
   template <typename Arg0Type, typename Arg1Type, bool check>                                                          \
   struct inline_##NAME##_base;                                                                                         \
@@ -176,6 +202,9 @@ namespace detail {
       if (b == 0) {                                                                                                    \
         throw dynd::zero_division_error("Integer division or modulo by zero.");                                        \
       }                                                                                                                \
+      if (is_division_overflow<decltype(a OP b)>(a, b)) {                                                              \
+        throw std::overflow_error("Integer division or modulo overflow.");                                             \
+      }                                                                                                                \
       return a OP b;                                                                                                   \
     }                                                                                                                  \
   };                                                                                                                   \
diff --git a/include/dynd/kernels/compound_div_kernel.hpp b/include/dynd/kernels/compound_div_kernel.hpp
index 3bb7668..b823c6f 100644
--- a/include/dynd/kernels/compound_div_kernel.hpp
+++ b/include/dynd/kernels/compound_div_kernel.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <dynd/kernels/arithmetic.hpp>
 #include <dynd/kernels/base_kernel.hpp>
 #include <dynd/kernels/base_strided_kernel.hpp>
 
@@ -22,6 +23,8 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
+      dynd::detail::check_integer_division(*reinterpret_cast<dst_type *>(dst),
+                                           *reinterpret_cast<src0_type *>(src[0]));
       *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src[0]);
     }
 
@@ -30,6 +33,8 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
+        dynd::detail::check_integer_division(*reinterpret_cast<dst_type *>(dst),
+                                             *reinterpret_cast<src0_type *>(src0));
         *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src0);
         dst += dst_stride;
         src0 += src0_stride;
@@ -44,6 +49,8 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
+      dynd::detail::check_integer_division(*reinterpret_cast<dst_type *>(dst),
+                                           *reinterpret_cast<src0_type *>(src[0]));
       *reinterpret_cast<dst_type *>(dst) =
           static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src[0]));
     }
@@ -53,6 +60,8 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
+        dynd::detail::check_integer_division(*reinterpret_cast<dst_type *>(dst),
+                                             *reinterpret_cast<src0_type *>(src0));
         *reinterpret_cast<dst_type *>(dst) =
             static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src0));
         dst += dst_stride;
@@ -68,6 +77,8 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
+      dynd::detail::check_integer_division(*reinterpret_cast<dst_type *>(dst),
+                                           *reinterpret_cast<src0_type *>(src[0]));
       *reinterpret_cast<dst_type *>(dst) =
           *reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src[0]) ? true : false;
     }
@@ -77,6 +88,8 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
+        dynd::detail::check_integer_division(*reinterpret_cast<dst_type *>(dst),
+                                             *reinterpret_cast<src0_type *>(src0));
         *reinterpret_cast<dst_type *>(dst) =
             *reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src0) ? true : false;
         dst += dst_stride;
-- 
2.43.0


From f79e3311faa4972af50a9f823d2260211dcc8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 03/56] fix: promote float16 with bool and integers to float32
 in either operand order

---
 src/dynd/type_promotion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index 715ae58..b822545 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -132,11 +132,12 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
         return tp0_val;
       }
       switch (tp1_val.get_base_id()) {
-      // Integer type sizes don't affect float type sizes
+      // Integer type sizes don't affect float type sizes, except
+      // require at least float32
       case bool_kind_id:
       case int_kind_id:
       case uint_kind_id:
-        return tp0_val;
+        return tp0_val.unchecked_get_builtin_id() != float16_id ? tp0_val : ndt::make_type<float>();
       case float_kind_id:
         return ndt::type(reinterpret_cast<ndt::base_type *>(max(
                              max(tp0_val.unchecked_get_builtin_id(), tp1_val.unchecked_get_builtin_id()), float32_id)),
-- 
2.43.0


From 0aad14fac690862ec6ff6ac3027db64ffbe89d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 04/56] fix: store the missing value of option[uint32] in
 assign_na_builtin

---
 src/dynd/types/option_type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..6ced891 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -25,6 +25,9 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int32_id:
     *reinterpret_cast<int32_t *>(data) = DYND_INT32_NA;
     return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
   case int64_id:
     *reinterpret_cast<int64_t *>(data) = DYND_INT64_NA;
     return;
-- 
2.43.0


From 6b5e41fb768f2860768cd6b3c5dacd1fe4357540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 05/56] fix: replace the inline size instead of or-ing it in
 when resizing a small byte string

---
 include/dynd/types/sso_bytestring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..23c8cec 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -180,7 +180,8 @@ public:
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                    (static_cast<uint64_t>(new_size) << 56));
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From d74921da942c9edef8da4ecc3f92e13b3ea9a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 06/56] fix: intrusive_ptr assignment acquires before
 releasing; operator!= compares for inequality

---
 include/dynd/config.hpp | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/include/dynd/config.hpp b/include/dynd/config.hpp
index 31d7381..882cca8 100644
--- a/include/dynd/config.hpp
+++ b/include/dynd/config.hpp
@@ -275,39 +275,20 @@ public:
 
   /** Assignment */
   intrusive_ptr &operator=(const intrusive_ptr &rhs) {
-    if (m_ptr != 0) {
-      intrusive_ptr_release(m_ptr);
-    }
-    if (rhs.m_ptr != 0) {
-      m_ptr = rhs.m_ptr;
-      intrusive_ptr_retain(m_ptr);
-    } else {
-      m_ptr = 0;
-    }
+    // Acquire before releasing, rhs may be *this or be owned by the object being released
+    intrusive_ptr(rhs).swap(*this);
     return *this;
   }
 
   /** Move assignment */
   intrusive_ptr &operator=(intrusive_ptr &&rhs) {
-    if (m_ptr != 0) {
-      intrusive_ptr_release(m_ptr);
-    }
-    m_ptr = rhs.m_ptr;
-    rhs.m_ptr = 0;
+    intrusive_ptr(std::move(rhs)).swap(*this);
     return *this;
   }
 
   /** Assignment from raw memory_block pointer */
   intrusive_ptr &operator=(T *rhs) {
-    if (m_ptr != nullptr) {
-      intrusive_ptr_release(m_ptr);
-    }
-
-    m_ptr = rhs;
-    if (m_ptr != nullptr) {
-      intrusive_ptr_retain(m_ptr);
-    }
-
+    intrusive_ptr(rhs).swap(*this);
     return *this;
   }
 
@@ -343,7 +324,7 @@ bool operator==(const intrusive_ptr<T> &lhs, std::nullptr_t DYND_UNUSED(rhs)) {
 
 template <typename T>
 bool operator!=(const intrusive_ptr<T> &lhs, const intrusive_ptr<T> &rhs) {
-  return lhs.get() == rhs.get();
+  return lhs.get() != rhs.get();
 }
 
 template <typename T>
-- 
2.43.0


From 359c13f30c7380110b284659dbd0a8bea79c2ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 07/56] fix: advance through every chunk when assigning option
 arrays of more than one chunk

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..3d60146 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
-- 
2.43.0


From c5c366581ff88af88d8d592bbc0d6c825798b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 08/56] fix: pass the element arrmeta on below a kept dimension
 of a reduction

---
 include/dynd/callables/base_reduction_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..80a1336 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -189,7 +189,7 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, nullptr, (broadcast || keepdim) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
-- 
2.43.0


From b563adee1ce4e4dec72622388021d2f8e2347022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 09/56] fix: reduce every row when a reduction's destination
 stride is zero

---
 include/dynd/kernels/reduction_kernel.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..bbd033b 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -264,16 +264,17 @@ namespace nd {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->single(dst, child_src);
+          char *inner_child_src[NArg];
           for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
+            inner_child_src[j] = child_src[j] + src_stride_first[j];
+            child_src[j] += src_stride[j];
           }
 
-          reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
+          reduction_child->strided(dst, 0, inner_child_src, this->src_stride, size_first);
 
           for (std::size_t i = 1; i != count; ++i) {
-            reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
+            reduction_child->strided(dst, 0, child_src, this->src_stride, _size);
 
-            dst += dst_stride;
             for (size_t j = 0; j < NArg; ++j) {
               child_src[j] += src_stride[j];
             }
@@ -568,15 +569,21 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
         kernel_prefix *reduction_child = this->get_child();
 
-        char *child_src[NArg] = {src[0]};
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
+
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->strided(dst, this->dst_stride, child_src, this->src_stride_first, this->_size);
+          if (src_stride_first[0] == 0) {
+            reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
+          }
 
-          dst += dst_stride_first;
           for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
+            child_src[j] += src_stride[j];
           }
 
           for (size_t i = 1; i != count; ++i) {
-- 
2.43.0


From 3cf606a7dc27c3138496bef9048f37af84343892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 10/56] fix: start a sum from a zero of the type being summed

---
 src/dynd/sum.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/dynd/sum.cpp b/src/dynd/sum.cpp
index 756064d..383c1c8 100644
--- a/src/dynd/sum.cpp
+++ b/src/dynd/sum.cpp
@@ -5,6 +5,7 @@
 
 #include <dynd/arithmetic.hpp>
 #include <dynd/callable.hpp>
+#include <dynd/callables/apply_function_callable.hpp>
 #include <dynd/callables/multidispatch_callable.hpp>
 #include <dynd/callables/sum_callable.hpp>
 #include <dynd/functional.hpp>
@@ -19,14 +20,31 @@ static std::vector<ndt::type> func_ptr(const ndt::type &DYND_UNUSED(dst_tp), siz
   return {src_tp[0].get_dtype()};
 }
 
+static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc),
+                                           const ndt::type *DYND_UNUSED(src_tp)) {
+  return {dst_tp};
+}
+
+// The starting value has to be of the type being summed.
+template <typename T>
+T zero() {
+  return T(0);
+}
+
+template <typename T>
+using zero_callable = nd::functional::apply_function_callable<T (*)(), &zero<T>>;
+
+typedef type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float16, float, double,
+                      dynd::complex<float>, dynd::complex<double>>
+    sum_types;
+
 } // unnamed namespace
 
 DYND_API nd::callable nd::sum = nd::functional::reduction(
-    [] { return 0; },
+    nd::make_callable<nd::multidispatch_callable<1>>(
+        ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
+        nd::callable::make_all<zero_callable, sum_types>(func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
                                            {ndt::make_type<ndt::scalar_kind_type>()}),
-        nd::callable::make_all<nd::sum_callable,
-                               type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t,
-                                             float16, float, double, dynd::complex<float>, dynd::complex<double>>>(
-            func_ptr)));
+        nd::callable::make_all<nd::sum_callable, sum_types>(func_ptr)));
-- 
2.43.0


From f82a2b0b8b3ad2819a6d87df5bf1cf430168b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 11/56] fix: start min and max from infinity for floating-point
 elements

---
 src/dynd/statistics.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/dynd/statistics.cpp b/src/dynd/statistics.cpp
index 15f21bf..8f143c3 100644
--- a/src/dynd/statistics.cpp
+++ b/src/dynd/statistics.cpp
@@ -3,8 +3,7 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
-#include <dynd/callables/limits/max_callable.hpp>
-#include <dynd/callables/limits/min_callable.hpp>
+#include <dynd/callables/apply_function_callable.hpp>
 #include <dynd/callables/max_callable.hpp>
 #include <dynd/callables/mean_callable.hpp>
 #include <dynd/callables/min_callable.hpp>
@@ -29,13 +28,30 @@ static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_
   return {dst_tp};
 }
 
+// The starting values may not be passed over by any element, infinities included.
+template <typename T>
+T min_identity() {
+  return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
+}
+
+template <typename T>
+T max_identity() {
+  return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
+}
+
+template <typename T>
+using min_identity_callable = nd::functional::apply_function_callable<T (*)(), &min_identity<T>>;
+
+template <typename T>
+using max_identity_callable = nd::functional::apply_function_callable<T (*)(), &max_identity<T>>;
+
 } // unnnamed namespace
 
 DYND_API nd::callable nd::max = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::min_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
-                                                                       uint16_t, uint32_t, uint64_t, float, double>>(
+        nd::callable::make_all<max_identity_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+                                                                   uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
@@ -47,8 +63,8 @@ DYND_API nd::callable nd::mean = nd::make_callable<nd::mean_callable>(ndt::make_
 DYND_API nd::callable nd::min = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::max_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
-                                                                       uint16_t, uint32_t, uint64_t, float, double>>(
+        nd::callable::make_all<min_identity_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+                                                                   uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
-- 
2.43.0


From db676997d3c8caa46e8f6d7c2d77e2259fad263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 12/56] fix: declare in-place add and divide with the one
 operand they take

---
 include/dynd/compound_arithmetic.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dynd/compound_arithmetic.hpp b/include/dynd/compound_arithmetic.hpp
index ea5f33b..fbf6552 100644
--- a/include/dynd/compound_arithmetic.hpp
+++ b/include/dynd/compound_arithmetic.hpp
@@ -20,8 +20,7 @@ typedef type_sequence<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, in
 template <template <typename, typename> class KernelType, typename TypeSequence>
 nd::callable make_compound_arithmetic() {
   const ndt::type &tp = ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::any_kind_type>()}),
+      ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>()}),
       ndt::make_type<ndt::struct_type>());
 
   auto dispatcher = nd::callable::make_all<KernelType, TypeSequence, TypeSequence>(
-- 
2.43.0


From 301c22816db78feda3f2b826bf4d52538f68c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 13/56] fix: adapt types built from the same parts compare
 equal

---
 src/dynd/types/adapt_type.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/adapt_type.cpp b/src/dynd/types/adapt_type.cpp
index c6d56a7..fab057c 100644
--- a/src/dynd/types/adapt_type.cpp
+++ b/src/dynd/types/adapt_type.cpp
@@ -37,5 +37,7 @@ bool ndt::adapt_type::operator==(const base_type &rhs) const {
     return false;
   }
 
-  return false;
+  const adapt_type &other = static_cast<const adapt_type &>(rhs);
+  return m_value_tp == other.m_value_tp && m_storage_tp == other.m_storage_tp &&
+         m_forward.get() == other.m_forward.get() && m_inverse.get() == other.m_inverse.get();
 }
-- 
2.43.0


From 05c6267bcc22dfc119e3287d73f99fc180c9ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 14/56] fix: named and power dimensions over a variadic element
 are variadic

---
 include/dynd/types/pow_dimsym_type.hpp  | 4 +++-
 include/dynd/types/typevar_dim_type.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dynd/types/pow_dimsym_type.hpp b/include/dynd/types/pow_dimsym_type.hpp
index 4d9ad20..fcc235b 100644
--- a/include/dynd/types/pow_dimsym_type.hpp
+++ b/include/dynd/types/pow_dimsym_type.hpp
@@ -21,7 +21,9 @@ namespace ndt {
 
   public:
     pow_dimsym_type(type_id_t id, const type &base_tp, const std::string &exponent, const type &element_type)
-        : base_dim_type(id, element_type, 0, 1, 0, type_flag_symbolic, false), m_base_tp(base_tp),
+        : base_dim_type(id, element_type, 0, 1, 0,
+                        type_flag_symbolic | (element_type.get_flags() & type_flags_value_inherited), false),
+          m_base_tp(base_tp),
           m_exponent(exponent) {
       if (base_tp.is_scalar() || base_tp.extended<base_dim_type>()->get_element_type().get_id() != void_id) {
         std::stringstream ss;
diff --git a/include/dynd/types/typevar_dim_type.hpp b/include/dynd/types/typevar_dim_type.hpp
index 21fe202..2f26834 100644
--- a/include/dynd/types/typevar_dim_type.hpp
+++ b/include/dynd/types/typevar_dim_type.hpp
@@ -20,7 +20,9 @@ namespace ndt {
 
   public:
     typevar_dim_type(type_id_t id, const std::string &name, const type &element_type)
-        : base_dim_type(id, element_type, 0, 1, 0, type_flag_symbolic, false), m_name(name) {
+        : base_dim_type(id, element_type, 0, 1, 0,
+                        type_flag_symbolic | (element_type.get_flags() & type_flags_value_inherited), false),
+          m_name(name) {
       if (m_name.empty()) {
         throw type_error("dynd typevar name cannot be null");
       } else if (!is_valid_typevar_name(m_name.c_str(), m_name.c_str() + m_name.size())) {
-- 
2.43.0


From 655973de684e20ccacb72836efeffcc51e5352ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 15/56] fix: slice sizes with very large steps do not overflow

---
 src/dynd/shape_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index db02636..3a0c287 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -365,7 +365,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + step - 1) / step;
+        out_dimension_size = (size - 1) / step + 1;
       }
     }
     else {
@@ -458,7 +458,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + (-step) - 1) / (-step);
+        out_dimension_size = 1 - (size - 1) / step;
       }
     }
     else {
-- 
2.43.0


From 061fe8fc3e0337b27afdeaba8ac93a208f09b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 16/56] fix: field_access reports a field name the struct does
 not have

---
 include/dynd/callables/field_access_callable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/callables/field_access_callable.hpp b/include/dynd/callables/field_access_callable.hpp
index 170afbe..15fe548 100644
--- a/include/dynd/callables/field_access_callable.hpp
+++ b/include/dynd/callables/field_access_callable.hpp
@@ -23,6 +23,9 @@ namespace nd {
                       size_t DYND_UNUSED(nkwd), const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       std::string name = kwds[0].as<std::string>();
       intptr_t i = arg_tp[0].extended<ndt::struct_type>()->get_field_index(name);
+      if (i < 0) {
+        throw std::invalid_argument("no field named '" + name + "'");
+      }
       uintptr_t arrmeta_offset = arg_tp[0].extended<ndt::struct_type>()->get_arrmeta_offset(i);
 
       cg.emplace_back([i, arrmeta_offset](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-- 
2.43.0


From 5151c2afb3a489e37d79119d3a084a3e8a31e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 17/56] fix: an indexed take applies the take before the
 element assignment

---
 .../dynd/callables/take_dispatch_callable.hpp | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..01f7183 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -80,9 +80,6 @@ namespace nd {
 
       ndt::type src0_element_tp = src_tp[0].get_type_at_dimension(NULL, 1).get_canonical_type();
 
-      nd::array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
-
       ndt::type resolved_dst_tp;
       if (src_tp[1].get_id() == var_dim_id) {
         resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
@@ -90,6 +87,7 @@ namespace nd {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
 
+      ndt::type src_tp0 = src_tp[0], src_tp1 = src_tp[1];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -99,9 +97,10 @@ namespace nd {
 
         ndt::type dst_el_tp;
         const char *dst_el_meta;
-        if (!dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
+        if (!resolved_dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp,
+                                            &dst_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << dst_tp;
+          ss << "indexed take arrfunc: could not process type " << resolved_dst_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -109,17 +108,17 @@ namespace nd {
         intptr_t index_dim_size;
         ndt::type src0_el_tp, index_el_tp;
         const char *src0_el_meta, *index_el_meta;
-        if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+        if (!src_tp0.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                       &src0_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << src_tp[0];
+          ss << "indexed take arrfunc: could not process type " << src_tp0;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-        if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+        if (!src_tp1.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                       &index_el_meta)) {
           std::stringstream ss;
-          ss << "take arrfunc: could not process type " << src_tp[1];
+          ss << "take arrfunc: could not process type " << src_tp1;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -140,6 +139,9 @@ namespace nd {
         kb(kernel_request_single, nullptr, dst_el_meta, 1, &src0_el_meta);
       });
 
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
+
       return resolved_dst_tp;
     }
 
-- 
2.43.0


From ce776227fff78c906d6692dc38a2eeb1290744fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 18/56] fix: parsing a floating point number doesn't read past
 the end of its text

---
 include/dynd/parse_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..5b5ca57 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1070,9 +1070,11 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
   }
 
   // TODO: use http://www.netlib.org/fp/dtoa.c
+  // strto reads up to a terminating zero, which the range doesn't have
+  std::string s(begin, end);
   char *end_ptr;
-  T value = strto<T>(begin, &end_ptr);
-  if (end_ptr - begin != end - begin) {
+  T value = strto<T>(s.c_str(), &end_ptr);
+  if (end_ptr != s.c_str() + s.size()) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-- 
2.43.0


From 6f631444a58823e626b9cdb8a149e5097dc1c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 19/56] fix: the unchecked UTF-8 decoder steps over an invalid
 lead byte

---
 src/dynd/string_encodings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..208455f 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Step over the invalid byte
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
-- 
2.43.0


From 8feb58898899183158382ead86d7668836553e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 20/56] fix: the unchecked UTF-16 decoder doesn't read a trail
 surrogate past the end

---
 src/dynd/string_encodings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 208455f..06ee5fd 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -240,7 +240,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From 3083b9587216b43fe2ec8f8dd6ff8492d220c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 21/56] fix: parsing an unsigned integer notices every number
 that doesn't fit

The test for a wrapped sum only compared it with the previous value, so
"300" was read as the uint8 44.
---
 include/dynd/parse_util.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 5b5ca57..68dd52b 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -924,21 +924,22 @@ std::enable_if_t<is_boolean<T>::value, T> parse(const char *begin, const char *e
 template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
-  T result = 0, prev_result = 0;
+  T result = 0;
   if (begin == end) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
     char c = *begin;
     if ('0' <= c && c <= '9') {
-      result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      T digit = static_cast<T>(c - '0');
+      if (result > static_cast<T>((std::numeric_limits<T>::max() - digit) / 10u)) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
         ss << " to " << ndt::make_type<T>();
         throw std::out_of_range(ss.str());
       }
+      result = static_cast<T>(result * 10u + digit);
     } else {
       if (c == '.') {
         // Accept ".", ".0" with trailing decimal zeros as well
@@ -971,19 +972,17 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             exponent = (10 * exponent) + (*begin++ - '0');
           }
           if (begin == end) {
-            prev_result = result;
             // Apply the exponent in a naive way, but with
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
-              result = result * 10u;
-              if (result < prev_result) {
+              if (result > static_cast<T>(std::numeric_limits<T>::max() / 10u)) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
                 ss << " to " << ndt::make_type<T>();
                 throw std::out_of_range(ss.str());
               }
-              prev_result = result;
+              result = static_cast<T>(result * 10u);
             }
             return result;
           }
@@ -996,7 +995,6 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
       throw std::invalid_argument(ss.str());
     }
     ++begin;
-    prev_result = result;
   }
 
   return result;
-- 
2.43.0


From 2c82f5c21bbe6cccecc3e43affd1652fe0740c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 22/56] fix: uint128 negation, logical not, subtraction and
 conversion from negative integers carry between the halves

---
 include/dynd/uint128.hpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 45ba2dd..322d7d1 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -28,16 +28,16 @@ public:
 
   uint128(bool1) { throw std::runtime_error("uint128(bool1) is not implemented"); }
 
-  uint128(char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(signed char value) : m_lo(value), m_hi(0ULL) {}
+  uint128(char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
+  uint128(signed char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(short value) : m_lo(value), m_hi(0ULL) {}
+  uint128(short value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned short value) : m_lo(value), m_hi(0ULL) {}
-  uint128(int value) : m_lo(value), m_hi(0ULL) {}
+  uint128(int value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned int value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long long value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long long value) : m_lo(value), m_hi(0ULL) {}
   uint128(float value);
   uint128(double value);
@@ -57,17 +57,13 @@ public:
 
   uint128 operator-() const
   {
-    DYND_ALLOW_UNSIGNED_UNARY_MINUS
-    if (this->m_lo != 0) {
-      return uint128(!this->m_hi, -this->m_lo);
-    }
-    else {
-      return uint128(-this->m_hi, 0);
-    }
-    DYND_END_ALLOW_UNSIGNED_UNARY_MINUS
+    // twos complement negation, ~x + 1
+    uint64_t lo = ~m_lo, hi = ~m_hi;
+    uint64_t lo_p1 = lo + 1;
+    return uint128(hi + (lo_p1 < lo), lo_p1);
   }
 
-  bool operator!() const { return (m_hi != 0) && (m_lo != 0); }
+  bool operator!() const { return (m_hi == 0) && (m_lo == 0); }
 
   uint128 operator~() const { return uint128(~m_hi, ~m_lo); }
 
@@ -111,14 +107,12 @@ public:
 
   uint128 operator-(const uint128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return uint128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return uint128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   uint128 operator-(uint64_t rhs) const
   {
-    uint64_t lo = m_lo + ~rhs + 1;
-    return uint128(m_hi + 0xffffffffffffffffULL + (lo < m_lo), lo);
+    return uint128(m_hi - (m_lo < rhs), m_lo - rhs);
   }
 
   uint128 operator*(uint32_t rhs) const;
-- 
2.43.0


From 3a2fe14911ae3e329ec1f832a04425bc62c05c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 23/56] fix: int128 subtraction and += carry between the halves

---
 include/dynd/int128.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index d815039..b9e096e 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -93,7 +93,7 @@ public:
   int128 &operator+=(const int128 &rhs)
   {
     uint64_t lo = m_lo + rhs.m_lo;
-    *this = int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    *this = int128(m_hi + rhs.m_hi + (lo < m_lo), lo);
 
     return *this;
   }
@@ -114,8 +114,7 @@ public:
 
   int128 operator-(const int128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return int128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   int128 operator*(uint32_t rhs) const;
-- 
2.43.0


From ec8c494c72867b69d11ca5d26a9e93c833425730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 24/56] fix: multiplying a negative int128 doesn't recurse
 forever for the minimum

---
 src/dynd/int128.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/dynd/int128.cpp b/src/dynd/int128.cpp
index 9f6c140..cbc7d1d 100644
--- a/src/dynd/int128.cpp
+++ b/src/dynd/int128.cpp
@@ -75,21 +75,17 @@ dynd::int128::int128(const float128 &DYND_UNUSED(value))
 
 int128 dynd::int128::operator*(uint32_t rhs) const
 {
-  if ((int64_t)m_hi < 0) {
-    // TODO: fix case for minimum int, which will recurse forever
-    return -(-(*this) * rhs);
-  } else {
-    // Split the multiplication into three
-    // First product
-    uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
-    // Second product
-    uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
-    uint64_t lo = lo_partial + (tmp << 32);
-    uint64_t hi = (tmp >> 32) + (lo < lo_partial);
-    // Third product
-    hi += m_hi * rhs;
-    return int128(hi, lo);
-  }
+  // The product modulo 2^128 doesn't depend on the sign
+  // Split the multiplication into three
+  // First product
+  uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
+  // Second product
+  uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
+  uint64_t lo = lo_partial + (tmp << 32);
+  uint64_t hi = (tmp >> 32) + (lo < lo_partial);
+  // Third product
+  hi += m_hi * rhs;
+  return int128(hi, lo);
 }
 
 /*
-- 
2.43.0


From ac2616843a2aa62c0c98e988be4e8e9d06fbf360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 25/56] fix: assigning a string to an option type resolves what
 it instantiates

---
 include/dynd/callables/assign_callable.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..f780018 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -628,9 +628,9 @@ namespace nd {
         });
         break;
       case string_id:
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-                           const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) { kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta); });
+        // The string itself is assigned, no kernel of our own is needed
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
         break;
       default:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
@@ -652,13 +652,13 @@ namespace nd {
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, src_arrmeta);
           ckb_offset = kb.size();
         });
+
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
+        assign_na->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         break;
       }
 
-      assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
-                      kwds, tp_vars);
-      assign_na->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
-
       return dst_tp;
     }
   };
-- 
2.43.0


From 12fef453d518a9d0cd08d0735cc2fbbf0551ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 26/56] fix: binary_search_kernel releases its child

---
 include/dynd/kernels/binary_search_kernel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dynd/kernels/binary_search_kernel.hpp b/include/dynd/kernels/binary_search_kernel.hpp
index 9c6fdbe..8840d83 100644
--- a/include/dynd/kernels/binary_search_kernel.hpp
+++ b/include/dynd/kernels/binary_search_kernel.hpp
@@ -16,6 +16,8 @@ namespace nd {
 
     binary_search_kernel(intptr_t src0_size, intptr_t src0_stride) : src0_size(src0_size), src0_stride(src0_stride) {}
 
+    ~binary_search_kernel() { get_child()->destroy(); }
+
     void single(char *dst, char *const *src)
     {
       kernel_prefix *child = get_child();
-- 
2.43.0


From 25336516a8925da6bf5008450c8ebadd7d3227db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 27/56] fix: where_kernel releases its child

---
 include/dynd/kernels/where_kernel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dynd/kernels/where_kernel.hpp b/include/dynd/kernels/where_kernel.hpp
index 6638c6c..555c9d0 100644
--- a/include/dynd/kernels/where_kernel.hpp
+++ b/include/dynd/kernels/where_kernel.hpp
@@ -21,6 +21,8 @@ namespace nd {
         : it(*reinterpret_cast<size_t *>(data)), ret_stride(ret_stride), dst_memory_block(dst_memory_block),
           ret_element_size(sizeof(intptr_t)), capacity(0) {}
 
+    ~where_kernel() { get_child()->destroy(); }
+
     void single(char *ret, char *const *src) {
       bool child_ret;
       get_child()->single(reinterpret_cast<char *>(&child_ret), src);
-- 
2.43.0


From 41c134abb06d539dab2e3dcc202a978d09cfce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 28/56] fix: forward_na_kernel releases its children

---
 include/dynd/kernels/forward_na_kernel.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/dynd/kernels/forward_na_kernel.hpp b/include/dynd/kernels/forward_na_kernel.hpp
index 03f9307..3e771fe 100644
--- a/include/dynd/kernels/forward_na_kernel.hpp
+++ b/include/dynd/kernels/forward_na_kernel.hpp
@@ -15,6 +15,19 @@ namespace nd {
     size_t is_na_offset[2];
     size_t assign_na_offset;
 
+    ~forward_na_kernel() {
+      this->get_child()->destroy();
+      // an offset is zero when building that child failed
+      for (intptr_t i : std::array<intptr_t, sizeof...(I)>({I...})) {
+        if (is_na_offset[i] != 0) {
+          this->get_child(is_na_offset[i])->destroy();
+        }
+      }
+      if (assign_na_offset != 0) {
+        this->get_child(assign_na_offset)->destroy();
+      }
+    }
+
     void single(char *res, char *const *args) {
       for (intptr_t i : std::array<intptr_t, sizeof...(I)>({I...})) {
         bool1 is_na;
-- 
2.43.0


From df0186aed918d72e2ea4df0d54aff115864fb086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 29/56] fix: comparing tuples and structs keeps any number of
 metadata offsets, and each operand's own

---
 include/dynd/callables/equal_callable.hpp     | 34 ++++++++-----------
 include/dynd/callables/not_equal_callable.hpp | 34 ++++++++-----------
 2 files changed, 28 insertions(+), 40 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..bc59d4b 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -33,15 +33,12 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
-      }
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
@@ -60,8 +57,8 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
@@ -89,15 +86,12 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
-      }
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::struct_type, ndt::struct_type>>(
@@ -116,8 +110,8 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..2b71dc1 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -33,15 +33,12 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
-      }
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
@@ -60,8 +57,8 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
@@ -89,15 +86,12 @@ namespace nd {
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
-      }
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(
@@ -116,8 +110,8 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
-- 
2.43.0


From 57bc938a87658610edae95e58967bdebfd839bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 30/56] fix: comparing tuples or structs with different field
 counts raises instead of reading past the fields

---
 include/dynd/callables/equal_callable.hpp     | 12 ++++++++++++
 include/dynd/callables/not_equal_callable.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index bc59d4b..7cc0a3a 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -32,6 +32,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
+      if (field_count != size_t(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " and " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
+      }
 
       std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
       std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
@@ -85,6 +91,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
+      if (field_count != size_t(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " and " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
+      }
 
       std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
       std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2b71dc1..39f3a74 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -32,6 +32,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
+      if (field_count != size_t(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " and " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
+      }
 
       std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
       std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
@@ -85,6 +91,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
+      if (field_count != size_t(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " and " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
+      }
 
       std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
       std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
-- 
2.43.0


From f28b0fb16e4f009a157c422ab95afcd5a04039ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 31/56] fix: assigning tuples and structs keeps any number of
 metadata offsets

---
 include/dynd/callables/assign_callable.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index f780018..1d53719 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -685,8 +685,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> src_arrmeta_offsets(field_count);
       for (int i = 0; i < field_count; ++i) {
         src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
         dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
@@ -746,9 +746,9 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
-- 
2.43.0


From 1511e8e96135d3d9688c0e9f43dd0a70135f6ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 32/56] fix: assigning structs permutes the metadata offsets of
 the fields once

---
 include/dynd/callables/assign_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 1d53719..3b7eb70 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -794,7 +794,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From 7edefa75ef92c4121503aa723f27e2453f7d4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 33/56] fix: elwise of more arguments than its table has raises
 instead of reading past it

---
 include/dynd/callables/elwise_entry_callable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/callables/elwise_entry_callable.hpp b/include/dynd/callables/elwise_entry_callable.hpp
index 051cb22..1c1a510 100644
--- a/include/dynd/callables/elwise_entry_callable.hpp
+++ b/include/dynd/callables/elwise_entry_callable.hpp
@@ -80,6 +80,9 @@ namespace nd {
             make_callable<elwise_dispatch_callable<2>>(), make_callable<elwise_dispatch_callable<3>>(),
             make_callable<elwise_dispatch_callable<4>>(), make_callable<elwise_dispatch_callable<5>>(),
             make_callable<elwise_dispatch_callable<6>>(), make_callable<elwise_dispatch_callable<7>>()};
+        if (nsrc >= sizeof(table) / sizeof(table[0])) {
+          throw std::runtime_error("elwise is not supported for " + std::to_string(nsrc) + " arguments");
+        }
         return table[nsrc]->resolve(this, reinterpret_cast<char *>(&data), cg, dst_tp, nsrc, src_tp, nkwd, kwds,
                                     tp_vars);
       }
-- 
2.43.0


From 5977111a55142584f0a5cccff717bafe054c1e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 34/56] fix: outer of more arguments than its table has raises
 instead of reading past it

---
 include/dynd/callables/outer_entry_callable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..f209460 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -34,6 +34,9 @@ namespace nd {
           const size_t &i = reinterpret_cast<data_type *>(data)->i;
 
           if (i < nsrc) {
+            if (nsrc >= sizeof(m_children) / sizeof(m_children[0])) {
+              throw std::runtime_error("outer is not supported for " + std::to_string(nsrc) + " arguments");
+            }
             return m_children[nsrc]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
 
-- 
2.43.0


From f67b2cc30d983ac48ae4fdc690bbb0644c7bc440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 35/56] fix: reduction of more arguments than its table has
 raises instead of reading past it

---
 include/dynd/callables/reduction_callable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..3d7cf11 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -95,6 +95,10 @@ namespace nd {
           return ret_tp;
         }
 
+        if (nsrc < 1 || nsrc > (src_tp[0].get_id() == fixed_dim_id ? 2u : 1u)) {
+          throw std::runtime_error("unsupported number of arguments");
+        }
+
         if (src_tp[0].get_id() == fixed_dim_id) {
           static callable f[2] = {make_callable<reduction_callable<fixed_dim_id, 1>>(),
                                   make_callable<reduction_callable<fixed_dim_id, 2>>()};
-- 
2.43.0


From 96199dd3e2f1ded36b5ab4baa1c81b02abdbce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 36/56] fix: element-wise broadcast of a dimension of size one
 steps over its metadata

---
 include/dynd/callables/base_elwise_callable.hpp | 3 ---
 include/dynd/callables/elwise_callable.hpp      | 8 ++++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..08f9638 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -63,9 +63,6 @@ namespace nd {
             arg_element_tp[i] = arg_tp[i];
           } else {
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
-            if (arg_size[i] == 1) {
-              data.arg_broadcast[i] = true;
-            }
             arg_element_tp[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_element_type();
           }
         }
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..9b07ec8 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -77,7 +77,9 @@ namespace nd {
               src_stride[i] = 0;
               child_src_arrmeta[i] = src_arrmeta[i];
             } else {
-              src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+              // A dimension of size one is repeated
+              const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+              src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
               child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
           }
@@ -125,8 +127,10 @@ namespace nd {
                 src_stride[i] = 0;
                 child_src_arrmeta[i] = src_arrmeta[i];
               } else {
+                // A dimension of size one is repeated
+                const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
                 src_offset[i] = 0;
-                src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+                src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
                 child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
               }
             }
-- 
2.43.0


From 622fdfc45401db6e3369e4eaa468308b9e7547a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 37/56] fix: element-wise call over var and fixed dimensions
 steps over a fixed dimension's own metadata

---
 include/dynd/callables/elwise_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 9b07ec8..3539d4d 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -131,7 +131,7 @@ namespace nd {
                 const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
                 src_offset[i] = 0;
                 src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
-- 
2.43.0


From 877f39685211ef468a48ceedc036a2aa61844aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 38/56] fix: element-wise call from a fixed to a var dimension
 passes the operand's metadata on

---
 include/dynd/callables/elwise_callable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 3539d4d..3543446 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -195,6 +195,7 @@ namespace nd {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
-- 
2.43.0


From 467c3b6927b66628cc8a4b80228ce8b221494faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 39/56] fix: element-wise calls over var dimensions and
 operands without that dimension

---
 include/dynd/callables/base_elwise_callable.hpp     |  2 +-
 include/dynd/callables/elwise_callable.hpp          |  4 ----
 include/dynd/callables/elwise_dispatch_callable.hpp | 13 ++++++++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 08f9638..e1f6b77 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -68,7 +68,7 @@ namespace nd {
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 3543446..5a3cd35 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -144,10 +144,6 @@ namespace nd {
       }
 
       ndt::type with_return_type(intptr_t ret_size, const ndt::type &ret_element_tp) {
-        if (ret_size == 1) {
-          return ndt::make_type<ndt::var_dim_type>(ret_element_tp);
-        }
-
         return ndt::make_type<ndt::fixed_dim_type>(ret_size, ret_element_tp);
       }
     };
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..cfbd3dd 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -44,9 +44,14 @@ namespace nd {
 
         // Do a pass through the src types to classify them
         const std::vector<ndt::type> &child_arg_tp = child_tp->get_argument_types();
+        intptr_t max_ndim = reinterpret_cast<data_type *>(data)->ndim;
         bool src_all_strided = true, src_all_strided_or_var = true;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          if (src_ndim < max_ndim) {
+            // This operand doesn't have the dimension, and is broadcast whole
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
             break;
@@ -65,7 +70,8 @@ namespace nd {
 
         bool var_broadcast = !src_all_strided;
         for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
+          var_broadcast &= src_tp[i].get_ndim() - child_arg_tp[i].get_ndim() < max_ndim ||
+                           src_tp[i].get_id() == var_dim_id ||
                            (src_tp[i].get_id() == fixed_dim_id &&
                             src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
         }
@@ -78,10 +84,11 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if (!res_ignore && ((dst_variadic && var_broadcast) || dst_tp.get_id() == var_dim_id) &&
+                   src_all_strided_or_var) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
-        } else if (src_all_strided_or_var) {
+        } else if (!res_ignore && (dst_variadic || dst_tp.get_id() == fixed_dim_id) && src_all_strided_or_var) {
           static callable f = make_callable<elwise_callable<fixed_dim_id, var_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         }
-- 
2.43.0


From a714b2d5d7261b9013539f7cc3ef03ce8f899ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:12 +0000
Subject: [PATCH 40/56] fix: element-wise calls that ignore the result take the
 size from every operand

---
 include/dynd/callables/base_elwise_callable.hpp | 16 +++++-----------
 include/dynd/callables/elwise_callable.hpp      |  8 +++++++-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index e1f6b77..20f087f 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -73,10 +73,7 @@ namespace nd {
 
         intptr_t res_size;
         ndt::type res_element_tp;
-        if (res_ignore) {
-          res_size = 1;
-          res_element_tp = res_tp;
-        } else if (res_tp.is_variadic()) {
+        if (res_ignore || res_tp.is_variadic()) {
           res_size = 1;
           for (size_t i = 0; i < N && res_size == 1; ++i) {
             if (!data.arg_broadcast[i] && arg_size[i] != -1) {
@@ -89,13 +86,10 @@ namespace nd {
           res_element_tp = res_tp.extended<ndt::base_dim_type>()->get_element_type();
         }
 
-        // if not ignore res
-        if (!res_ignore) {
-          for (size_t i = 0; i < N; ++i) {
-            if (!data.arg_broadcast[i]) {
-              if (arg_size[i] != -1 && res_size != -1 && res_size != arg_size[i] && arg_size[i] != 1) {
-                throw std::runtime_error("broadcast error 1");
-              }
+        for (size_t i = 0; i < N; ++i) {
+          if (!data.arg_broadcast[i]) {
+            if (arg_size[i] != -1 && res_size != -1 && res_size != arg_size[i] && arg_size[i] != 1) {
+              throw std::runtime_error("broadcast error 1");
             }
           }
         }
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 5a3cd35..4c51bfe 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -55,7 +55,13 @@ namespace nd {
                                                        const char *const *src_arrmeta) {
           size_t size;
           if (res_broadcast) {
-            size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
+            // The size the operands which have the dimension broadcast to
+            size = 1;
+            for (size_t i = 0; i < N; ++i) {
+              if (!arg_broadcast[i] && size == 1) {
+                size = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+              }
+            }
           } else {
             size = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->dim_size;
           }
-- 
2.43.0


From 2a2064e4a3627b5dacc8307a31d1bd3939830f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 41/56] fix: string assignments copy the source type into the
 recorded computation instead of keeping a pointer to the caller's

---
 include/dynd/callables/assign_callable.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 3b7eb70..8bd4e8b 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -81,13 +81,14 @@ namespace nd {
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      ndt::type src0_tp = src_tp[0];
       switch (error_mode) {
       case assign_error_default:
       case assign_error_nocheck:
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -95,7 +96,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src0_tp,
                                                                                            src_arrmeta[0]);
         });
         break;
@@ -103,7 +104,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src0_tp,
                                                                                              src_arrmeta[0]);
         });
         break;
@@ -111,7 +112,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -283,11 +284,12 @@ namespace nd {
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      ndt::type src0_tp = src_tp[0];
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
-        const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
+        const ndt::fixed_string_type *src_fs = src0_tp.extended<ndt::fixed_string_type>();
         kb.emplace_back<
             detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck>>(
             kernreq, get_next_unicode_codepoint_function(src_fs->get_encoding(), error_mode),
@@ -312,11 +314,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      type_id_t src0_id = src_tp[0].get_id();
+
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
         kb.emplace_back<detail::assignment_kernel<string, int8_t, assign_error_nocheck>>(
-            kernreq, dst_tp, src_tp[0].get_id(), dst_arrmeta);
+            kernreq, dst_tp, src0_id, dst_arrmeta);
       });
 
       return dst_tp;
@@ -418,11 +422,12 @@ namespace nd {
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
+      ndt::type src0_tp = src_tp[0];
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *src_arrmeta) {
-        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src_tp[0],
+        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                         src_arrmeta[0], error_mode);
       });
 
-- 
2.43.0


From 29ac971fd655cd72a9ace4a7959183ad7c7f9913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 42/56] fix: reduction of a var dimension that is not
 innermost, or not reduced, raises instead of reading garbage

---
 include/dynd/callables/base_reduction_callable.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 80a1336..1f90dda 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -198,7 +198,11 @@ namespace nd {
 
     template <size_t NArg>
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
-      void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
+      void resolve(call_graph &cg, char *data) {
+        if (!reinterpret_cast<node_type *>(data)->inner || reinterpret_cast<node_type *>(data)->broadcast) {
+          throw std::runtime_error("a var dimension can only be reduced, and only as the innermost dimension");
+        }
+
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
                            char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                            const char *const *src_arrmeta) {
-- 
2.43.0


From 2a878f834226ccb841d0bb4e88a16abc29aa062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 43/56] fix: reduction over a var dimension takes the
 dimension's offset into account

---
 include/dynd/callables/base_reduction_callable.hpp |  3 ++-
 include/dynd/kernels/reduction_kernel.hpp          | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 1f90dda..b320150 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -209,7 +209,8 @@ namespace nd {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
-              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
+              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->offset);
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           const char *src_element_arrmeta[NArg];
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index bbd033b..2cda6f8 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -324,9 +324,11 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
+      intptr_t src0_inner_offset;
       intptr_t init_offset;
 
-      reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, std::intptr_t src0_inner_offset)
+          : src0_inner_stride(src0_inner_stride), src0_inner_offset(src0_inner_offset) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -336,7 +338,7 @@ namespace nd {
       void single_first(char *dst, char *const *src) {
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
-        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
+        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin + src0_inner_offset;
         this->get_child(init_offset)->single(dst, &src0_data);
 
         this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, inner_size);
@@ -348,7 +350,7 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != count; ++i) {
-          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_inner_offset;
           init_child->single(dst, &src0_data);
 
           reduction_child->strided(dst, 0, &src0_data, &src0_inner_stride,
@@ -363,7 +365,8 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != size; ++i) {
-          child->strided(dst, 0, &reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin, &src0_inner_stride,
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_inner_offset;
+          child->strided(dst, 0, &src0_data, &src0_inner_stride,
                          reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
           dst += dst_stride;
           src0 += src_stride[0];
-- 
2.43.0


From bf1b6f9c7282fe14b87a2f9984e4e373babdb16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 44/56] fix: assigning a short string to itself keeps its
 characters

---
 include/dynd/types/sso_bytestring.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 23c8cec..2524afa 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -34,10 +34,12 @@ protected:
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // `data` may point into this object
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                    (static_cast<uint64_t>(size) << 56));
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +118,8 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      // `bytestr` may point into this object
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
-- 
2.43.0


From d5c4e6d67c11e4372dddc76a56c469f2492d76a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 45/56] fix: appending a part of a string to itself does not
 read freed memory

---
 include/dynd/types/sso_bytestring.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 2524afa..b94922a 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -148,9 +148,13 @@ public:
   }
 
   void append(const char *bytestr, size_t bssize) {
+    const char *old_data = data();
     size_t old_size = size();
+    // `bytestr` may point into this object, whose data can move when it grows
+    bool own = old_data <= bytestr && bytestr < old_data + old_size;
+    size_t offset = own ? bytestr - old_data : 0;
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, own ? data() + offset : bytestr, bssize);
   }
 
   void clear() {
-- 
2.43.0


From b462f57358dee6060b3814b5f61a0d625f5bd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 46/56] fix: searching for a single character stops at the end
 of the text

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..5662e80 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
-- 
2.43.0


From 70884a7848dd282f82d3aef794b7e05f678ad561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 47/56] fix: string_rfind finds a single character

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 5662e80..7611da4 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -59,7 +59,7 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
+    for (size_t i = n; i-- > 0;) {
       if (haystack[i] == needle) {
         if (handle_match(i)) {
           return;
-- 
2.43.0


From 91e54660c87ec042b293fd343fe8d60791d983e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:29 +0000
Subject: [PATCH 48/56] fix: a string search resumes right after a match, and
 does not skip over the next one

---
 include/dynd/string_search.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 7611da4..39b5707 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From c63b9c536937234aa372fa13560aee317d6de473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:56 +0000
Subject: [PATCH 49/56] fix: an outer product over a var dimension raises
 instead of reading its size and stride as those of a fixed one

---
 include/dynd/callables/outer_callable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynd/callables/outer_callable.hpp b/include/dynd/callables/outer_callable.hpp
index 0b8982f..a1f55d2 100644
--- a/include/dynd/callables/outer_callable.hpp
+++ b/include/dynd/callables/outer_callable.hpp
@@ -28,6 +28,10 @@ namespace nd {
         base_callable *child = reinterpret_cast<data_type *>(data)->child;
         size_t &i = reinterpret_cast<data_type *>(data)->i;
 
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          throw std::runtime_error("outer is only supported for fixed dimensions");
+        }
+
         cg.emplace_back([i](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
                             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           kb.emplace_back<outer_kernel<NArg>>(kernreq, i, dst_arrmeta, src_arrmeta);
-- 
2.43.0


From dac0a3bb503ed275251bf023197100fb1bf4426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:56 +0000
Subject: [PATCH 50/56] fix: accessing a field whose assignment looks at the
 error mode does not read through a null keyword array

---
 include/dynd/callables/field_access_callable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/field_access_callable.hpp b/include/dynd/callables/field_access_callable.hpp
index 15fe548..0e2ff04 100644
--- a/include/dynd/callables/field_access_callable.hpp
+++ b/include/dynd/callables/field_access_callable.hpp
@@ -40,7 +40,8 @@ namespace nd {
       });
 
       ndt::type field_tp = arg_tp[0].extended<ndt::struct_type>()->get_field_type(i);
-      assign->resolve(this, nullptr, cg, field_tp, 1, &field_tp, 1, nullptr, tp_vars);
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, field_tp, 1, &field_tp, 1, &error_mode, tp_vars);
 
       return field_tp;
     }
-- 
2.43.0


From 38996ae71f151e82f9ae3af9504a9f77ec036161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:37 +0000
Subject: [PATCH 51/56] fix: growing the last allocation of a pod memory block
 into a new chunk copies what was there

---
 include/dynd/memblock/pod_memory_block.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..4318e39 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -97,10 +97,11 @@ namespace nd {
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
         char *old_current = inout_begin, *old_end = *inout_end;
+        intptr_t old_size_bytes = *inout_end - inout_begin;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
+        memcpy(m_memory_begin, inout_begin, old_size_bytes);
         end = m_memory_begin + size_bytes;
         m_memory_current = end;
         inout_begin = m_memory_begin;
-- 
2.43.0


From d8930a1d96a98ec242a8fc3132855bf42cdcb9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:38 +0000
Subject: [PATCH 52/56] fix: growing the last allocation of a zeroinit memory
 block zeroes the new part

---
 include/dynd/memblock/zeroinit_memory_block.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..1061781 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -97,7 +97,6 @@ namespace nd {
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
-        m_memory_current = end;
         // Zero-initialize any newly allocated memory
         if (end > *inout_end) {
           memset(*inout_end, 0, end - *inout_end);
-- 
2.43.0


From ac4bd9e2791861ea284c4a8d9e3fd7f62878240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:38 +0000
Subject: [PATCH 53/56] fix: resizing an object array memory block keeps the
 elements, and zeroes the new ones only

---
 include/dynd/memblock/objectarray_memory_block.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..455a2b9 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -114,11 +114,13 @@ namespace nd {
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
         memory_chunk *new_mc = &m_memory_handles.back();
+        // Appending may have moved the handles
+        mc = new_mc - 1;
         // Move the old memory to the newly allocated block
         if (previous_count > 0) {
           // Subtract the previously used memory from the old chunk's count
           mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
+          memcpy(new_mc->memory, previous_allocated, m_stride * previous_count);
           // If the old memory only had the memory being resized,
           // free it completely.
           if (previous_allocated == mc->memory) {
@@ -146,7 +148,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
-- 
2.43.0


From 6f6acdd76d91cda768820c7e85176ddaa281c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:38 +0000
Subject: [PATCH 54/56] fix: resetting an object array memory block destroys
 the elements with their own arrmeta, also when there is one chunk

---
 include/dynd/memblock/objectarray_memory_block.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 455a2b9..46f4a9a 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -168,16 +168,16 @@ namespace nd {
         // throw them all away except the last
         for (size_t i = 0, i_end = m_memory_handles.size() - 1; i != i_end; ++i) {
           memory_chunk &mc = m_memory_handles[i];
-          m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
+          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
           free(mc.memory);
         }
         m_memory_handles.front() = m_memory_handles.back();
         m_memory_handles.resize(1);
-        // Reset to zero used elements in the chunk
-        memory_chunk &mc = m_memory_handles.front();
-        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
-        mc.used_count = 0;
       }
+      // Reset to zero used elements in the chunk
+      memory_chunk &mc = m_memory_handles.front();
+      m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+      mc.used_count = 0;
     }
 
     void debug_print(std::ostream &o, const std::string &indent) {
-- 
2.43.0


From b13837c229e6e1a975d7b8bbf63bf27c71de55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:56 +0000
Subject: [PATCH 55/56] fix: tuple arrmeta construction cleanup destroys each
 constructed field at its own offset

---
 src/dynd/types/tuple_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..faf19dd 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -274,7 +274,7 @@ void ndt::tuple_type::arrmeta_default_construct(char *arrmeta, bool blockref_all
         for (intptr_t j = 0; j < i; ++j) {
           const type &ft = get_field_type(j);
           if (!ft.is_builtin()) {
-            ft.extended()->arrmeta_destruct(arrmeta + m_arrmeta_offsets[i]);
+            ft.extended()->arrmeta_destruct(arrmeta + m_arrmeta_offsets[j]);
           }
         }
         throw;
-- 
2.43.0


From ea6889b0951763101d0bcd553933d5dda66a0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:56 +0000
Subject: [PATCH 56/56] fix: struct arrmeta construction cleanup destroys each
 constructed field at its own offset

---
 src/dynd/types/struct_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..f2c3dd2 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -336,7 +336,7 @@ void ndt::struct_type::arrmeta_default_construct(char *arrmeta, bool blockref_al
         for (intptr_t j = 0; j < i; ++j) {
           const type &ft = get_field_type(j);
           if (!ft.is_builtin()) {
-            ft.extended()->arrmeta_destruct(arrmeta + m_arrmeta_offsets[i]);
+            ft.extended()->arrmeta_destruct(arrmeta + m_arrmeta_offsets[j]);
           }
         }
         throw;
-- 
2.43.0

