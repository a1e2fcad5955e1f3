From 2febf34bbf115704ae89ae06f304e62d1ba671f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 001/104] verification hook: E_FLOAT_VERIF_DIGITS10 selects the
 digit count

---
 libs/e_float/src/e_float/e_float_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.h b/libs/e_float/src/e_float/e_float_base.h
index 6f5aea2..3866b27 100644
--- a/libs/e_float/src/e_float/e_float_base.h
+++ b/libs/e_float/src/e_float/e_float_base.h
@@ -25,7 +25,10 @@
   #define E_FLOAT_TEST_REAL_IMAG_TESTS
   #endif
 
-  #if defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
+  #if defined(E_FLOAT_VERIF_DIGITS10)
+  // Verification hook: select the number of decimal digits on the compiler command line.
+  #define E_FLOAT_DIGITS10 E_FLOAT_VERIF_DIGITS10
+  #elif defined(E_FLOAT_TEST_PI_ALGOS_TESTS)
   #define E_FLOAT_DIGITS10 1000001
   #elif defined(E_FLOAT_TEST_REAL_IMAG_TESTS)
   #define E_FLOAT_DIGITS10 101
-- 
2.43.0


From cbf72e35c0a6184972e3cfec78c70c05ec16c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 002/104] fix: gmp/mpfr output keeps the exponent when rounding
 carries into the next decade

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp  | 21 +++++++++++++++----
 .../e_float/src/e_float/mpfr/e_float_mpfr.cpp | 21 +++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index cb9d9ab..507b752 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -896,10 +896,22 @@ std::int64_t gmp::e_float::get_order_exact() const
   // Extract the base-10 exponent.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
-  const std::int64_t my_exp = ((pos_letter_e != std::string::npos)
+  std::int64_t my_exp = ((pos_letter_e != std::string::npos)
     ? Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)))
     : static_cast<std::int64_t>(0));
 
+  // If rounding to these digits carried into the next decade, then the order is
+  // one less, unless the value really does reach this power of ten.
+  if(str.find("1.0000000000e") != std::string::npos)
+  {
+    const e_float power_of_ten("1e" + Util::lexical_cast(my_exp));
+
+    if((isneg() ? -*this : *this).cmp(power_of_ten) < static_cast<std::int32_t>(0))
+    {
+      --my_exp;
+    }
+  }
+
   return my_exp;
 }
 
@@ -931,8 +943,6 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   // In other words, first obtain the string in scientific notation,
   // then reduce it to raw digits (perhaps this can be improved).
 
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99Fe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -952,11 +962,14 @@ void gmp::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
     str.erase(str.cbegin(), str.cbegin() + 1U);
   }
 
-  // Erase the exponent.
+  // Extract the exponent (which includes any carry from rounding the digits
+  // up to the next power of ten) and erase it.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
   if(pos_letter_e != std::string::npos)
   {
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e672225..5121f2a 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -520,11 +520,23 @@ std::int64_t mpfr::e_float::get_order_exact() const
   // Extract the base-10 exponent.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
-  const std::int64_t my_exp =
+  std::int64_t my_exp =
     ((pos_letter_e != std::string::npos)
       ? Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)))
       : static_cast<std::int64_t>(0));
 
+  // If rounding to these digits carried into the next decade, then the order is
+  // one less, unless the value really does reach this power of ten.
+  if(str.find("1.0000000000e") != std::string::npos)
+  {
+    const e_float power_of_ten("1e" + Util::lexical_cast(my_exp));
+
+    if((isneg() ? -*this : *this).cmp(power_of_ten) < static_cast<std::int32_t>(0))
+    {
+      --my_exp;
+    }
+  }
+
   return my_exp;
 }
 
@@ -552,8 +564,6 @@ std::int64_t mpfr::e_float::get_order_fast() const
 
 void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, const std::size_t number_of_digits) const
 {
-  static_cast<void>(the_exp);
-
   // Create a format string such as "%+.99RNe" in order to extract 100 digits
   // in scientific notation with the lowercase and noshowpos flags.
   const std::size_t the_number_of_digits_scientific = static_cast<std::size_t>((std::max)(number_of_digits, static_cast<std::size_t>(1U)) - static_cast<std::size_t>(1U));
@@ -582,11 +592,14 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
     str.erase(str.cbegin(), str.cbegin() + 1U);
   }
 
-  // Erase the exponent.
+  // Extract the exponent (which includes any carry from rounding the digits
+  // up to the next power of ten) and erase it.
   const std::size_t pos_letter_e = str.rfind(static_cast<char>('e'));
 
   if(pos_letter_e != std::string::npos)
   {
+    the_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos_letter_e + 1U)));
+
     str.erase(str.cbegin() + (std::string::difference_type) pos_letter_e, str.cend());
   }
 
-- 
2.43.0


From fb331a315333d70e2bc3893ec4c6202b34aacd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 003/104] fix: efx division of operands with equal magnitude
 keeps the sign, and 0/0 is NaN

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 39c99a3..b82f90f 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -790,15 +790,18 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
 {
   const auto u_and_v_are_finite_and_identical =
     (   isfinite()
+     && (!iszero())
      && (my_fpclass == v.my_fpclass)
      && (my_exp     == v.my_exp)
      && (cmp_data(v.my_data) == static_cast<std::int32_t>(0)));
 
   if(u_and_v_are_finite_and_identical)
   {
+    const bool b_result_is_neg = (my_neg != v.my_neg);
+
     *this = ef::one();
 
-    if(my_neg != v.my_neg)
+    if(b_result_is_neg)
     {
       negate();
     }
-- 
2.43.0


From 1fb67cb76dc257ed9b2489f181d06994d4b92603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 004/104] fix: efx/gmp x -= x is zero when both operands are
 the same object

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 6 ++++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index b82f90f..56ad8b7 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -659,6 +659,12 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
 efx::e_float& efx::e_float::operator-=(const e_float& v)
 {
+  // Subtracting a number from itself must not use the negated value of *this for v.
+  if(this == &v)
+  {
+    return (*this = (isfinite() ? ef::zero() : std::numeric_limits<e_float>::quiet_NaN()));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 507b752..8aa8c94 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -264,6 +264,12 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
 gmp::e_float& gmp::e_float::operator-=(const e_float& v)
 {
+  // Subtracting a number from itself must not use the negated value of *this for v.
+  if(this == &v)
+  {
+    return (*this = (isfinite() ? ef::zero() : std::numeric_limits<e_float>::quiet_NaN()));
+  }
+
   // Use *this - v = -(-*this + v).
   return (negate().operator+=(v)).negate();
 }
-- 
2.43.0


From 058c25a494090d2b64b9d5dedd0b5ffa99aa379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 005/104] fix: efx/gmp addition propagates a non-finite
 right-hand operand

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 7 ++++++-
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 56ad8b7..9a80e22 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -421,7 +421,7 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
 
   if(isinf())
   {
-    if(v.isinf() && (isneg() != v.isneg()))
+    if(v.isnan() || (v.isinf() && (isneg() != v.isneg())))
     {
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
@@ -429,6 +429,11 @@ efx::e_float& efx::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(!v.isfinite())
+  {
+    return operator=(v);
+  }
+
   if(iszero())
   {
     return operator=(v);
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 8aa8c94..d492741 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -236,7 +236,7 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
 
   if(isinf())
   {
-    if(v.isinf() && (isneg() != v.isneg()))
+    if(v.isnan() || (v.isinf() && (isneg() != v.isneg())))
     {
       *this = std::numeric_limits<e_float>::quiet_NaN();
     }
@@ -244,6 +244,11 @@ gmp::e_float& gmp::e_float::operator+=(const e_float& v)
     return *this;
   }
 
+  if(!v.isfinite())
+  {
+    return operator=(v);
+  }
+
   ::mpf_add(my_rop, my_rop, v.my_rop);
 
   // Check for overflow.
-- 
2.43.0


From 6bad5b646a27a04a5cb25a78c9753dc10fbbac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 006/104] fix: efx isone() recognizes exactly one

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 24 ++++----------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 9a80e22..0daf0f7 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1316,7 +1316,7 @@ bool efx::e_float::isone() const
     if((my_data[0U] == static_cast<std::uint32_t>(1U)) && (my_exp == static_cast<std::int64_t>(0)))
     {
       const array_type::const_iterator it_non_zero =
-        std::find_if(my_data.cbegin(),
+        std::find_if(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
                      my_data.cend(),
                      [](const std::uint32_t& d) -> bool
                      {
@@ -2059,25 +2059,11 @@ bool efx::e_float::rd_string(const char* const s)
                                 : -std::numeric_limits<e_float>::infinity());
   }
 
-  // ...and check for underflow.
-  if(my_exp <= std::numeric_limits<e_float>::min_exponent10)
+  // ...and check for underflow. Any value having the minimum exponent
+  // is at least as large as the minimum value.
+  if(my_exp < std::numeric_limits<e_float>::min_exponent10)
   {
-    if(my_exp == std::numeric_limits<e_float>::min_exponent10)
-    {
-      // Check for identity with the minimum value.
-      e_float test = *this;
-
-      test.my_exp = static_cast<std::int64_t>(0);
-
-      if(test.isone())
-      {
-        *this = ef::zero();
-      }
-    }
-    else
-    {
-      *this = ef::zero();
-    }
+    *this = ef::zero();
   }
 
   return true;
-- 
2.43.0


From 46d1ab86212ce7134fe570e8d2ba70e3491cd099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 007/104] fix: acosh(1) is zero

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d8c84cf..2e0defd 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -623,7 +623,7 @@ e_float ef::acosh(const e_float& x)
 
   if(ef::isone(x))
   {
-    return ef::one();
+    return ef::zero();
   }
 
   const e_float x_minus_one = x - ef::one();
-- 
2.43.0


From ea957af8323f6893559bd0d3b9578318885e0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 008/104] fix: built-in arithmetic with the most negative long
 long

---
 libs/e_float/src/e_float/e_float_base.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index f834a6b..e0cf57e 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -100,7 +100,7 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
   if(n < static_cast<signed long long>(0))
   {
     negate();
-    add_unsigned_long_long(static_cast<unsigned long long>(-n));
+    add_unsigned_long_long((0ULL - static_cast<unsigned long long>(n)));
     negate();
   }
   else
@@ -113,14 +113,25 @@ e_float& e_float_base::add_signed_long_long(const signed long long n)
 
 e_float& e_float_base::sub_signed_long_long(const signed long long n)
 {
-  return add_signed_long_long(static_cast<signed long long>(-n));
+  if(n < static_cast<signed long long>(0))
+  {
+    add_unsigned_long_long((0ULL - static_cast<unsigned long long>(n)));
+  }
+  else
+  {
+    negate();
+    add_unsigned_long_long(static_cast<unsigned long long>(n));
+    negate();
+  }
+
+  return static_cast<e_float&>(*this);
 }
 
 e_float& e_float_base::mul_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  mul_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : (0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
@@ -141,7 +152,7 @@ e_float& e_float_base::div_signed_long_long(const signed long long n)
 {
   const bool b_neg = (n < static_cast<signed long long>(0));
 
-  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : static_cast<unsigned long long>(-n));
+  div_unsigned_long_long((!b_neg) ? static_cast<unsigned long long>(n) : (0ULL - static_cast<unsigned long long>(n)));
 
   if(b_neg)
   {
-- 
2.43.0


From 759ec76bd824599b125d07906cd65a9895a6fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 009/104] fix: efx division of a negative number by unsigned
 zero keeps the sign

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 0daf0f7..c83ac97 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -942,7 +942,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
     else
     {
-      *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
+      *this = ((!b_neg) ?  std::numeric_limits<e_float>::infinity()
                           : -std::numeric_limits<e_float>::infinity());
 
       return *this;
-- 
2.43.0


From d485063ec099411aa736b8c4bfcd07487bfd8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 010/104] fix: efx/gmp construction from long double beyond the
 range of double

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c83ac97..107b412 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -151,9 +151,9 @@ void efx::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0L));
 
-  if(!ef::isfinite(static_cast<double>(l)))
+  if(!(std::isfinite)(l))
   {
-    operator=(ef::isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=((std::isnan)(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index d492741..a66c6f6 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -178,13 +178,9 @@ void gmp::e_float::from_long_double(const long double l)
 {
   const bool b_neg = (l < static_cast<long double>(0.0));
 
-  using std::isfinite;
-
-  if(isfinite(static_cast<double>(l)) == 0)
+  if(!(std::isfinite)(l))
   {
-    using std::isnan;
-
-    operator=(isnan(static_cast<double>(l)) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
+    operator=((std::isnan)(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
   }
-- 
2.43.0


From 60af8373f676c4a0e84110076033f6db60ec964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 011/104] fix: gmp construction from a non-finite built-in
 initializes the mpf_t

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index a66c6f6..0874dfe 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -180,6 +180,8 @@ void gmp::e_float::from_long_double(const long double l)
 
   if(!(std::isfinite)(l))
   {
+    ::mpf_init_set_ui(my_rop, 0U);
+
     operator=((std::isnan)(l) ? my_value_nan() : ((!b_neg) ? my_value_inf() : -my_value_inf()));
 
     return;
-- 
2.43.0


From 962cb0cadca90323a40d342c8857ac07af07c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 012/104] fix: gmp/mpfr conversion of large negative values to
 long long saturates at the minimum

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 4 ++--
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 0874dfe..27cc621 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -772,8 +772,8 @@ signed long long gmp::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 5121f2a..e9c76bf 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -410,8 +410,8 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 
   if(nx > ef::signed_long_long_max())
   {
-    return ((!b_neg) ?  (std::numeric_limits<signed long long>::max)()
-                     : -(std::numeric_limits<signed long long>::max)());
+    return ((!b_neg) ? (std::numeric_limits<signed long long>::max)()
+                     : (std::numeric_limits<signed long long>::min)());
   }
   
   if(nx < ef::one())
-- 
2.43.0


From 0c63b89011848ce7e363194d0f546369f12b06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 013/104] fix: mpfr conversion to built-in integers truncates
 toward zero

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index e9c76bf..b5775a2 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -406,7 +406,7 @@ signed long long mpfr::e_float::extract_signed_long_long() const
 {
   const bool b_neg = isneg();
 
-  const e_float nx = ef::fabs(*this);
+  const e_float nx = ef::fabs(extract_integer_part());
 
   if(nx > ef::signed_long_long_max())
   {
@@ -448,17 +448,19 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
     return static_cast<unsigned long long>(extract_signed_long_long());
   }
 
-  if(*this > ef::unsigned_long_long_max())
+  const e_float nx = extract_integer_part();
+
+  if(nx > ef::unsigned_long_long_max())
   {
     return (std::numeric_limits<unsigned long long>::max)();
   }
 
-  if(*this < ef::one())
+  if(nx < ef::one())
   {
     return static_cast<unsigned long long>(0U);
   }
 
-  if(isone())
+  if(nx.isone())
   {
     return static_cast<unsigned long long>(1U);
   }
@@ -467,7 +469,7 @@ unsigned long long mpfr::e_float::extract_unsigned_long_long() const
 
   mp_exp_t p10;
 
-  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, my_rop, GMP_RNDN));
+  static_cast<void>(::mpfr_get_str(str.data(), &p10, 10, str.size() - 1U, nx.my_rop, GMP_RNDN));
 
   std::string str_ull(static_cast<std::size_t>(p10), static_cast<char>('0'));
 
-- 
2.43.0


From 97e997abf902ebaf0ab4e61ece75af28da3d9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 014/104] fix: default output format gives the requested
 significant digits of numbers below one

---
 libs/e_float/src/e_float/e_float_base.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index e0cf57e..b674750 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -254,13 +254,11 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     }
   }
 
-  // If the float field is not set, reduce the number of digits requested
-  // from e_float such that it neither exceeds the ostream's precision
-  // nor e_float's max_digits10.
+  // If the float field is not set, the number of (significant) digits requested
+  // from e_float is the ostream's precision, not to exceed e_float's max_digits10.
   if(my_float_field == local::os_float_field_none)
   {
-    const std::size_t max_digits = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
-    the_number_of_digits_i_want_from_e_float = (std::min)(the_number_of_digits_i_want_from_e_float, max_digits);
+    the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
   }
 
   // Extract the rounded output string with the desired number of digits.
@@ -406,7 +404,7 @@ void local::wr_string_fixed(std::string& str,
     // The number is less than one in magnitude. Insert the decimal
     // point using "0." as well as the needed number of leading zeros.
     const std::size_t minus_exp_minus_one = static_cast<std::size_t>(-the_exp - 1);
-    const std::string str_zero_insert((std::min)(minus_exp_minus_one, os_precision), static_cast<char>('0'));
+    const std::string str_zero_insert((trim_trailing_zeros ? minus_exp_minus_one : (std::min)(minus_exp_minus_one, os_precision)), static_cast<char>('0'));
 
     const std::int64_t n_pad = static_cast<std::int64_t>(static_cast<std::int64_t>(os_precision) - static_cast<std::int64_t>(str.length() + str_zero_insert.length()));
 
-- 
2.43.0


From df32f7457f2e51479af5b7196457ac7ac9170617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 015/104] fix: showpoint output of an integer part that is
 wider than the precision

---
 libs/e_float/src/e_float/e_float_base.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index b674750..cd3dffb 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -507,7 +507,8 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
 
       const std::size_t len_non_zero_part = static_cast<std::size_t>(str.cend() - it_non_zero);
 
-      const std::size_t u_pad = static_cast<std::size_t>(os_precision - len_non_zero_part);
+      const std::size_t u_pad = ((os_precision > len_non_zero_part) ? static_cast<std::size_t>(os_precision - len_non_zero_part)
+                                                                    : static_cast<std::size_t>(0U));
 
       str.insert(str.cend(), u_pad, static_cast<char>('0'));
     }
@@ -515,7 +516,11 @@ void local::special_extend_string_to_precision(std::string& str, const std::size
   else
   {
     // This is a number greater than or equal to 1 that needs zero extension.
-    const std::size_t u_pad = static_cast<std::size_t>(os_precision - static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U)));
+    // The integer part can be wider than the precision.
+    const std::size_t len_digits = static_cast<std::size_t>(str.length() - static_cast<std::size_t>(1U));
+
+    const std::size_t u_pad = ((os_precision > len_digits) ? static_cast<std::size_t>(os_precision - len_digits)
+                                                           : static_cast<std::size_t>(0U));
 
     str.insert(str.cend(), u_pad, static_cast<char>('0'));
   }
-- 
2.43.0


From 37a44c9e21fa6c4aac4908db126b8c2e901cd2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 016/104] fix: fixed output of numbers smaller than the
 precision

---
 libs/e_float/src/e_float/e_float_base.cpp | 30 +++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index cd3dffb..52f1621 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -261,8 +261,34 @@ void e_float_base::wr_string(std::string& str, std::ostream& os) const
     the_number_of_digits_i_want_from_e_float = (std::min)(os_precision, static_cast<std::size_t>(std::numeric_limits<e_float>::max_digits10));
   }
 
-  // Extract the rounded output string with the desired number of digits.
-  get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  if(the_number_of_digits_i_want_from_e_float == static_cast<std::size_t>(0U))
+  {
+    // All of the digits of this small number in fixed format lie beyond the
+    // precision. The result is either zero or one unit in the last place.
+    std::int64_t first_digit_exp = the_exp;
+
+    get_output_string(str, first_digit_exp, max10_plus_one);
+
+    const std::int64_t first_lost_exp = static_cast<std::int64_t>(-1) - static_cast<std::int64_t>(os_precision);
+
+    const bool round_up = (    (first_digit_exp >  first_lost_exp)
+                           || ((first_digit_exp == first_lost_exp) && (str.at(0U) >= static_cast<char>('5'))));
+
+    if(round_up)
+    {
+      str     = "1";
+      the_exp = first_lost_exp + static_cast<std::int64_t>(1);
+    }
+    else
+    {
+      str.clear();
+    }
+  }
+  else
+  {
+    // Extract the rounded output string with the desired number of digits.
+    get_output_string(str, the_exp, the_number_of_digits_i_want_from_e_float);
+  }
 
   // Obtain additional format information.
   const bool my_showpoint  = ((my_flags & std::ios::showpoint)  != static_cast<std::ios::fmtflags>(0U));
-- 
2.43.0


From 1c140a1c4b4ba49eba4a863df37f918e41712f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 017/104] fix: reading a number replaces a non-finite value and
 releases the previous storage

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp        | 2 ++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp        | 9 ++++++++-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp      | 8 +++++---
 libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h | 1 +
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 107b412..1e314fb 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1822,6 +1822,8 @@ bool efx::e_float::rd_string(const char* const s)
 {
   std::string str(s);
 
+  my_fpclass = ef_finite;
+
   // Get a possible exponent and remove it.
   my_exp = static_cast<std::int64_t>(0);
 
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 27cc621..35a8b85 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1063,7 +1063,14 @@ bool gmp::e_float::rd_string(const char* const s)
     str += str_exp;
   }
 
-  // Set the e_float value.
+  // Set the e_float value. Release the storage of a value already held.
+  my_fpclass = ef_finite;
+
+  if(my_rop[0U]._mp_d != nullptr)
+  {
+    ::mpf_clear(my_rop);
+  }
+
   const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
 
   if(b_negate)
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index b5775a2..5e10fac 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -29,8 +29,8 @@ namespace local
   }
 }
 
-mpfr::e_float::e_float(const char* s)          { init(); static_cast<void>(rd_string(s)); }
-mpfr::e_float::e_float(const std::string& str) { init(); static_cast<void>(rd_string(str.c_str())); }
+mpfr::e_float::e_float(const char* s)          { init(); ::mpfr_init(my_rop); static_cast<void>(rd_string(s)); }
+mpfr::e_float::e_float(const std::string& str) { init(); ::mpfr_init(my_rop); static_cast<void>(rd_string(str.c_str())); }
 
 mpfr::e_float::e_float(const double mantissa, const std::int64_t exponent)
 {
@@ -109,6 +109,8 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
 
   init();
 
+  ::mpfr_init(my_rop);
+
   static_cast<void>(rd_string(str.c_str()));
 }
 
@@ -615,7 +617,7 @@ void mpfr::e_float::get_output_string(std::string& str, std::int64_t& the_exp, c
   }
 }
 
-bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_init_set_str(my_rop, s, 10, GMP_RNDN) == 1); }
+bool mpfr::e_float::rd_string(const char* const s) { return (::mpfr_set_str(my_rop, s, 10, GMP_RNDN) == 0); }
 
 e_float mpfr::e_float::my_own_cbrt         (const e_float& x) { e_float res; static_cast<void>(::mpfr_cbrt (res.my_rop, x.my_rop, GMP_RNDN)); return res; }
 e_float mpfr::e_float::my_own_rootn        (const e_float& x, const std::uint32_t p)
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h
index 1051e5b..ce75692 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr_protos.h
@@ -74,6 +74,7 @@
     #define mpfr_init_set_d(x, d, rnd)   ( mpfr_init(x), static_cast<void>(mpfr_set_d((x), (d), (rnd))))
     #define mpfr_init_set_ld(x, ld, rnd) ( mpfr_init(x), static_cast<void>(mpfr_set_ld((x), (ld), (rnd))))
     int mpfr_init_set_str(mpfr_ptr, const char*, int, mpfr_rnd_t);
+    int mpfr_set_str         (mpfr_ptr, const char*, int, mpfr_rnd_t);
 
     int mpfr_add(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
     int mpfr_sub(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
-- 
2.43.0


From 850556c81b9511293bbb4e86413559b383958e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 018/104] fix: assign to a moved-from dynamic_array and survive
 self-move

---
 libs/e_float/src/utility/util_dynamic_array.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index d52a331..5714a5d 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -136,9 +136,17 @@
       {
         if(this != &other)
         {
-          std::copy(other.elems,
-                    other.elems + (std::min)(elem_count, other.elem_count),
-                    elems);
+          if(elem_count == other.elem_count)
+          {
+            std::copy(other.elems, other.elems + elem_count, elems);
+          }
+          else
+          {
+            // The sizes differ, such as when *this has been moved from.
+            dynamic_array tmp(other);
+
+            swap(tmp);
+          }
         }
 
         return *this;
@@ -147,6 +155,11 @@
       // Move assignment operator.
       dynamic_array& operator=(dynamic_array&& other)
       {
+        if(this == &other)
+        {
+          return *this;
+        }
+
         // Destroy the elements and deallocate the range.
         pointer p = elems;
 
-- 
2.43.0


From 3e260cf79107e477d3312188a9f63b0322432818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 019/104] fix: NaN multiplied by a signed integer remains NaN

---
 libs/e_float/src/e_float/e_float_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_base.cpp b/libs/e_float/src/e_float/e_float_base.cpp
index 52f1621..297f9c2 100644
--- a/libs/e_float/src/e_float/e_float_base.cpp
+++ b/libs/e_float/src/e_float/e_float_base.cpp
@@ -139,7 +139,7 @@ e_float& e_float_base::mul_signed_long_long(const signed long long n)
   }
 
   // Check for overflow.
-  if(ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)())
+  if(isfinite() && (ef::fabs(static_cast<e_float&>(*this)) > (std::numeric_limits<e_float>::max)()))
   {
     *this = ((!isneg()) ?  std::numeric_limits<e_float>::infinity()
                         : -std::numeric_limits<e_float>::infinity());
-- 
2.43.0


From d110634828f320bdeec3e587dc2a179759f6fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 020/104] fix: gmp infinities and NaN are neither zero nor
 integers

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 35a8b85..4b55d4a 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -580,7 +580,7 @@ std::int32_t gmp::e_float::cmp(const e_float& v) const
 
 bool gmp::e_float::iszero() const
 {
-  return (::mpf_sgn(my_rop) == 0);
+  return (isfinite() && (::mpf_sgn(my_rop) == 0));
 }
 
 bool gmp::e_float::isone() const
@@ -592,7 +592,7 @@ bool gmp::e_float::isone() const
 bool gmp::e_float::isint() const
 {
   // Check if the value of *this is pure integer or very close to pure integer.
-  return (::mpf_integer_p(my_rop) != 0);
+  return (isfinite() && (::mpf_integer_p(my_rop) != 0));
 }
 
 bool gmp::e_float::isneg() const
-- 
2.43.0


From 297e0d6cf8f691fabc2f8663b5c4a5af991e8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 021/104] fix: efx products and quotients near the ends of the
 exponent range

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 97 +++++++++++---------
 libs/e_float/src/e_float/efx/e_float_efx.h   |  2 +
 2 files changed, 58 insertions(+), 41 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 1e314fb..c670769 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -709,35 +709,6 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
     return (*this = ef::zero());
   }
 
-  // Check for overflow or underflow.
-  const auto u_exp_is_neg = (  my_exp < static_cast<std::int64_t>(0));
-  const auto v_exp_is_neg = (v.my_exp < static_cast<std::int64_t>(0));
-
-  if(u_exp_is_neg == v_exp_is_neg)
-  {
-    // Get the unsigned base-10 exponents of *this and v and...
-    const std::int64_t u_exp = ((!u_exp_is_neg) ?   my_exp : static_cast<std::int64_t>(  -my_exp));
-    const std::int64_t v_exp = ((!v_exp_is_neg) ? v.my_exp : static_cast<std::int64_t>(-v.my_exp));
-
-    // Check the range of the upcoming multiplication.
-    const auto b_result_is_out_of_range = (v_exp >= static_cast<std::int64_t>(ef_max_exp10 - u_exp));
-
-    if(b_result_is_out_of_range)
-    {
-      if(u_exp_is_neg)
-      {
-        *this = ef::zero();
-      }
-      else
-      {
-        *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
-                                    : -std::numeric_limits<e_float>::infinity());
-      }
-
-      return *this;
-    }
-  }
-
   // Set the exponent of the result.
   my_exp += v.my_exp;
 
@@ -794,7 +765,7 @@ efx::e_float& efx::e_float::operator*=(const e_float& v)
   // Set the sign of the result.
   my_neg = b_result_is_neg;
 
-  return *this;
+  return check_range();
 }
 
 efx::e_float& efx::e_float::operator/=(const e_float& v)
@@ -821,7 +792,27 @@ efx::e_float& efx::e_float::operator/=(const e_float& v)
   }
   else
   {
-    operator*=(e_float(v).calculate_inv());
+    e_float v_inv(v);
+
+    // Remove the exponents from the calculation since the inverse of v alone
+    // could be out of range, even if the quotient is not.
+    std::int64_t exp_of_result = static_cast<std::int64_t>(0);
+
+    if(v_inv.isfinite() && (!v_inv.iszero()))
+    {
+      exp_of_result = static_cast<std::int64_t>(my_exp - v_inv.my_exp);
+
+      my_exp = v_inv.my_exp = static_cast<std::int64_t>(0);
+    }
+
+    operator*=(v_inv.calculate_inv());
+
+    if(isfinite() && (!iszero()))
+    {
+      my_exp += exp_of_result;
+
+      static_cast<void>(check_range());
+    }
   }
 
   return *this;
@@ -906,7 +897,7 @@ efx::e_float& efx::e_float::mul_unsigned_long_long(const unsigned long long n)
   // Set the sign.
   my_neg = b_neg;
 
-  return *this;
+  return check_range();
 }
 
 efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
@@ -985,16 +976,10 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
     }
   }
 
-  // Check for underflow.
-  if(iszero())
-  {
-    return (*this = ef::zero());
-  }
-
   // Set the sign of the result.
   my_neg = b_neg;
 
-  return *this; 
+  return check_range();
 }
 
 void efx::e_float::swap(e_float& other)
@@ -1042,6 +1027,12 @@ efx::e_float& efx::e_float::calculate_inv()
     return *this;
   }
 
+  // Remove the exponent, in order to avoid overflow and underflow of
+  // the intermediate results. It is taken into account at the end.
+  const std::int64_t original_exp = my_exp;
+
+  my_exp = static_cast<std::int64_t>(0);
+
   // Use the original value of *this for iteration below.
   e_float x(*this);
 
@@ -1084,7 +1075,9 @@ efx::e_float& efx::e_float::calculate_inv()
 
   my_prec_elem = original_prec_elem;
 
-  return *this;
+  my_exp -= original_exp;
+
+  return check_range();
 }
 
 efx::e_float& efx::e_float::calculate_sqrt()
@@ -1191,6 +1184,26 @@ e_float& efx::e_float::negate()
   return *this;
 }
 
+efx::e_float& efx::e_float::check_range()
+{
+  // Check the range of a finite, non-zero result. This sets the
+  // result to infinity (or zero) upon overflow (or underflow).
+  if(my_exp < static_cast<std::int64_t>(ef_min_exp10))
+  {
+    *this = ef::zero();
+  }
+  else if(   (my_exp >= static_cast<std::int64_t>(ef_max_exp10))
+          && (ef::fabs(*this) > (std::numeric_limits<e_float>::max)()))
+  {
+    const bool b_result_is_neg = my_neg;
+
+    *this = ((!b_result_is_neg) ?  std::numeric_limits<e_float>::infinity()
+                                : -std::numeric_limits<e_float>::infinity());
+  }
+
+  return *this;
+}
+
 std::int32_t efx::e_float::cmp_data(const array_type& vd) const
 {
   // Compare the data of *this with those of v.
@@ -2053,7 +2066,9 @@ bool efx::e_float::rd_string(const char* const s)
   }
 
   // Check for overflow...
-  if(my_exp > std::numeric_limits<e_float>::max_exponent10)
+  if(   (my_exp >  std::numeric_limits<e_float>::max_exponent10)
+     || (   (my_exp == std::numeric_limits<e_float>::max_exponent10)
+         && (my_data[0U] > static_cast<std::uint32_t>(9U))))
   {
     const bool b_result_is_neg = my_neg;
 
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.h b/libs/e_float/src/e_float/efx/e_float_efx.h
index 5e5d0c8..46dc46e 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.h
+++ b/libs/e_float/src/e_float/efx/e_float_efx.h
@@ -250,6 +250,8 @@
 
       std::int32_t cmp_data(const array_type& vd) const;
 
+      e_float& check_range();
+
       static std::uint32_t mul_loop_uv (std::uint32_t* const u, const std::uint32_t* const v, const std::int32_t p);
       static std::uint32_t mul_loop_n  (std::uint32_t* const u,       std::uint32_t n,        const std::int32_t p);
       static std::uint32_t div_loop_n  (std::uint32_t* const u,       std::uint32_t n,        const std::int32_t p);
-- 
2.43.0


From 84d4fc93c0c408db88e2bb8c3551660edfe8c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 022/104] fix: numeric_limits<e_float>::lowest is the most
 negative finite value

---
 libs/e_float/src/e_float/e_float.cpp | 1 +
 libs/e_float/src/e_float/e_float.h   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float.cpp b/libs/e_float/src/e_float/e_float.cpp
index efb5e53..67a385b 100644
--- a/libs/e_float/src/e_float/e_float.cpp
+++ b/libs/e_float/src/e_float/e_float.cpp
@@ -31,6 +31,7 @@ bool operator> (const e_float& u, const e_float& v) { return (u.cmp(v) >  static
 
 const e_float& ef::value_nan() { static const e_float val = e_float().my_value_nan(); return val; }
 const e_float& ef::value_inf() { static const e_float val = e_float().my_value_inf(); return val; }
+const e_float& ef::value_lowest() { static const e_float val = -ef::value_max(); return val; }
 const e_float& ef::value_max() { static const e_float val = e_float().my_value_max(); return val; }
 const e_float& ef::value_min() { static const e_float val = e_float().my_value_min(); return val; }
 
diff --git a/libs/e_float/src/e_float/e_float.h b/libs/e_float/src/e_float/e_float.h
index fd82ff4..89520a8 100644
--- a/libs/e_float/src/e_float/e_float.h
+++ b/libs/e_float/src/e_float/e_float.h
@@ -37,6 +37,7 @@
     const e_float& half     ();
     const e_float& value_min();
     const e_float& value_max();
+    const e_float& value_lowest();
     const e_float& value_eps();
     const e_float& value_inf();
     const e_float& value_nan();
@@ -75,7 +76,7 @@
 
       static const e_float& (min)        () noexcept { return ef::value_min(); }
       static const e_float& (max)        () noexcept { return ef::value_max(); }
-      static const e_float& lowest       () noexcept { return ef::zero(); }
+      static const e_float& lowest       () noexcept { return ef::value_lowest(); }
       static const e_float& epsilon      () noexcept { return ef::value_eps(); }
       static const e_float& round_error  () noexcept { return ef::half(); }
       static const e_float& infinity     () noexcept { return ef::value_inf(); }
-- 
2.43.0


From 249b7fc70b37e5c4f2bda23c4fa7298a87f3d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 023/104] fix: gmp text beyond the exponent range reads as
 infinity or zero

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 4b55d4a..0af1a88 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1073,6 +1073,19 @@ bool gmp::e_float::rd_string(const char* const s)
 
   const std::int32_t n_set_result = static_cast<std::int32_t>(::mpf_init_set_str(my_rop, str.c_str(), 10));
 
+  // Check for overflow and underflow.
+  long u_exp2_signed;
+  static_cast<void>(::mpf_get_d_2exp(&u_exp2_signed, my_rop));
+
+  if(u_exp2_signed > static_cast<long>(ef_max_exp))
+  {
+    *this = std::numeric_limits<e_float>::infinity();
+  }
+  else if(u_exp2_signed < static_cast<long>(ef_min_exp))
+  {
+    *this = ef::zero();
+  }
+
   if(b_negate)
   {
     negate();
-- 
2.43.0


From 49c5f8b203fecd0c22fea6837a8d5d976e9c5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 024/104] fix: gmp assignment copies the value with all of its
 digits

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 0af1a88..2172eab 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -628,8 +628,10 @@ e_float& gmp::e_float::operator=(const e_float& v)
     my_fpclass   = v.my_fpclass;
     my_prec_elem = v.my_prec_elem;
 
-    ::mpf_set         (my_rop, v.my_rop);
-    ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+    // Take over the precision of v first, such that its value is copied exactly.
+    my_rop[0U]._mp_prec = v.my_rop[0U]._mp_prec;
+
+    ::mpf_set(my_rop, v.my_rop);
   }
 
   return *this;
@@ -641,8 +643,10 @@ e_float& gmp::e_float::operator=(e_float&& v)
   my_fpclass   = v.my_fpclass;
   my_prec_elem = v.my_prec_elem;
 
-  ::mpf_set         (my_rop, v.my_rop);
-  ::mpf_set_prec_raw(my_rop, static_cast<unsigned long>(static_cast<std::uint64_t>(static_cast<double>(my_prec_elem) / local::value_log2)));
+  // Take over the precision of v first, such that its value is copied exactly.
+  my_rop[0U]._mp_prec = v.my_rop[0U]._mp_prec;
+
+  ::mpf_set(my_rop, v.my_rop);
 
   return *this;
 }
-- 
2.43.0


From 64c969cb0ca5d888796952fc98811a1b6afc76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 025/104] fix: efx square root iterates until it has converged
 to full precision

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c670769..44eaac5 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1162,7 +1162,7 @@ efx::e_float& efx::e_float::calculate_sqrt()
     const std::int64_t order_check = order() - iteration_term.order();
 
     if(   (digits      > static_cast<std::int32_t>(ef::tolerance() / 4))
-       && (order_check > static_cast<std::int64_t>(ef::tolerance() / 2))
+       && (order_check > static_cast<std::int64_t>(ef::tolerance()))
       )
     {
       break;
-- 
2.43.0


From 9c213f444f7a4b9e4b729922cae8b6a8bbf15070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 026/104] fix: efx square root near the ends of the exponent
 range

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 44eaac5..3c1a559 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1094,6 +1094,12 @@ efx::e_float& efx::e_float::calculate_sqrt()
     return *this;
   }
 
+  // Remove an even power of the limb base from the exponent such that the
+  // iteration stays away from the ends of the exponent range.
+  const auto original_exp = my_exp - (my_exp % (2 * ef_elem_digits10));
+
+  my_exp -= original_exp;
+
   // Use the original value of *this for iteration below.
   e_float x(*this);
 
@@ -1171,6 +1177,8 @@ efx::e_float& efx::e_float::calculate_sqrt()
 
   my_prec_elem = original_prec_elem;
 
+  my_exp += original_exp / 2;
+
   return *this;
 }
 
-- 
2.43.0


From 87e98f5718e55d902d1fd2a7f411387ad90f865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 027/104] fix: efx/gmp square root of infinity is infinity

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++--
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 3c1a559..6c2a2ff 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1084,12 +1084,12 @@ efx::e_float& efx::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || (!isfinite()))
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
-  if(iszero() || isone())
+  if(iszero() || isone() || isinf())
   {
     return *this;
   }
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 2172eab..7fd5b89 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -507,12 +507,12 @@ gmp::e_float& gmp::e_float::calculate_sqrt()
 {
   // Compute the square root of *this.
 
-  if(isneg() || !isfinite())
+  if(isneg() || isnan())
   {
     return (*this = std::numeric_limits<e_float>::quiet_NaN());
   }
 
-  if(iszero() || isone())
+  if(iszero() || isone() || isinf())
   {
     return *this;
   }
-- 
2.43.0


From b5342d8441b97cb3451db2ad75a0b1c1cdfc0b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 028/104] fix: initial estimate of roots of high order

---
 .../src/functions/elementary/elementary_trans.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2e0defd..079f312 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -44,15 +44,14 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
 
   ef::to_parts(x, dd, ne);
 
-  // Adjust exponent and mantissa such that ne is an even power of p.
-  while(ne % static_cast<std::int64_t>(p))
-  {
-    ++ne;
-    dd /= 10.0;
-  }
-  
+  // Split the exponent such that the part which is scaled is a multiple of p.
+  const std::int64_t nr = ne % static_cast<std::int64_t>(p);
+
+  ne -= nr;
+
   // Estimate the one over the root using simple manipulations.
-  const double one_over_rtn_d = ::pow(dd, -1.0 / static_cast<double>(p));
+  const double one_over_rtn_d =   ::pow(dd, -1.0 / static_cast<double>(p))
+                                * ::pow(10.0, -static_cast<double>(nr) / static_cast<double>(p));
 
   // Set the result equal to the initial guess.
   e_float result(one_over_rtn_d, static_cast<std::int64_t>(-ne / p));
-- 
2.43.0


From 5572c05b4012647415396b97c2098e419d37955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 029/104] fix: roots of zero and infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 079f312..5113e20 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -89,7 +89,7 @@ e_float ef::cbrt(const e_float& x)
 
 e_float ef::rootn(const e_float& x, const std::int32_t p)
 {
-  if(!ef::isfinite(x))
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
@@ -103,7 +103,7 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-  else if(p == static_cast<std::int32_t>(1))
+  else if((p == static_cast<std::int32_t>(1)) || ef::iszero(x) || ef::isinf(x))
   {
     return x;
   }
-- 
2.43.0


From bce4873405b20fb350cfda64f93cfa5c864c411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 030/104] fix: rootn_inverse of order one and of negative order

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 5113e20..36831a8 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -131,7 +131,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
 
   if(p < static_cast<std::int32_t>(0))
   {
-    return detail::pown_template(x, static_cast<std::int32_t>(-p));
+    return ef::rootn(x, static_cast<std::int32_t>(-p));
   }
 
   if((p == static_cast<std::int32_t>(0)) || ef::isneg(x))
@@ -140,7 +140,7 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
   }
   else if(p == static_cast<std::int32_t>(1))
   {
-    return x;
+    return ef::one() / x;
   }
   else if(p == static_cast<std::int32_t>(2))
   {
-- 
2.43.0


From ebbd9e4757a7081a80ec300111816aaee4978ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 031/104] fix: logarithm of infinity is infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 36831a8..59ebe58 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -245,11 +245,16 @@ namespace Log_Series
 e_float ef::log(const e_float& x)
 {
   // Handle special arguments.
-  if(ef::isnan(x) || ef::isneg(x) || ef::isinf(x))
+  if(ef::isnan(x) || ef::isneg(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(ef::isinf(x))
+  {
+    return std::numeric_limits<e_float>::infinity();
+  }
+
   if(x.i_have_my_own_log())
   {
     return e_float::my_own_log(x);
-- 
2.43.0


From cb33329ba3500a95a9f548cbb6abca8e042b1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 032/104] fix: log1p of arguments that are not small

---
 .../src/functions/elementary/elementary_trans.cpp        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 59ebe58..3293dba 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -363,7 +363,14 @@ e_float ef::log(const e_float& x)
 
 e_float ef::log10(const e_float& x)                   { return ef::log(x) / ef::ln10(); }
 e_float ef::loga (const e_float& a, const e_float& x) { return ef::log(x) / ef::log(a); }
-e_float ef::log1p(const e_float& x)                   { return Log_Series::AtOne(x); }
+
+e_float ef::log1p(const e_float& x)
+{
+  // The series is used for small arguments only. It converges
+  // slowly near one and does not converge for larger arguments.
+  return ((ef::isfinite(x) && (x.order() < static_cast<std::int64_t>(-1))) ? Log_Series::AtOne(x)
+                                                                           : ef::log(ef::one() + x));
+}
 
 e_float ef::log1p1m2(const e_float& x)
 {
-- 
2.43.0


From 43e2ee931241a0e119b9def819db546fc5aeacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 033/104] fix: powers of zero and infinity and infinite
 exponents

---
 .../functions/elementary/elementary_trans.cpp | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 3293dba..fa3c6ba 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -420,23 +420,52 @@ e_float ef::log1p1m2(const e_float& x)
 
 e_float ef::pow(const e_float& x, const e_float& a)
 {
-  if((ef::isfinite(x) == false) || ef::isone(a))
+  if(ef::iszero(a))
+  {
+    return ef::one();
+  }
+
+  if(ef::isnan(x) || ef::isnan(a))
+  {
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  if(ef::isone(a))
   {
     return x;
   }
 
-  if(ef::iszero(x))
+  if(ef::isinf(a))
   {
-    return ef::one();
+    const e_float xx = ef::fabs(x);
+
+    if(ef::isone(xx))
+    {
+      return ef::one();
+    }
+
+    return (((xx > ef::one()) == ef::ispos(a)) ? std::numeric_limits<e_float>::infinity() : ef::zero());
   }
-  
-  if(ef::iszero(a))
+
+  if(ef::iszero(x))
   {
-    return ef::one();
+    return (ef::isneg(a) ? std::numeric_limits<e_float>::infinity() : ef::zero());
   }
 
   const bool bo_a_isint = ef::isint(a);
 
+  if(ef::isinf(x))
+  {
+    if(ef::isneg(a))
+    {
+      return ef::zero();
+    }
+
+    const bool b_negate = (ef::isneg(x) && bo_a_isint && (!ef::iszero(ef::decimal_part(a / static_cast<std::int32_t>(2)))));
+
+    return (b_negate ? -std::numeric_limits<e_float>::infinity() : std::numeric_limits<e_float>::infinity());
+  }
+
   if(ef::isneg(x) && !bo_a_isint)
   {
     return std::numeric_limits<e_float>::quiet_NaN();
-- 
2.43.0


From 1d40e7be307349e3ebb22f79bdfd4fca6b67ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 034/104] fix: sign of the arcsine of small negative arguments

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index c3e2077..4b2cfcd 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -300,10 +300,10 @@ e_float ef::asin(const e_float& x)
   if(ef::small_arg(xx))
   {
     // http://functions.wolfram.com/ElementaryFunctions/ArcSin/26/01/01/
-    const e_float asin_value = x * ef::hypergeometric_2f1(ef::half(),
-                                                          ef::half(),
-                                                          ef::three_half(),
-                                                          (x * x));
+    const e_float asin_value = xx * ef::hypergeometric_2f1(ef::half(),
+                                                           ef::half(),
+                                                           ef::three_half(),
+                                                           (xx * xx));
 
     return !b_neg ? asin_value : -asin_value;
   }
-- 
2.43.0


From 22634474a89c5cdaf1d81cfba86c76bcf0a0cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 035/104] fix: arctangent of large negative arguments

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 4b2cfcd..5a5647d 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -432,7 +432,7 @@ e_float ef::atan(const e_float& x)
 
   if(ef::large_arg(x))
   {
-    return Atan_Series::AtInfinity(x);
+    return (ef::ispos(x) ? Atan_Series::AtInfinity(x) : -Atan_Series::AtInfinity(-x));
   }
 
   const bool b_neg = ef::isneg(x);
-- 
2.43.0


From 54d775da3846838bb699e5dfaf16b7fcc44a0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 036/104] fix: arctangent of infinity

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index 5a5647d..dade40e 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -404,7 +404,7 @@ static e_float Atan_Series::AtInfinity(const e_float& x)
 
 e_float ef::atan(const e_float& x)
 {
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x))
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-- 
2.43.0


From 650e655938303a23d4a8d9b0f428ec758db8c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 037/104] fix: atan2 of infinite and NaN arguments

---
 .../functions/elementary/elementary_trig.cpp  | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index dade40e..f5c0675 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -474,9 +474,29 @@ e_float ef::atan(const e_float& x)
 
 e_float ef::atan2(const e_float& y, const e_float& x)
 {
-  if((ef::isfinite(x) == false) || (ef::isfinite(y) == false))
+  if(ef::isnan(x) || ef::isnan(y))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  // y is infinite
+  if(ef::isinf(y))
+  {
+    const e_float value = ((!ef::isinf(x)) ? ef::pi_half()
+                                           : (ef::pi() * (ef::isneg(x) ? static_cast<std::int32_t>(3) : static_cast<std::int32_t>(1))) / static_cast<std::int32_t>(4));
+
+    return (ef::isneg(y) ? -value : value);
+  }
+
+  // x is infinite
+  if(ef::isinf(x))
+  {
+    if(ef::ispos(x))
+    {
+      return ef::zero();
+    }
+
+    return (ef::isneg(y) ? -ef::pi() : ef::pi());
   }
 
   // y is zero
@@ -491,15 +511,6 @@ e_float ef::atan2(const e_float& y, const e_float& x)
     return ef::sgn(y) * ef::pi_half();
   }
   
-  // y is infinite
-  if(y.isinf())
-  {
-    const bool b_pos = ((ef::ispos(x) && ef::ispos(y)) || (ef::isneg(x) && ef::isneg(y)));
-
-    return (b_pos ?  std::numeric_limits<e_float>::infinity()
-                  : -std::numeric_limits<e_float>::infinity());
-  }
-
   // Compute atan(y / x), ignoring sign.
   e_float atan_term(ef::atan(y / x));
 
-- 
2.43.0


From 13f0acf0b6cd5b0452b4e45636665664d84c15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 038/104] fix: sinhcosh and cosh of non-finite arguments

---
 .../src/functions/elementary/elementary_trans.cpp    | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index fa3c6ba..109eab8 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -552,11 +552,6 @@ e_float ef::sinh(const e_float& x)
     return e_float::my_own_sinh(x);
   }
 
-  if(!ef::isfinite(x))
-  {
-    return x;
-  }
-
   e_float s;
   ef::sinhcosh(x, &s, static_cast<e_float*>(0U));
   return s;
@@ -569,11 +564,6 @@ e_float ef::cosh(const e_float& x)
     return e_float::my_own_cosh(x);
   }
 
-  if(ef::isfinite(x) == false)
-  {
-    return x;
-  }
-
   e_float c;
   ef::sinhcosh(x, static_cast<e_float*>(0U), &c);
   return c;
@@ -581,7 +571,7 @@ e_float ef::cosh(const e_float& x)
 
 void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh)
 {
-  if((ef::isfinite(x) == false) || ((p_sinh == nullptr) && (p_cosh == nullptr)))
+  if((p_sinh == nullptr) && (p_cosh == nullptr))
   {
     return;
   }
-- 
2.43.0


From 48e773b013160aa5f0ed659f65c50b3ab924c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 039/104] fix: hyperbolic sine and tangent of small arguments
 keep their precision

---
 .../src/functions/elementary/elementary_trans.cpp      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 109eab8..74d9fd4 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -594,7 +594,15 @@ void ef::sinhcosh(const e_float& x, e_float* const p_sinh, e_float* const p_cosh
   const e_float e_px = ef::exp(x);
   const e_float e_mx = ef::one() / e_px;
 
-  if(p_sinh != nullptr) { *p_sinh  = (e_px - e_mx) / static_cast<std::int32_t>(2); }
+  if(p_sinh != nullptr)
+  {
+    // Use a series for small arguments in order to avoid cancellation.
+    const bool b_small = (ef::isfinite(x) && (x.order() < static_cast<std::int64_t>(0)));
+
+    *p_sinh = (b_small ? x * ef::hypergeometric_0f1(ef::three_half(), (x * x) / static_cast<std::int32_t>(4))
+                       : (e_px - e_mx) / static_cast<std::int32_t>(2));
+  }
+
   if(p_cosh != nullptr) { *p_cosh  = (e_px + e_mx) / static_cast<std::int32_t>(2); }
 }
 
-- 
2.43.0


From 649df50fa53e214c47fb8e7ebf8b0443c4e927f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 040/104] fix: hyperbolic tangent of large arguments

---
 .../src/functions/elementary/elementary_trans.cpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 74d9fd4..c62aa3a 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -613,6 +613,17 @@ e_float ef::tanh(const e_float& x)
     return e_float::my_own_tanh(x);
   }
 
+  if(ef::isnan(x))
+  {
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  if(ef::isinf(x) || (ef::fabs(x) > ef::tolerance() * static_cast<std::int64_t>(2)))
+  {
+    // The result can not be distinguished from one.
+    return (ef::isneg(x) ? -ef::one() : ef::one());
+  }
+
   e_float c, s;
   ef::sinhcosh(x, &s, &c);
   return s * c.calculate_inv();
-- 
2.43.0


From 3b578128a702deb67a43d36147617be401b2fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 041/104] fix: asinh of small arguments keeps its precision,
 asinh of infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index c62aa3a..24a8c57 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -638,13 +638,18 @@ e_float ef::asinh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return std::numeric_limits<e_float>::quiet_NaN();
+    return x;
   }
 
   if(ef::iszero(x))
   {
     return ef::zero();
   }
+  else if(x.order() < static_cast<std::int64_t>(-1))
+  {
+    // Use a series for small arguments in order to avoid cancellation.
+    return x * ef::hypergeometric_2f1(ef::half(), ef::half(), ef::three_half(), -(x * x));
+  }
   else
   {
     const e_float value = ef::log(ef::fabs(x) + ef::sqrt((x * x) + ef::one()));
-- 
2.43.0


From b5eac079ede9083ec4cf2eea1b684636a643bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 042/104] fix: acosh of infinity is infinity

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 24a8c57..d65155e 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -665,14 +665,14 @@ e_float ef::acosh(const e_float& x)
     return e_float::my_own_acosh(x);
   }
 
-  if(ef::isfinite(x) == false)
+  if(ef::isnan(x) || ef::isneg(x) || x < ef::one())
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  if(ef::isneg(x) || x < ef::one())
+  if(ef::isinf(x))
   {
-    return std::numeric_limits<e_float>::quiet_NaN();
+    return x;
   }
 
   if(ef::isone(x))
-- 
2.43.0


From c95667624fbd834ffc0708d887ebfc4a80f0d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 043/104] fix: atanh of one and of infinity

---
 .../src/functions/elementary/elementary_trans.cpp     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index d65155e..23a6187 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -705,12 +705,17 @@ e_float ef::atanh(const e_float& x)
 
   if(!ef::isfinite(x))
   {
-    return x;
+    return std::numeric_limits<e_float>::quiet_NaN();
   }
 
   const e_float xx = ef::fabs(x);
-  
-  if(xx >= ef::one())
+
+  if(ef::isone(xx))
+  {
+    return (ef::isneg(x) ? -std::numeric_limits<e_float>::infinity() : std::numeric_limits<e_float>::infinity());
+  }
+
+  if(xx > ef::one())
   {
     return std::numeric_limits<e_float>::quiet_NaN();
   }
-- 
2.43.0


From e76b88d580c378b4dd2cb4fa996df771455cddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 044/104] fix: arcsine near one keeps its precision

---
 libs/e_float/src/functions/elementary/elementary_trig.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trig.cpp b/libs/e_float/src/functions/elementary/elementary_trig.cpp
index f5c0675..a0e77b7 100644
--- a/libs/e_float/src/functions/elementary/elementary_trig.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trig.cpp
@@ -307,8 +307,9 @@ e_float ef::asin(const e_float& x)
 
     return !b_neg ? asin_value : -asin_value;
   }
-  else if(ef::near_one(xx))
+  else if((ef::one() - xx).order() < static_cast<std::int64_t>(-4))
   {
+    // The Newton iteration below converges slowly near one.
     const e_float dx1 = ef::one() - xx;
 
     const e_float asin_value =    ef::pi_half()
-- 
2.43.0


From be1bfc75de4546faa4ed6a5430f36987472a985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 045/104] fix: atanh of small arguments keeps its precision

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 23a6187..f7394e3 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -720,8 +720,11 @@ e_float ef::atanh(const e_float& x)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
-  const e_float value = (ef::small_arg(x) ?  ef::log1p1m2(x)
-                                          : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
+  // Use a series for small arguments in order to avoid cancellation.
+  const bool b_small = (x.order() < static_cast<std::int64_t>(-1));
+
+  const e_float value = (b_small ?  ef::log1p1m2(x)
+                                 : (ef::log((ef::one() + x) / (ef::one() - x)) / static_cast<std::int32_t>(2)));
 
   return ((!ef::isneg(xx)) ? value : -value);
 }
-- 
2.43.0


From d3a4a26f449763e6edc2b937b28a46fddc52ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 046/104] fix: frexp splits into a mantissa in [1/2, 1) and a
 binary exponent

---
 .../functions/elementary/elementary_math.cpp  | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 421bd06..bdf2c0a 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -75,14 +75,34 @@ e_float ef::ldexp(const e_float& v, int e)
 
 e_float ef::frexp(const e_float& v, int* expon)
 {
+  if((!ef::isfinite(v)) || ef::iszero(v))
+  {
+    *expon = 0;
+
+    return v;
+  }
+
   double d;
   std::int64_t i;
 
   v.extract_parts(d, i);
 
-  *expon = static_cast<int>(i);
+  // Estimate the binary exponent from the decimal one and subsequently
+  // normalize the mantissa such that its absolute value is in [1/2, 1).
+  using std::fabs;
+  using std::floor;
+  using std::log2;
+
+  std::int64_t n = static_cast<std::int64_t>(floor(log2(fabs(d)) + (static_cast<double>(i) * log2(10.0)))) + 1;
+
+  e_float m = v * ef::pow2(static_cast<std::int64_t>(-n));
+
+  while(ef::fabs(m) >= ef::one())  { m /= static_cast<std::int32_t>(2); ++n; }
+  while(ef::fabs(m) <  ef::half()) { m *= static_cast<std::int32_t>(2); --n; }
+
+  *expon = static_cast<int>(n);
 
-  return v * ef::pow2(static_cast<std::int64_t>(-i));
+  return m;
 }
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
-- 
2.43.0


From ca7550bca696eb60899c2962fe1a8f7eb5df4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 047/104] fix: fmod truncates the quotient and has a remainder
 below the divisor

---
 .../functions/elementary/elementary_math.cpp  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index bdf2c0a..ee6a85d 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -107,9 +107,28 @@ e_float ef::frexp(const e_float& v, int* expon)
 
 e_float ef::fmod(const e_float& v1, const e_float& v2)
 {
-  const e_float n = (ef::isneg(v1) ? ef::ceil(v1 / v2) : ef::floor(v1 / v2));
+  if((!ef::isfinite(v1)) || ef::isnan(v2) || ef::iszero(v2))
+  {
+    return std::numeric_limits<e_float>::quiet_NaN();
+  }
+
+  if(ef::isinf(v2))
+  {
+    return v1;
+  }
+
+  const e_float v2_abs = ef::fabs(v2);
+
+  // Compute the remainder of the absolute value.
+  e_float r = ef::fabs(v1);
+
+  r -= ef::integer_part(r / v2_abs) * v2_abs;
+
+  // The quotient might have been rounded up to or down from an integer.
+  if(r <  ef::zero()) { r += v2_abs; }
+  if(r >= v2_abs)     { r -= v2_abs; }
 
-  return v1 - (n * v2);
+  return (ef::isneg(v1) ? -r : r);
 }
 
 bool ef::isfinite(const double x)
-- 
2.43.0


From e7dabaf60cab6f27666cbf501ff8edab0ce59a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 048/104] fix: prime_factors does not list the number one as a
 factor

---
 libs/e_float/src/functions/integer/prime_factor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 5072e60..6b94adc 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -64,7 +64,11 @@ namespace Primes
 
       if(static_cast<std::uint32_t>(np / p) <= p)
       {
-        pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        // The remaining cofactor is either prime or one, and one is not a factor.
+        if(np > static_cast<std::uint32_t>(1U))
+        {
+          pf.push_back(Util::point<std::uint32_t>(np, static_cast<std::uint32_t>(1U)));
+        }
 
         break;
       }
-- 
2.43.0


From 1749b988bde17357dc67c01da71084b3a3afae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 049/104] fix: bernoulli_table of zero does not write beyond
 its table

---
 libs/e_float/src/functions/integer/bernoulli_b.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/integer/bernoulli_b.cpp b/libs/e_float/src/functions/integer/bernoulli_b.cpp
index babc2a0..1737947 100644
--- a/libs/e_float/src/functions/integer/bernoulli_b.cpp
+++ b/libs/e_float/src/functions/integer/bernoulli_b.cpp
@@ -73,6 +73,13 @@ void ef::bernoulli_table(std::vector<e_float>& bn, const std::uint32_t n)
   // Also see "Modern Computer Arithmetic", Richard P. Brent and Paul Zimmermann,
   // Cambridge University Press, 2010, 237 pp.
 
+  if(n == static_cast<std::uint32_t>(0U))
+  {
+    bn.assign(static_cast<std::vector<e_float>::size_type>(1U), ef::one());
+
+    return;
+  }
+
   const std::uint32_t nn = (((n % static_cast<std::uint32_t>(2)) != static_cast<std::uint32_t>(0U)) ? static_cast<std::uint32_t>(n + 1U) : n);
 
   const std::int32_t m = static_cast<std::int32_t>(nn / static_cast<std::uint32_t>(2U));
-- 
2.43.0


From 48090e1d11d8674d47d5092e481a80777bcb3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 050/104] fix: pochhammer of non-positive integers and of large
 arguments is not NaN for large n

---
 libs/e_float/src/functions/gamma/pochhammer.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/pochhammer.cpp b/libs/e_float/src/functions/gamma/pochhammer.cpp
index ede5a5c..421198e 100644
--- a/libs/e_float/src/functions/gamma/pochhammer.cpp
+++ b/libs/e_float/src/functions/gamma/pochhammer.cpp
@@ -23,6 +23,12 @@ namespace Pochhammer_Series
     using ef::gamma;
     using ef::gamma;
     using ef::one;
+    using ef::abs;
+    using ef::imag;
+    using ef::isint;
+    using ef::ispos;
+    using ef::iszero;
+    using ef::order_of;
 
     if(n == static_cast<std::uint32_t>(0U))
     {
@@ -34,7 +40,13 @@ namespace Pochhammer_Series
     }
     else
     {
-      if(n < static_cast<std::uint32_t>(50U))
+      // The quotient of gamma functions can not be used at the poles of the
+      // gamma function or if these are very large.
+      const bool use_product =    (n < static_cast<std::uint32_t>(50U))
+                               || (order_of(abs(x)) > static_cast<std::int64_t>(5))
+                               || (iszero(imag(x)) && isint(real(x)) && ((!ispos(real(x))) || iszero(real(x))));
+
+      if(use_product)
       {
         T val (x);
         T term(x);
@@ -44,6 +56,8 @@ namespace Pochhammer_Series
           term += TR(1U);
 
           val *= term;
+
+          if(iszero(real(val)) && iszero(imag(val))) { break; }
         }
 
         return val;
-- 
2.43.0


From afc40170c0ef7d0475a9676a6302d295493f8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 051/104] fix: the zeta function of small negative arguments
 keeps its precision

---
 libs/e_float/src/functions/zeta/zeta.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index f7d6c72..d5e6751 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -82,6 +82,7 @@ namespace Zeta_Series
     using ef::to_int32;
     using ef::to_double;
     using ef::order_of;
+    using ef::small_arg;
     using ef::factorial;
     using ef::riemann_zeta;
     using ef::one;
@@ -105,7 +106,8 @@ namespace Zeta_Series
       }
     }
 
-    if(isneg(real(s)))
+    // Do not reflect if one minus the argument would lose the digits of the argument.
+    if(isneg(real(s)) && (!small_arg(fabs(TR(real(s))))))
     {
       // Support negative arguments using the reflection formula.
       // Support arguments with a real part which is less than 1/2.
@@ -141,7 +143,7 @@ namespace Zeta_Series
     static const double td             = static_cast<double>(static_cast<std::int32_t>(tolerance()));
            const double sd             = to_double(real(s));
 
-    if(s_is_pure_real && ((td / sd) < lg10_max_prime))
+    if(s_is_pure_real && (sd > 0.0) && ((td / sd) < lg10_max_prime))
     {
       // Perform the product of primes.
       T product(1U);
-- 
2.43.0


From 365cb2b3553cc1d63dad0ef55e854b18e1a663df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 052/104] fix: complex asin, atan, asinh, acosh and atanh keep
 their precision on the whole plane

---
 libs/e_float/src/e_float/e_float_complex.h | 115 +++++++++++++++------
 1 file changed, 85 insertions(+), 30 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index da6c0e0..5ce91a6 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1126,19 +1126,18 @@
 
     template<typename T> complex<T> asin(const complex<T>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(T(1U) - (c__my_z * c__my_z))));
+      // Use asin(z) = -i asinh(iz).
+      const complex<T> c__my_result(asinh(complex<T>(-c__my_z.imag(), c__my_z.real())));
+
+      return complex<T>(c__my_result.imag(), -c__my_result.real());
     }
 
     template<typename T> complex<T> atan(const complex<T>& c__my_z)
     {
-      const complex<T> __z_conj = conj(c__my_z);
-
-      complex<T> z__result = conj(log(T(1) - __z_conj) - log(T(1) + __z_conj));
-
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
+      // Use atan(z) = -i atanh(iz).
+      const complex<T> c__my_result(atanh(complex<T>(-c__my_z.imag(), c__my_z.real())));
 
-      return z__result;
+      return complex<T>(c__my_result.imag(), -c__my_result.real());
     }
 
     template<typename T> complex<T> acosh(const complex<T>& c__my_z)
@@ -1146,22 +1145,64 @@
       const complex<T> __zp(c__my_z.real() + T(1U), c__my_z.imag());
       const complex<T> __zm(c__my_z.real() - T(1U), c__my_z.imag());
 
-      return log(c__my_z + (__zp * sqrt(__zm / __zp)));
+      return log(c__my_z + (sqrt(__zp) * sqrt(__zm)));
+    }
+
+    namespace detail
+    {
+      // Compute log(1 + z) without cancellation for small z.
+      template<typename T> complex<T> complex_log1p(const complex<T>& c__my_z)
+      {
+        using std::atan2;
+        using std::fabs;
+        using std::log1p;
+
+        const T c__my_x(c__my_z.real());
+        const T c__my_y(c__my_z.imag());
+
+        const T c__my_half(T(1U) / T(2U));
+
+        if((fabs(c__my_x) > c__my_half) || (fabs(c__my_y) > c__my_half))
+        {
+          return log(complex<T>(c__my_x + T(1U), c__my_y));
+        }
+
+        return complex<T>(log1p((c__my_x * (c__my_x + T(2U))) + (c__my_y * c__my_y)) / T(2U),
+                          atan2(c__my_y, c__my_x + T(1U)));
+      }
+
+      template<typename T> complex<T> complex_asinh(const complex<T>& c__my_z)
+      {
+        // Reflect the left half plane, where z + sqrt(1 + z^2) suffers from cancellation.
+        if(   (c__my_z.real() < T(0U))
+           || ((c__my_z.real() == T(0U)) && (c__my_z.imag() < T(0U))))
+        {
+          return -complex_asinh(complex<T>(-c__my_z.real(), -c__my_z.imag()));
+        }
+
+        // Here z + sqrt(1 + z^2) = 1 + z + z^2 / (1 + sqrt(1 + z^2)).
+        const complex<T> c__my_z2(c__my_z * c__my_z);
+        const complex<T> c__my_sq(sqrt(complex<T>(c__my_z2.real() + T(1U), c__my_z2.imag())));
+
+        return complex_log1p(complex<T>(c__my_z + (c__my_z2 / complex<T>(c__my_sq.real() + T(1U), c__my_sq.imag()))));
+      }
+
+      template<typename T> complex<T> complex_atanh(const complex<T>& c__my_z)
+      {
+        const complex<T> c__my_result(complex_log1p(c__my_z) - complex_log1p(complex<T>(-c__my_z.real(), -c__my_z.imag())));
+
+        return complex<T>(c__my_result.real() / T(2U), c__my_result.imag() / T(2U));
+      }
     }
 
     template<typename T> complex<T> asinh(const complex<T>& c__my_z)
     {
-      return log(c__my_z + sqrt(T(1U) + (c__my_z * c__my_z)));
+      return detail::complex_asinh(c__my_z);
     }
 
     template<typename T> complex<T> atanh(const complex<T>& c__my_z)
     {
-      complex<T> z__result = (log(T(1U) + c__my_z) - log(T(1U) - c__my_z));
-
-      z__result.real(z__result.real() / 2U);
-      z__result.imag(z__result.imag() / 2U);
-
-      return z__result;
+      return detail::complex_atanh(c__my_z);
     }
 
     template<typename T> complex<T> cos(const complex<T>& c__my_z)
@@ -1713,17 +1754,18 @@
 
     template<> inline complex<e_float> asin(const complex<e_float>& c__my_z)
     {
-      return -conj(log(conj(c__my_z) + sqrt(ef::one() - (c__my_z * c__my_z))));
+      // Use asin(z) = -i asinh(iz).
+      const complex<e_float> c__my_result(asinh(complex<e_float>(-c__my_z.imag(), c__my_z.real())));
+
+      return complex<e_float>(c__my_result.imag(), -c__my_result.real());
     }
 
     template<> inline complex<e_float> atan(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_z_conj(conj(c__my_z));
+      // Use atan(z) = -i atanh(iz).
+      const complex<e_float> c__my_result(atanh(complex<e_float>(-c__my_z.imag(), c__my_z.real())));
 
-      const complex<e_float> c__my_pre_result(log(ef::one() - c__my_z_conj) - log(ef::one() + c__my_z_conj));
-
-      return complex<e_float>(-c__my_pre_result.imag() / 2U,
-                               c__my_pre_result.real() / 2U);
+      return complex<e_float>(c__my_result.imag(), -c__my_result.real());
     }
 
     template<> inline complex<e_float> acosh(const complex<e_float>& c__my_z)
@@ -1731,21 +1773,34 @@
       const complex<e_float> c__my_zp = c__my_z + ef::one();
       const complex<e_float> c__my_zm = c__my_z - ef::one();
 
-      return log(c__my_z + (c__my_zp * sqrt(c__my_zm / c__my_zp)));
+      return log(c__my_z + (sqrt(c__my_zp) * sqrt(c__my_zm)));
     }
 
-    template<> complex<e_float> asinh(const complex<e_float>& c__my_z)
+    namespace detail
     {
-      return log(c__my_z + sqrt((c__my_z * c__my_z) + ef::one()));
+      template<> inline complex<e_float> complex_log1p(const complex<e_float>& c__my_z)
+      {
+        const e_float c__my_x(c__my_z.real());
+        const e_float c__my_y(c__my_z.imag());
+
+        if((ef::fabs(c__my_x) > ef::half()) || (ef::fabs(c__my_y) > ef::half()))
+        {
+          return log(complex<e_float>(c__my_x + ef::one(), c__my_y));
+        }
+
+        return complex<e_float>(ef::log1p((c__my_x * (c__my_x + ef::two())) + (c__my_y * c__my_y)) / 2U,
+                                ef::atan2(c__my_y, c__my_x + ef::one()));
+      }
     }
 
-    template<> inline complex<e_float> atanh(const complex<e_float>& c__my_z)
+    template<> inline complex<e_float> asinh(const complex<e_float>& c__my_z)
     {
-      const complex<e_float> c__my_pre_result(  log(ef::one() + c__my_z)
-                                             - log(ef::one() - c__my_z));
+      return detail::complex_asinh(c__my_z);
+    }
 
-      return complex<e_float>(c__my_pre_result.real() / 2U,
-                              c__my_pre_result.imag() / 2U);
+    template<> inline complex<e_float> atanh(const complex<e_float>& c__my_z)
+    {
+      return detail::complex_atanh(c__my_z);
     }
 
     template<> inline complex<e_float> cos(const complex<e_float>& c__my_z)
-- 
2.43.0


From 83db36a274350d99d38e88bd80de07c400718d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 053/104] fix: conj returns the complex conjugate instead of
 the number times i

---
 libs/e_float/src/e_float/e_float_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 5ce91a6..9878694 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1095,7 +1095,7 @@
 
     template<typename T> complex<T> conj(const complex<T>& c__my_z)
     {
-      return complex<T>(-c__my_z.imag(), c__my_z.real());
+      return complex<T>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<typename T> complex<T> proj(const complex<T>& c__my_z)
@@ -1728,7 +1728,7 @@
 
     template<> inline complex<e_float> conj(const complex<e_float>& c__my_z)
     {
-      return complex<e_float>(-c__my_z.imag(), c__my_z.real());
+      return complex<e_float>(c__my_z.real(), -c__my_z.imag());
     }
 
     template<> inline complex<e_float> proj(const complex<e_float>& c__my_z)
-- 
2.43.0


From ff88a99a14fb5a9c29188ad0762aa557d58fce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 054/104] fix: the norm of complex zero is zero instead of NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 9878694..f3e6268 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1077,7 +1077,11 @@
 
       T c__my_result;
 
-      if(fabs(c__my_z.real()) < fabs(c__my_z.imag()))
+      if((c__my_z.real() == T(0U)) && (c__my_z.imag() == T(0U)))
+      {
+        c__my_result = T(0U);
+      }
+      else if(fabs(c__my_z.real()) < fabs(c__my_z.imag()))
       {
         const T c__my_a_over_b = c__my_z.real() / c__my_z.imag();
 
-- 
2.43.0


From c676f038d7a00b1653f0b2abe627e48079114d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 055/104] fix: failed complex input puts the characters back in
 reverse order

---
 libs/e_float/src/e_float/e_float_complex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index f3e6268..cac5bcd 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1027,8 +1027,8 @@
       {
         // Error case: Restore the characters in the input stream
         // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
+        std::for_each(c__my_input_str.crbegin(),
+                      c__my_input_str.crend(),
                       [&c__my_istream](const char& c__my_c)
                       {
                         c__my_istream.putback(c__my_c);
@@ -2076,8 +2076,8 @@
       {
         // Error case: Restore the characters in the input stream
         // and set the fail bit in the input stream.
-        std::for_each(c__my_input_str.cbegin(),
-                      c__my_input_str.cend(),
+        std::for_each(c__my_input_str.crbegin(),
+                      c__my_input_str.crend(),
                       [&c__my_istream](const char& c__my_c)
                       {
                         c__my_istream.putback(c__my_c);
-- 
2.43.0


From 94d1dc69c67ede33c99656ad247fd10c0edf2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 056/104] fix: the square root of complex zero is zero instead
 of NaN

---
 libs/e_float/src/e_float/e_float_complex.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index cac5bcd..29ef77a 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -1346,7 +1346,11 @@
       const T    __real_part_fabs  ((__real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const T    __s_part          (sqrt((__real_part_fabs + abs(c__my_z)) / 2U));
 
-      if(__real_part_is_neg == false)
+      if(__s_part == T(0U))
+      {
+        return complex<T>(T(0U));
+      }
+      else if(__real_part_is_neg == false)
       {
         return complex<T>(__s_part,
                           c__my_z.imag() / (__s_part * 2U));
@@ -1906,7 +1910,11 @@
       const e_float c__my_real_part_fabs((c__my_real_part_is_neg == false) ? c__my_z.real() : -c__my_z.real());
       const e_float c__my_sqrt_part     (ef::sqrt((c__my_real_part_fabs + abs(c__my_z)) / 2U));
 
-      if(c__my_real_part_is_neg == false)
+      if(ef::iszero(c__my_sqrt_part))
+      {
+        return complex<e_float>(ef::zero());
+      }
+      else if(c__my_real_part_is_neg == false)
       {
         return complex<e_float>(c__my_sqrt_part,
                                 c__my_z.imag() / (c__my_sqrt_part * 2U));
-- 
2.43.0


From c5cb3cc4bdb57607e6c978bcbdbd1713cb171ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 057/104] fix: complex input without digits or with a malformed
 number fails

---
 libs/e_float/src/e_float/e_float_complex.h | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 29ef77a..0b800ed 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -908,22 +908,22 @@
       {{
         // A regular expression for an (extended) complex number of the form (u,v).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                   + std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")     // Possible exponent field.
                    + std::string("\\,{1}")                             // One comma character.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                   + std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")     // Possible exponent field.
                    + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form (u).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                   + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                   + std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")     // Possible exponent field.
                    + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form u.
-        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                   + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)"))    // Possible exponent field.
+        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                   + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})"))    // Possible exponent field.
       }};
 
       T c__my_real_input(0U);
@@ -965,9 +965,9 @@
 
         const std::string c__my_decimal_digits("0123456789");
 
-        const bool c__my_str1_has_error = ((c__my_str1.length() != std::size_t(0U)) && (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos));
+        const bool c__my_str1_has_error = (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos);
         const bool c__my_str2_has_error = ((c__my_str2.length() != std::size_t(0U)) && (c__my_str2.find_first_of(c__my_decimal_digits) == std::string::npos));
-        const bool c__my_str3_has_error = ((c__my_str3.length() != std::size_t(0U)) && (c__my_str3.find_first_of(c__my_decimal_digits) == std::string::npos));
+        const bool c__my_str3_has_error = (c__my_str3.find_first_of(c__my_decimal_digits) == std::string::npos);
         const bool c__my_str4_has_error = ((c__my_str4.length() != std::size_t(0U)) && (c__my_str4.find_first_of(c__my_decimal_digits) == std::string::npos));
 
         if(c__my_str1_has_error || c__my_str2_has_error || c__my_str3_has_error || c__my_str4_has_error)
@@ -1006,7 +1006,7 @@
 
         const std::string c__my_decimal_digits("0123456789");
 
-        if(   ((c__my_str1.length() != std::size_t(0U)) && (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos))
+        if(   (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos)
            || ((c__my_str2.length() != std::size_t(0U)) && (c__my_str2.find_first_of(c__my_decimal_digits) == std::string::npos)))
         {
           c__my_input_has_error = true;
@@ -1966,22 +1966,22 @@
       {{
         // A regular expression for an (extended) complex number of the form (u,v).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                    + std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")     // Possible exponent field.
                     + std::string("\\,{1}")                             // One comma character.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                    + std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")     // Possible exponent field.
                     + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form (u).
         std::regex(  std::string("\\({1}")                             // One open parentheses.
-                    + std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)")     // Possible exponent field.
+                    + std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})")     // Possible exponent field.
                     + std::string("\\){1}")),                           // One close parentheses.
 
         // A regular expression for an (extended) complex number of the form u.
-        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.*[0-9]*)")    // Possible +-, decimal point and digits 0-9.
-                    + std::string("([eE]{0,1}[\\+\\-]{0,1}[0-9]*)"))    // Possible exponent field.
+        std::regex(  std::string("([\\+\\-]{0,1}[0-9]*\\.{0,1}[0-9]*)")    // Possible +-, decimal point and digits 0-9.
+                    + std::string("((?:[eE][\\+\\-]{0,1}[0-9]+){0,1})"))    // Possible exponent field.
       }};
 
       e_float c__my_real_input(0U);
@@ -2023,9 +2023,9 @@
 
         const std::string c__my_decimal_digits("0123456789");
 
-        const bool c__my_str1_has_error = ((c__my_str1.length() != std::size_t(0U)) && (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos));
+        const bool c__my_str1_has_error = (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos);
         const bool c__my_str2_has_error = ((c__my_str2.length() != std::size_t(0U)) && (c__my_str2.find_first_of(c__my_decimal_digits) == std::string::npos));
-        const bool c__my_str3_has_error = ((c__my_str3.length() != std::size_t(0U)) && (c__my_str3.find_first_of(c__my_decimal_digits) == std::string::npos));
+        const bool c__my_str3_has_error = (c__my_str3.find_first_of(c__my_decimal_digits) == std::string::npos);
         const bool c__my_str4_has_error = ((c__my_str4.length() != std::size_t(0U)) && (c__my_str4.find_first_of(c__my_decimal_digits) == std::string::npos));
 
         if(c__my_str1_has_error || c__my_str2_has_error || c__my_str3_has_error || c__my_str4_has_error)
@@ -2063,7 +2063,7 @@
 
         const std::string c__my_decimal_digits("0123456789");
 
-        if(   ((c__my_str1.length() != std::size_t(0U)) && (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos))
+        if(   (c__my_str1.find_first_of(c__my_decimal_digits) == std::string::npos)
            || ((c__my_str2.length() != std::size_t(0U)) && (c__my_str2.find_first_of(c__my_decimal_digits) == std::string::npos)))
         {
           c__my_input_has_error = true;
-- 
2.43.0


From 7a0b870b035faf91755b7e4ed08534a5897dd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 058/104] fix: the gamma function of complex numbers with
 integer real part is not the factorial

---
 libs/e_float/src/functions/gamma/gamma.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 5d1f60c..080286f 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -76,6 +76,7 @@ namespace GammaTemplate
     using ef::tolerance;
     using ef::exp;
     using ef::log;
+    using ef::imag;
     using ef::real;
     using ef::sin;
     using ef::factorial;
@@ -97,7 +98,7 @@ namespace GammaTemplate
 
     const bool b_neg = isneg(real(x));
 
-    if(isint(real(x)))
+    if(iszero(imag(x)) && isint(real(x)))
     {
       if(b_neg || iszero(real(x)))
       {
-- 
2.43.0


From c69747b80f8dea1ad06c4be6fa3b7fc9ffdf98ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 059/104] fix: the logarithm loses digits with some configured
 numbers of digits

---
 .../src/functions/elementary/elementary_trans.cpp  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index f7394e3..1be6a69 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -344,14 +344,18 @@ e_float ef::log(const e_float& x)
   e_float log_val   = ((!ef::iszero(dlog)) ? e_float(dlog / pow(10.0, static_cast<double>(static_cast<std::int32_t>(p10))), p10)
                       : x_minus_one);
 
-  // Newton-Raphson iteration
-  static const std::int32_t double_digits10_minus_one = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(1));
+  // Newton-Raphson iteration. The digits count from the decimal point here, and
+  // the logarithm can be as small as the limit of the series used near one.
+  static const std::int32_t double_digits10_minus_a_few = static_cast<std::int32_t>(static_cast<std::int32_t>(std::numeric_limits<double>::digits10) - static_cast<std::int32_t>(3));
+  static const std::int32_t digits_limit                = static_cast<std::int32_t>(ef::tolerance() + (ef::tolerance() / 10));
 
-  for(std::int32_t digits = double_digits10_minus_one; digits <= static_cast<std::int32_t>(ef::tolerance()); digits *= static_cast<std::int32_t>(2))
+  for(std::int32_t digits = double_digits10_minus_a_few; digits <= digits_limit; digits *= static_cast<std::int32_t>(2))
   {
     // Adjust precision of the terms.
-    log_val.precision(static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)));
-         xx.precision(static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)));
+    const std::int32_t new_prec = static_cast<std::int32_t>(digits * static_cast<std::int32_t>(2)) + 10;
+
+    log_val.precision(new_prec);
+         xx.precision(new_prec);
 
     const e_float exp_minus_log = ef::exp(-log_val);
 
-- 
2.43.0


From 0c0f5fee888ae9f2c27e2c90ea02f2c80a901d77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 060/104] fix: hypergeometric series that end are NaN

---
 .../elementary/elementary_hyper_g.cpp         | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
index f3e3c28..268f3ed 100644
--- a/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_hyper_g.cpp
@@ -32,6 +32,12 @@ e_float ef::hypergeometric_0f0(const e_float& x)
     x_pow_n_div_n_fact *= x;
     x_pow_n_div_n_fact /= n;
 
+    if(ef::iszero(x_pow_n_div_n_fact))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(x_pow_n_div_n_fact.order() - H0F0.order());
@@ -72,6 +78,12 @@ e_float ef::hypergeometric_0f1(const e_float& b, const e_float& x)
 
     const e_float term = x_pow_n_div_n_fact / pochham_b;
 
+    if(ef::iszero(term))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H0F1.order());
@@ -113,6 +125,12 @@ e_float ef::hypergeometric_1f0(const e_float& a, const e_float& x)
 
     const e_float term = pochham_a * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F0.order());
@@ -156,6 +174,12 @@ e_float ef::hypergeometric_1f1(const e_float& a, const e_float& b, const e_float
 
     const e_float term = (pochham_a / pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H1F1.order());
@@ -198,6 +222,12 @@ e_float ef::hypergeometric_2f0(const e_float& a, const e_float& b, const e_float
 
     const e_float term = (pochham_a * pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F0.order());
@@ -244,6 +274,12 @@ e_float ef::hypergeometric_2f1(const e_float& a, const e_float& b, const e_float
 
     const e_float term = ((pochham_a * pochham_b) / pochham_c) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - H2F1.order());
@@ -299,6 +335,12 @@ e_float ef::hypergeometric_pfq(const std::deque<e_float>& a, const  std::deque<e
 
     const e_float term = (pochham_a / pochham_b) * x_pow_n_div_n_fact;
 
+    if(ef::iszero(term))
+    {
+      // The series has ended.
+      break;
+    }
+
     if(n > static_cast<std::int32_t>(20))
     {
       const std::int64_t order_check = static_cast<std::int64_t>(term.order() - HPFQ.order());
-- 
2.43.0


From f68fc44922097fa7c42406afac6b2310dc23f213 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 061/104] fix: division by an integer loses the last element of
 the shifted quotient

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 6c2a2ff..06844de 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -967,7 +967,7 @@ efx::e_float& efx::e_float::div_unsigned_long_long(const unsigned long long n)
 
       // Shift result of the division one element to the left.
       std::copy(my_data.cbegin() + static_cast<std::ptrdiff_t>(1),
-                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem - 1),
+                my_data.cbegin() + static_cast<std::ptrdiff_t>(my_prec_elem),
                 my_data.begin());
 
       const array_type::size_type ip = static_cast<array_type::size_type>(my_prec_elem - 1);
-- 
2.43.0


From 6726b9528ff14ff7118bb98f9fe299f4f404d2f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 062/104] fix: roots lose digits in later arithmetic

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 1be6a69..173419f 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -74,7 +74,8 @@ static e_float ElementaryTrans_Series::rootn_inv(const e_float& x, const std::in
   
   }
 
-  result.precision(static_cast<std::int32_t>(ef::tolerance()));
+  // Return to full precision, including the guard digits.
+  result.precision(static_cast<std::int32_t>(ef::tolerance() * 2));
 
   return result;
 }
-- 
2.43.0


From 1313ee4e178c8625ebb8fbdad4a2c2d68129608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 063/104] fix: first use of the prime tables by several threads
 is a data race

---
 libs/e_float/src/functions/integer/prime.cpp      | 13 ++++++++-----
 .../src/functions/integer/prime_factor.cpp        | 15 ++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/libs/e_float/src/functions/integer/prime.cpp b/libs/e_float/src/functions/integer/prime.cpp
index 8469b58..631c4f5 100644
--- a/libs/e_float/src/functions/integer/prime.cpp
+++ b/libs/e_float/src/functions/integer/prime.cpp
@@ -95,9 +95,8 @@ namespace Primes
   std::deque<std::uint32_t>& Data()
   {
     // Create a static data table of primes and return a reference to it.
-    static std::deque<std::uint32_t> primes;
-
-    if(primes.empty())
+    // The initialization of the static data table is thread-safe.
+    static std::deque<std::uint32_t> primes = []()
     {
       // Select a maximum count of prime numbers to be stored
       // in the data table. This number is selected such that
@@ -107,8 +106,12 @@ namespace Primes
       // while computing the prime factors of unsigned 32-bit integers,
       // as done in the subroutine Factors(...).
 
-      Primes::Generator(static_cast<std::uint32_t>(6550U), primes);
-    }
+      std::deque<std::uint32_t> primes_data;
+
+      Primes::Generator(static_cast<std::uint32_t>(6550U), primes_data);
+
+      return primes_data;
+    }();
 
     return primes;
   }
diff --git a/libs/e_float/src/functions/integer/prime_factor.cpp b/libs/e_float/src/functions/integer/prime_factor.cpp
index 6b94adc..6ad92f8 100644
--- a/libs/e_float/src/functions/integer/prime_factor.cpp
+++ b/libs/e_float/src/functions/integer/prime_factor.cpp
@@ -86,12 +86,11 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
   // Factor the input integer into a list of primes. For small inputs less than 10,000
   // use the tabulated prime factors list. Calculate the prime factors for larger inputs
   // above 10,000.
-  static std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list;
-
-  if(prime_factors_list.empty())
+  // The initialization of the static table is thread-safe.
+  static const std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_table = []()
   {
     // Generate a table of the sets of the first 10,000 integer prime factorizations.
-    prime_factors_list.resize(static_cast<std::size_t>(10000U));
+    std::vector<std::deque<Util::point<std::uint32_t>>> prime_factors_list(static_cast<std::size_t>(10000U));
 
     prime_factors_list[static_cast<std::size_t>(0U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(0U), static_cast<std::uint32_t>(1U)));
     prime_factors_list[static_cast<std::size_t>(1U)] = std::deque<Util::point<std::uint32_t>>(static_cast<std::size_t>(1U), Util::point<std::uint32_t>(static_cast<std::uint32_t>(1U), static_cast<std::uint32_t>(1U)));
@@ -121,11 +120,13 @@ void ef::prime_factors(const std::uint32_t n, std::deque<Util::point<std::uint32
         Primes::Factors(static_cast<std::uint32_t>(i), prime_factors_list[i]);
       }
     }
-  }
 
-  if(static_cast<std::size_t>(n) < prime_factors_list.size())
+    return prime_factors_list;
+  }();
+
+  if(static_cast<std::size_t>(n) < prime_factors_table.size())
   {
-    pf = prime_factors_list[static_cast<std::size_t>(n)];
+    pf = prime_factors_table[static_cast<std::size_t>(n)];
   }
   else
   {
-- 
2.43.0


From 4e78b638bb3e7eea0f3305d5ba1907c35169caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 064/104] fix: the tables of the zeta function are not
 protected against concurrent use

---
 libs/e_float/src/functions/zeta/zeta.cpp      | 11 ++++----
 .../src/utility/util_power_j_pow_x.cpp        | 25 +++++++++++++------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index d5e6751..9e2bf9d 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -124,14 +124,15 @@ namespace Zeta_Series
     std::map<std::uint32_t, T> n_pow_s_prime_factor_map;
 
     // Generate a list of the first 300 prime numbers.
-    static std::deque<std::uint32_t> prime_data;
-
-    if(prime_data.empty())
+    // The initialization of the static list is thread-safe.
+    static const std::vector<std::uint32_t> primes = []()
     {
+      std::deque<std::uint32_t> prime_data;
+
       prime(static_cast<std::uint32_t>(300U), prime_data);
-    }
 
-    static const std::vector<std::uint32_t> primes(prime_data.cbegin(), prime_data.cend());
+      return std::vector<std::uint32_t>(prime_data.cbegin(), prime_data.cend());
+    }();
 
     using std::log10;
 
diff --git a/libs/e_float/src/utility/util_power_j_pow_x.cpp b/libs/e_float/src/utility/util_power_j_pow_x.cpp
index c77826b..fdcedb2 100644
--- a/libs/e_float/src/utility/util_power_j_pow_x.cpp
+++ b/libs/e_float/src/utility/util_power_j_pow_x.cpp
@@ -8,6 +8,8 @@
 // "Algorithm 910: A Portable C++ Multiple-Precision System for Special-Function Calculations",
 // in ACM TOMS, {VOL 37, ISSUE 4, (February 2011)} (C) ACM, 2011. http://doi.acm.org/10.1145/1916461.1916469
 
+#include <mutex>
+
 #include <e_float/e_float_functions.h>
 #include <e_float/detail/e_float_detail_pown_template.h>
 
@@ -20,21 +22,28 @@ namespace Util
   static e_float logn(const std::uint32_t n)
   {
     static std::map<std::uint32_t, e_float> ln_data;
+    static std::mutex                       ln_data_mutex;
 
-    const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
-
-    if(it == ln_data.cend())
     {
-      const e_float ln = ef::log(e_float(n));
+      std::lock_guard<std::mutex> lock(ln_data_mutex);
 
-      ln_data[n] = ln;
+      const std::map<std::uint32_t, e_float>::const_iterator it = ln_data.find(n);
 
-      return ln;
+      if(it != ln_data.cend())
+      {
+        return it->second;
+      }
     }
-    else
+
+    const e_float ln = ef::log(e_float(n));
+
     {
-      return it->second;
+      std::lock_guard<std::mutex> lock(ln_data_mutex);
+
+      ln_data[n] = ln;
     }
+
+    return ln;
   }
 
   template<typename T> inline T j_pow_x_template(const std::uint32_t j, const T& x, std::map<std::uint32_t, T>& n_pow_x_prime_factor_map)
-- 
2.43.0


From 258a637cb717c2568b176e1d53849387bf5bb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 065/104] fix: first use of a calculated pi by several threads
 is a data race

---
 libs/e_float/src/functions/constants/constants.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/functions/constants/constants.cpp b/libs/e_float/src/functions/constants/constants.cpp
index fa8d737..a6abe34 100644
--- a/libs/e_float/src/functions/constants/constants.cpp
+++ b/libs/e_float/src/functions/constants/constants.cpp
@@ -100,12 +100,10 @@ const e_float& ef::pi()
   }
   else
   {
-    static bool is_initialized = false;
-    static e_float val_pi;
-
-    if(!is_initialized)
+    // The initialization of the static value is thread-safe.
+    static const e_float val = []()
     {
-      is_initialized = true;
+      e_float val_pi;
 
       e_float a(1U);
       e_float bB("0.5");
@@ -149,9 +147,10 @@ const e_float& ef::pi()
 
       val_pi += bB;
       val_pi *= s.calculate_inv();
-    }
 
-    static const e_float val(val_pi);
+      return val_pi;
+    }();
+
     return val;
   }
 }
-- 
2.43.0


From 0e82ee2a0a6253ed29badbd89e91410ccc7ac8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 066/104] fix: gmp sets the default precision in several
 threads at once

---
 libs/e_float/src/e_float/gmp/e_float_gmp.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 8189b51..740bff3 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -255,14 +255,10 @@
 
       static void init()
       {
-        static bool precision_is_initialized;
+        // The default precision of MPF is shared by all threads.
+        static const bool precision_is_initialized = (::mpf_set_default_prec(my_default_prec), true);
 
-        if(precision_is_initialized == false)
-        {
-          precision_is_initialized = true;
-
-          ::mpf_set_default_prec(my_default_prec);
-        }
+        static_cast<void>(precision_is_initialized);
       }
 
       void from_unsigned_long_long(const unsigned long long u);
-- 
2.43.0


From 9674310c0bba385df1b7c54f0958b438c543fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 067/104] fix: mpfr e_float made in another thread has the
 precision of double

---
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 907b5d5..59fcab5 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -253,7 +253,8 @@
 
       static void init()
       {
-        static bool precision_is_initialized;
+        // The default precision of MPFR belongs to the thread.
+        static thread_local bool precision_is_initialized;
 
         if(precision_is_initialized == false)
         {
-- 
2.43.0


From 0f37814320098cddac419edf3a5a3a50105ca084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 068/104] fix: lowest() of the boost number is zero

---
 libs/math/include/boost/math/bindings/e_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index b13adfa..dc89ca5 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -621,7 +621,7 @@
 
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> (min)        () { return boost::math::ef::e_float(ef::value_min()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> (max)        () { return boost::math::ef::e_float(ef::value_max()); }
-      static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> lowest       () { return boost::math::ef::e_float(ef::zero()); }
+      static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> lowest       () { return boost::math::ef::e_float(-ef::value_max()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> epsilon      () { return boost::math::ef::e_float(ef::value_eps()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> round_error  () { return boost::math::ef::e_float(ef::half()); }
       static constexpr boost::multiprecision::number<boost::math::ef::e_float, ExpressionTemplates> infinity     () { return boost::math::ef::e_float(ef::value_inf()); }
-- 
2.43.0


From 50d594c1f8d4cb05a215c295e930b8594a7cac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 069/104] fix: fmod of the boost number when the operands have
 opposite signs

---
 libs/math/include/boost/math/bindings/e_float.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index dc89ca5..ae1043b 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -532,14 +532,7 @@
       //   |fractional_part| < |y|,
       // and fractional_part has the same sign as x.
 
-      const ::e_float integer_part = ::ef::floor(x.crepresentation() / y.crepresentation());
-
-      result.representation() = x.crepresentation() - (integer_part * y.crepresentation());
-
-      if(x.crepresentation().isneg() != y.crepresentation().isneg())
-      {
-        result.representation() -= y.crepresentation();
-      }
+      result.representation() = ::ef::fmod(x.crepresentation(), y.crepresentation());
     }
   }
 
-- 
2.43.0


From 9f6aae1011feee20d47c6b4a2cbf0fa882179095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 070/104] fix: ldexp of the boost number truncates the exponent
 to int

---
 libs/math/include/boost/math/bindings/e_float.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index ae1043b..fc5231c 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -331,9 +331,7 @@
                          const e_float& x,
                          const typename e_float::exponent_type exp_value)
   {
-    using local_exponent_type = int;
-
-    result.representation() = ::ef::ldexp(x.crepresentation(), local_exponent_type(exp_value));
+    result.representation() = x.crepresentation() * ::ef::pow2(exp_value);
   }
 
   inline void eval_ldexp(      e_float& result,
-- 
2.43.0


From 5bbfa1c8421892da56ae0844b6b45959bcd780f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 071/104] fix: text of the boost number with default arguments
 loses digits

---
 libs/math/include/boost/math/bindings/e_float.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/math/include/boost/math/bindings/e_float.hpp b/libs/math/include/boost/math/bindings/e_float.hpp
index fc5231c..185875d 100644
--- a/libs/math/include/boost/math/bindings/e_float.hpp
+++ b/libs/math/include/boost/math/bindings/e_float.hpp
@@ -148,7 +148,8 @@
 
       my_stream_str.flags(format_flags);
 
-      static_cast<void>(my_stream_str.precision(number_of_digits));
+      // Zero digits stands for all of the digits.
+      static_cast<void>(my_stream_str.precision((number_of_digits != 0) ? number_of_digits : std::numeric_limits<::e_float>::max_digits10));
 
       m_value.wr_string(my_result_str, my_stream_str);
 
-- 
2.43.0


From dde76df25d5628f3283d3a058f8b96806a0f65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 072/104] fix: default constructor allocates memory but is
 declared not to throw

---
 libs/e_float/src/e_float/efx/e_float_efx.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.h b/libs/e_float/src/e_float/efx/e_float_efx.h
index 46dc46e..964b71b 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.h
+++ b/libs/e_float/src/e_float/efx/e_float_efx.h
@@ -87,11 +87,11 @@
                                         std::allocator<std::uint32_t>>;
 
       // Default constructor.
-      e_float() noexcept : my_data     (),
-                           my_exp      (static_cast<std::int64_t>(0)),
-                           my_neg      (false),
-                           my_fpclass  (ef_finite),
-                           my_prec_elem(ef_elem_number) { }
+      e_float() : my_data     (),
+                  my_exp      (static_cast<std::int64_t>(0)),
+                  my_neg      (false),
+                  my_fpclass  (ef_finite),
+                  my_prec_elem(ef_elem_number) { }
 
       // Constructors from built-in unsigned integral types.
       template<typename UnsignedIntegralType,
-- 
2.43.0


From 9c2ca440b28b389b01477b3d3123f303e84d2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 073/104] fix: internal string streams swallow a failed
 allocation and give wrong values

---
 libs/e_float/src/e_float/e_float_complex.h     | 7 +++++++
 libs/e_float/src/e_float/efx/e_float_efx.cpp   | 3 +++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 4 ++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 3 +++
 libs/e_float/src/utility/util_lexical_cast.h   | 1 +
 libs/e_float/src/utility/util_numeric_cast.h   | 1 +
 6 files changed, 19 insertions(+)

diff --git a/libs/e_float/src/e_float/e_float_complex.h b/libs/e_float/src/e_float/e_float_complex.h
index 0b800ed..266efdc 100644
--- a/libs/e_float/src/e_float/e_float_complex.h
+++ b/libs/e_float/src/e_float/e_float_complex.h
@@ -979,6 +979,7 @@
           // Extract the real part of the complex number.
           {
             std::stringstream c__my_stringstream;
+            c__my_stringstream.exceptions(std::ios::badbit);
 
             c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
             c__my_stringstream >> c__my_real_input;
@@ -987,6 +988,7 @@
           // Extract the imaginary part of the complex number.
           {
             std::stringstream c__my_stringstream;
+            c__my_stringstream.exceptions(std::ios::badbit);
 
             c__my_stringstream << c__my_mr[3U] << c__my_mr[4U];
             c__my_stringstream >> c__my_imag_input;
@@ -1015,6 +1017,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.exceptions(std::ios::badbit);
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
@@ -1048,6 +1051,7 @@
     std::basic_ostream<char_type, traits_type>& operator<<(std::basic_ostream<char_type, traits_type>& c__my_ostream, const complex<T>& c__my_z)
     {
       std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;
+      c__my_tmp_ostream.exceptions(std::ios::badbit);
 
       c__my_tmp_ostream.flags    (c__my_ostream.flags());
       c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
@@ -2036,6 +2040,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.exceptions(std::ios::badbit);
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
@@ -2072,6 +2077,7 @@
         {
           // Extract the real part of the complex number.
           std::stringstream c__my_stringstream;
+          c__my_stringstream.exceptions(std::ios::badbit);
 
           c__my_stringstream << c__my_mr[1U] << c__my_mr[2U];
           c__my_stringstream >> c__my_real_input;
@@ -2105,6 +2111,7 @@
     std::basic_ostream<char_type, traits_type>& operator<<(std::basic_ostream<char_type, traits_type>& c__my_ostream, const complex<e_float>& c__my_z)
     {
       std::basic_ostringstream<char_type, traits_type> c__my_tmp_ostream;
+      c__my_tmp_ostream.exceptions(std::ios::badbit);
 
       c__my_tmp_ostream.flags    (c__my_ostream.flags());
       c__my_tmp_ostream.imbue    (c__my_ostream.getloc());
diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 06844de..c75fd5c 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1481,6 +1481,7 @@ double efx::e_float::extract_double() const
   }
 
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
      << std::scientific
@@ -1527,6 +1528,7 @@ long double efx::e_float::extract_long_double() const
   }
 
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
@@ -1787,6 +1789,7 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   for(std::size_t i = static_cast<std::size_t>(1U); i < number_of_elements; i++)
   {
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit);
 
     ss << std::setw(static_cast<std::streamsize>(ef_elem_digits10))
        << std::setfill(static_cast<char>('0'))
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 7fd5b89..33a80e6 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -118,6 +118,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(limb_values.size() > 0U)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm << *it;
 
@@ -133,6 +134,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     for( ; it != limb_values.end(); ++it)
     {
       std::stringstream strm;
+      strm.exceptions(std::ios::badbit);
 
       strm << std::setw(8) << std::setfill('0') << *it;
 
@@ -143,6 +145,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(e != 0)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm << e;
 
@@ -749,6 +752,7 @@ long double gmp::e_float::extract_long_double() const
   }
 
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit);
 
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
      << std::scientific
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 5e10fac..11b3400 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -76,6 +76,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(limb_values.size() > 0U)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm << *it;
 
@@ -91,6 +92,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     for( ; it != limb_values.end(); ++it)
     {
       std::stringstream strm;
+      strm.exceptions(std::ios::badbit);
 
       strm << std::setw(8) << std::setfill('0') << *it;
 
@@ -101,6 +103,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(e != 0)
   {
     std::stringstream strm;
+    strm.exceptions(std::ios::badbit);
 
     strm << e;
 
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 6365266..3255f71 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -19,6 +19,7 @@
     template<typename T> inline std::string lexical_cast(const T& t)
     {
       std::stringstream ss;
+      ss.exceptions(std::ios::badbit);
 
       ss << t;
 
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index e4e7443..dd95dc6 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -32,6 +32,7 @@
       // which is available in other projects such as wide-decimal.
 
       std::stringstream strm;
+      strm.exceptions(std::ios::badbit);
 
       strm << str;
 
-- 
2.43.0


From 8a24f4e39b1ce7544be4a91dbbbc2cc5df97c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 074/104] fix: dynamic_array assigns to elements that are not
 constructed

---
 libs/e_float/src/utility/util_dynamic_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 5714a5d..4a2d69c 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -69,7 +69,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(other.elems, other.elems + elem_count, elems);
+          std::uninitialized_copy(other.elems, other.elems + elem_count, elems);
         }
       }
 
@@ -86,7 +86,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(first, last, elems);
+          std::uninitialized_copy(first, last, elems);
         }
       }
 
@@ -101,7 +101,7 @@
 
           elems = std::allocator_traits<allocator_type>::allocate(my_a, elem_count);
 
-          std::copy(lst.begin(), lst.end(), elems);
+          std::uninitialized_copy(lst.begin(), lst.end(), elems);
         }
       }
 
-- 
2.43.0


From fb39574f41b31bfedd19535ca849df6a901ec8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 075/104] fix: order of dynamic_arrays ignores their lengths

---
 libs/e_float/src/utility/util_dynamic_array.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/utility/util_dynamic_array.h b/libs/e_float/src/utility/util_dynamic_array.h
index 4a2d69c..952f3db 100644
--- a/libs/e_float/src/utility/util_dynamic_array.h
+++ b/libs/e_float/src/utility/util_dynamic_array.h
@@ -303,12 +303,10 @@
         }
         else
         {
-          const size_type count = (std::min)(lhs.size(), rhs.size());
-
           return std::lexicographical_compare(lhs.cbegin(),
-                                              lhs.cbegin() + count,
+                                              lhs.cend(),
                                               rhs.cbegin(),
-                                              rhs.cbegin() + count);
+                                              rhs.cend());
         }
       }
     }
-- 
2.43.0


From 782c37a59f93ff5ee2d0e3dbd076f589357bd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 076/104] fix: bisection and numerical derivative cannot be
 compiled

---
 libs/e_float/src/utility/util_find_root_bisect.h    | 8 ++++----
 libs/e_float/src/utility/util_function_derivative.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/e_float/src/utility/util_find_root_bisect.h b/libs/e_float/src/utility/util_find_root_bisect.h
index 1bb0ec3..666591b 100644
--- a/libs/e_float/src/utility/util_find_root_bisect.h
+++ b/libs/e_float/src/utility/util_find_root_bisect.h
@@ -16,7 +16,7 @@
   namespace Util
   {
     template<typename T>
-    class FindRootBisect final : public FindRootBase<T>
+    class FindRootBisect : public FindRootBase<T>
     {
     public:
       virtual ~FindRootBisect() { }
@@ -38,12 +38,12 @@
         T lo = RangedFunctionOperation<T>::xlo;
         T hi = RangedFunctionOperation<T>::xhi;
 
-        const T f = function(lo);
+        const T f = Function<T>::function(lo);
 
         static const T t_zero = T(0);
 
         // Make sure that there is at least one root in the interval.
-        if(f * function(RangedFunctionOperation<T>::xhi) >= t_zero)
+        if(f * Function<T>::function(RangedFunctionOperation<T>::xhi) >= t_zero)
         {
           return t_zero;
         }
@@ -69,7 +69,7 @@
           dx /= static_cast<std::int32_t>(2);
 
           const T x_mid = rt + dx;
-          const T f_mid = function(x_mid);
+          const T f_mid = Function<T>::function(x_mid);
 
           if(f_mid <= t_zero)
           {
diff --git a/libs/e_float/src/utility/util_function_derivative.h b/libs/e_float/src/utility/util_function_derivative.h
index 5e355c6..447eacb 100644
--- a/libs/e_float/src/utility/util_function_derivative.h
+++ b/libs/e_float/src/utility/util_function_derivative.h
@@ -21,7 +21,7 @@
   namespace Util
   {
     template<typename T>
-    class FunctionDerivative final : public FunctionOperation<T>
+    class FunctionDerivative : public FunctionOperation<T>
     {
     public:
       virtual ~FunctionDerivative() { }
@@ -42,9 +42,9 @@
         const T dx2 = dx1 * static_cast<std::int32_t>(2);
         const T dx3 = dx1 * static_cast<std::int32_t>(3);
 
-        const T m1 = (function(my_x + dx1) - function(my_x - dx1)) / static_cast<std::int32_t>(2);
-        const T m2 = (function(my_x + dx2) - function(my_x - dx2)) / static_cast<std::int32_t>(4);
-        const T m3 = (function(my_x + dx3) - function(my_x - dx3)) / static_cast<std::int32_t>(6);
+        const T m1 = (Function<T>::function(my_x + dx1) - Function<T>::function(my_x - dx1)) / static_cast<std::int32_t>(2);
+        const T m2 = (Function<T>::function(my_x + dx2) - Function<T>::function(my_x - dx2)) / static_cast<std::int32_t>(4);
+        const T m3 = (Function<T>::function(my_x + dx3) - Function<T>::function(my_x - dx3)) / static_cast<std::int32_t>(6);
 
         const T fifteen_m1 = static_cast<std::int32_t>(15) * m1;
         const T six_m2     = static_cast<std::int32_t>( 6) * m2;
-- 
2.43.0


From 8513ad4e4ecfd08b7836b6b902dc3e4a1708a0ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 077/104] fix: Util::Function and the examples cannot find
 noncopyable

---
 libs/e_float/src/utility/util_noncopyable.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/e_float/src/utility/util_noncopyable.h b/libs/e_float/src/utility/util_noncopyable.h
index 3dabbaa..a51a9e5 100644
--- a/libs/e_float/src/utility/util_noncopyable.h
+++ b/libs/e_float/src/utility/util_noncopyable.h
@@ -30,4 +30,9 @@
     using noncopyable = my_noncopyable_namespace::noncopyable;
   }
 
+  namespace Util
+  {
+    using util::noncopyable;
+  }
+
 #endif // UTIL_NONCOPYABLE_2008_12_16_H_
-- 
2.43.0


From 924884632fc0f20caf757c7bc6f268d3e7f2546c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 078/104] fix: generic rootn of the built-in types raises to
 the power p, and returns an e_float for T

---
 .../elementary/generic_functions_elementary.h          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 9313522..750ccfb 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -43,9 +43,9 @@
     template<> long double sqrt<long double>(const long double& x) { return ::sqrt(x); }
     template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
 
-    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, static_cast<float>(p)); }
-    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, static_cast<double>(p)); }
-    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::pow(x, static_cast<long double>(p)); }
+    template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
+    template<> double      rootn<double>     (const double& x,      const std::int32_t p) { return ::pow(x, 1.0 / static_cast<double>(p)); }
+    template<> long double rootn<long double>(const long double& x, const std::int32_t p) { return ::powl(x, 1.0L / static_cast<long double>(p)); }
     template<> e_float     rootn<e_float>    (const e_float& x,     const std::int32_t p) { return ef::rootn(x, p); }
 
     template<> float       log<float>      (const float& x)       { return ::logf(x); }
@@ -215,7 +215,7 @@
     {
       if(!generic_functions::isfinite<T>(x))
       {
-        return std::numeric_limits<e_float>::quiet_NaN();
+        return std::numeric_limits<T>::quiet_NaN();
       }
 
       if(p < static_cast<std::int32_t>(0))
@@ -225,7 +225,7 @@
 
       if((p == static_cast<std::int32_t>(0)) || generic_functions::isneg(x))
       {
-        return std::numeric_limits<e_float>::quiet_NaN();
+        return std::numeric_limits<T>::quiet_NaN();
       }
       else if(p == static_cast<std::int32_t>(1))
       {
-- 
2.43.0


From cfff300d88e936af44c3b01f13590342ddcfe05f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 079/104] fix: integers and short fractions given as floating
 point are inexact with few digits

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index c75fd5c..5d570fc 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -169,13 +169,25 @@ void efx::e_float::from_long_double(const long double l)
 
   const native_float_parts<long double> ld_parts(my_ld);
 
+  unsigned long long mantissa = ld_parts.get_mantissa();
+
+  int p2 = ld_parts.get_exponent() - (std::numeric_limits<long double>::digits - 1);
+
+  // Remove the trailing zeros of the mantissa. Otherwise the scaling
+  // below can be inexact even for small integers and short fractions.
+  while((mantissa & 1ULL) == 0ULL)
+  {
+    mantissa >>= 1U;
+
+    ++p2;
+  }
+
   // Create an e_float from the fractional part of the
   // mantissa expressed as an unsigned long long.
-  from_unsigned_long_long(ld_parts.get_mantissa());
+  from_unsigned_long_long(mantissa);
 
   // Scale the unsigned long long representation to the fractional
   // part of the long double and multiply with the base-2 exponent.
-  const int p2 = ld_parts.get_exponent() - (std::numeric_limits<long double>::digits - 1);
 
   if(p2 != 0)
   {
-- 
2.43.0


From f00a5a9afd2db6f82e28858b86f90d2bbc3c6634 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 080/104] fix: numeric_cast reads an e_float of few digits as
 an integer

---
 libs/e_float/src/utility/util_numeric_cast.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index dd95dc6..159d55e 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -20,8 +20,9 @@
       constexpr bool numeric_cast_is_signed = std::numeric_limits<T>::is_signed;
 
       constexpr bool numeric_cast_is_small_type =
-        (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
-         || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32)));
+           std::numeric_limits<T>::is_integer
+        && (   (  numeric_cast_is_signed  && (std::numeric_limits<T>::digits <= 31))
+            || ((!numeric_cast_is_signed) && (std::numeric_limits<T>::digits <= 32)));
 
       using value_type = typename std::conditional<numeric_cast_is_small_type,
                                                    typename std::conditional<numeric_cast_is_signed,
-- 
2.43.0


From 684e15f5d84e88a435d25f76b5d8b8deb8cb7fe4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 081/104] fix: generic functions of long double are evaluated
 in double

---
 .../constants/generic_functions_constants.h                 | 6 +++---
 .../elementary/generic_functions_elementary.h               | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
index 9f24def..36c83e1 100644
--- a/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
+++ b/libs/e_float/src/generic_functions/constants/generic_functions_constants.h
@@ -21,17 +21,17 @@
 
     template<> const float&       pi<float>      () { static const float val(3.14159265359f); return val; }
     template<> const double&      pi<double>     () { static const double val(3.1415926535897932384626433832795028841971693993751); return val; }
-    template<> const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751); return val; }
+    template<> const long double& pi<long double>() { static const long double val(3.1415926535897932384626433832795028841971693993751L); return val; }
     template<> const e_float&     pi<e_float>    () { return ef::pi(); }
 
     template<> const float&       ln2<float>      () { static const float val(0.693147180560f); return val; }
     template<> const double&      ln2<double>     () { static const double val(0.69314718055994530941723212145817656807550013436026); return val; }
-    template<> const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026); return val; }
+    template<> const long double& ln2<long double>() { static const long double val(0.69314718055994530941723212145817656807550013436026L); return val; }
     template<> const e_float&     ln2<e_float>    () { return ef::ln2(); }
 
     template<> const float&       euler_gamma<float>      () { static const float val(0.577215664902f); return val; }
     template<> const double&      euler_gamma<double>     () { static const double val(0.57721566490153286060651209008240243104215933593992); return val; }
-    template<> const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992); return val; }
+    template<> const long double& euler_gamma<long double>() { static const long double val(0.57721566490153286060651209008240243104215933593992L); return val; }
     template<> const e_float&     euler_gamma<e_float>    () { return ef::euler_gamma(); }
 
     template<typename T> const T& pi()
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 750ccfb..e31ff48 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -40,7 +40,7 @@
 
     template<> float       sqrt<float>      (const float& x)       { return ::sqrtf(x); }
     template<> double      sqrt<double>     (const double& x)      { return ::sqrt(x); }
-    template<> long double sqrt<long double>(const long double& x) { return ::sqrt(x); }
+    template<> long double sqrt<long double>(const long double& x) { return ::sqrtl(x); }
     template<> e_float     sqrt<e_float>    (const e_float& x)     { return ef::sqrt(x); }
 
     template<> float       rootn<float>      (const float& x,       const std::int32_t p) { return ::powf(x, 1.0F / static_cast<float>(p)); }
@@ -50,7 +50,7 @@
 
     template<> float       log<float>      (const float& x)       { return ::logf(x); }
     template<> double      log<double>     (const double& x)      { return ::log(x); }
-    template<> long double log<long double>(const long double& x) { return ::log(x); }
+    template<> long double log<long double>(const long double& x) { return ::logl(x); }
     template<> e_float     log<e_float>    (const e_float& x)     { return ef::log(x); }
 
     template<typename T>
-- 
2.43.0


From 49d269e72349984b44872453b82f30b6835f4c87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 082/104] fix: ef::isinf(double) is declared but not defined

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index ee6a85d..3ebd380 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -145,6 +145,13 @@ bool ef::isnan(const double x)
   return isnan(x);
 }
 
+bool ef::isinf(const double x)
+{
+  using std::isinf;
+
+  return isinf(x);
+}
+
 double ef::to_double(const e_float& x)              { return x.extract_double(); }
 
 std::int64_t ef::to_int64(const double x)           { return static_cast<std::int64_t>(x); }
-- 
2.43.0


From 858f01f64ef35355e63f31319765e0f7ff16964f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 083/104] fix: order_of(double) is wrong below one and for
 negative numbers

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 3ebd380..3e1d2f9 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -32,7 +32,7 @@ bool         ef::isone    (const e_float& x) { return x.isone(); }
 bool         ef::iszero   (const double x)   { using std::fabs; return (fabs(x) < (std::numeric_limits<double>::min)() * 2); }
 bool         ef::iszero   (const e_float& x) { return x.iszero(); }
 double       ef::to_double(const double& x)  { return x; }
-std::int64_t ef::order_of (const double x)   { using std::log10; return static_cast<std::int64_t>(static_cast<std::int32_t>(log10(x))); }
+std::int64_t ef::order_of (const double x)   { using std::fabs; using std::floor; using std::log10; return (isfinite(x) && (x != 0.0) ? static_cast<std::int64_t>(floor(log10(fabs(x)))) : static_cast<std::int64_t>(0)); }
 std::int64_t ef::order_of (const e_float& x) { return x.order(); }
 
 e_float ef::fabs(const e_float& x)
-- 
2.43.0


From 30d53cea1f11aa1bd7830e372bf7162d64fc491f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 084/104] fix: to_int64(double) and to_int32(double) are
 undefined beyond the range

---
 .../src/functions/elementary/elementary_math.cpp       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 3e1d2f9..1f7e412 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -154,7 +154,15 @@ bool ef::isinf(const double x)
 
 double ef::to_double(const e_float& x)              { return x.extract_double(); }
 
-std::int64_t ef::to_int64(const double x)           { return static_cast<std::int64_t>(x); }
+std::int64_t ef::to_int64(const double x)
+{
+  // Saturate, since the conversion of a value outside of the range is undefined.
+  if(x >= +9223372036854775808.0) { return (std::numeric_limits<std::int64_t>::max)(); }
+  if(x <= -9223372036854775808.0) { return (std::numeric_limits<std::int64_t>::min)(); }
+
+  return static_cast<std::int64_t>(x);
+}
+
 std::int64_t ef::to_int64(const e_float& x)         { return static_cast<std::int64_t>(x.extract_signed_long_long()); }
 
 bool ef::isint(const double x)
-- 
2.43.0


From 5bf47b24ed540317918f878270ae272f60082de5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 085/104] fix: zero is not a small argument, and one is not
 near one

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 1f7e412..8b7d6e6 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -233,7 +233,7 @@ bool ef::small_arg(const e_float& x)
   static const double       lim_d = static_cast<double>(static_cast<std::int32_t>(ef::tolerance())) / 10.0;
   static const std::int64_t lim   = (std::max)(static_cast<std::int64_t>(lim_d), static_cast<std::int64_t>(6));
 
-  return (x.order() < static_cast<std::int64_t>(-lim));
+  return (x.iszero() || (x.order() < static_cast<std::int64_t>(-lim)));
 }
 
 bool ef::large_arg(const double x)
-- 
2.43.0


From 6f2743ede2e5c1d797bb0d4b6abfaeb85fa5d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 086/104] fix: a failed allocation in the multiplication by
 Fourier transform leaks memory

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5d570fc..5d2677a 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -21,6 +21,7 @@
 
 #include <cmath>
 #include <iomanip>
+#include <memory>
 
 #include <e_float/e_float_functions.h>
 #include <e_float/detail/e_float_detail_karatsuba.h>
@@ -250,8 +251,11 @@ void efx::e_float::mul_loop_fft(std::uint32_t* const u, const std::uint32_t* con
   n_fft <<= 1U;
 
   // Allocate dynamic memory for the FFT result arrays.
-  double* af = new double[n_fft];
-  double* bf = new double[n_fft];
+  const std::unique_ptr<double[]> af_data(new double[n_fft]);
+  const std::unique_ptr<double[]> bf_data(new double[n_fft]);
+
+  double* const af = af_data.get();
+  double* const bf = bf_data.get();
 
   for(std::uint32_t i = static_cast<std::uint32_t>(0U); i < static_cast<std::uint32_t>(p); ++i)
   {
@@ -353,10 +357,6 @@ void efx::e_float::mul_loop_fft(std::uint32_t* const u, const std::uint32_t* con
 
     u[(j / 2U)] = static_cast<std::uint32_t>(static_cast<std::uint32_t>(nhi * static_cast<std::uint32_t>(10000U)) + nlo);
   }
-
-  // De-allocate the dynamic memory for the FFT result arrays.
-  delete [] af;
-  delete [] bf;
 }
 
 std::uint32_t efx::e_float::mul_loop_n(std::uint32_t* const u, std::uint32_t n, const std::int32_t p)
-- 
2.43.0


From e4b6c8286d53e32b84c2ca8f13bff04b5562f2f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 087/104] fix: exp overflows for arguments whose result is in
 range

---
 libs/e_float/src/functions/elementary/elementary_trans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 173419f..2761d91 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -182,8 +182,9 @@ e_float ef::exp(const e_float& x)
 
   const e_float xx = ((!bo_x_is_neg) ? x : -x);
 
-  // Check the range of the argument.
-  static const e_float maximum_arg_for_exp = std::numeric_limits<e_float>::max_exponent;
+  // Check the range of the argument. The result has a decimal exponent,
+  // so the limit of the argument is the one of the exponent times ln10.
+  static const e_float maximum_arg_for_exp = (e_float(std::numeric_limits<e_float>::max_exponent10) + ef::one()) * ef::ln10();
 
   if(xx > maximum_arg_for_exp)
   {
-- 
2.43.0


From ed10ee5d3ad2559f0b7c207a0671f5941a112d44 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 088/104] fix: asinh and acosh of very large arguments overflow

---
 .../src/functions/elementary/elementary_trans.cpp    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 2761d91..7b6b2e4 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -658,7 +658,11 @@ e_float ef::asinh(const e_float& x)
   }
   else
   {
-    const e_float value = ef::log(ef::fabs(x) + ef::sqrt((x * x) + ef::one()));
+    const e_float xx = ef::fabs(x);
+
+    // The square of a very large argument overflows.
+    const e_float value = ((xx.order() > ef::tolerance()) ? (ef::log(xx) + ef::ln2())
+                                                          : (ef::log(xx + ef::sqrt((xx * xx) + ef::one()))));
 
     return ((ef::isneg(x) == false) ? value : -value);
   }
@@ -686,6 +690,12 @@ e_float ef::acosh(const e_float& x)
     return ef::zero();
   }
 
+  if(x.order() > ef::tolerance())
+  {
+    // The square of a very large argument overflows.
+    return ef::log(x) + ef::ln2();
+  }
+
   const e_float x_minus_one = x - ef::one();
 
   if(ef::small_arg(x_minus_one))
-- 
2.43.0


From 8a503b08f74f4647c69a336847e14ced71e2c12a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 089/104] fix: powers and roots whose integer argument is the
 most negative of its type

---
 .../detail/e_float_detail_pown_template.h     |  8 +++++-
 .../functions/elementary/elementary_trans.cpp | 26 +++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
index 31c59eb..c00fd92 100644
--- a/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
+++ b/libs/e_float/src/e_float/detail/e_float_detail_pown_template.h
@@ -11,6 +11,7 @@
   #define E_FLOAT_DETAIL_POWN_TEMPLATE_2017_08_23_HPP_
 
   #include <cstdint>
+  #include <limits>
 
   namespace ef { namespace detail {
 
@@ -29,7 +30,12 @@
     // Compute the pure power of typename T t^p. Binary splitting of the power is
     // used. The resulting computational complexity is proportional to O[log2(|p|)].
 
-    if     (p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
+    if     (p == (std::numeric_limits<std::int64_t>::min)())
+    {
+      // The negation of p is not representable.
+      return pown_template(t, static_cast<std::int64_t>(p + 1)) / t;
+    }
+    else if(p <  static_cast<std::int64_t>(0)) { return T(1) / pown_template(t, -p); }
     else if(p == static_cast<std::int64_t>(0)) { return T(1); }
     else if(p == static_cast<std::int64_t>(1)) { return t; }
     else if(p == static_cast<std::int64_t>(2)) { return (t * t); }
diff --git a/libs/e_float/src/functions/elementary/elementary_trans.cpp b/libs/e_float/src/functions/elementary/elementary_trans.cpp
index 7b6b2e4..a99666f 100644
--- a/libs/e_float/src/functions/elementary/elementary_trans.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_trans.cpp
@@ -25,7 +25,12 @@ namespace ElementaryTrans_Series
 
 e_float ef::pow2(const std::int64_t p)
 {
-  if     (p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
+  if     (p == (std::numeric_limits<std::int64_t>::min)())
+  {
+    // The negation of p is not representable.
+    return ef::pow2(p + 1) / static_cast<std::int32_t>(2);
+  }
+  else if(p <  -1) { return ef::pow(e_float( { UINT32_C(50000000) }, -8 ), -p); }
   else if(p == -1) { return e_float( { UINT32_C(50000000) }, -8 ); }
   else if(p ==  0) { return e_float( { UINT32_C(1) } ); }
   else if(p ==  1) { return e_float( { UINT32_C(2) } ); }
@@ -95,6 +100,12 @@ e_float ef::rootn(const e_float& x, const std::int32_t p)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(p == (std::numeric_limits<std::int32_t>::min)())
+  {
+    // The negation of p is not representable.
+    return ef::rootn(ef::one() / ef::sqrt(x), static_cast<std::int32_t>(-(p / 2)));
+  }
+
   if(p < static_cast<std::int32_t>(0))
   {
     return ef::rootn(ef::one() / x, static_cast<std::int32_t>(-p));
@@ -130,6 +141,12 @@ e_float ef::rootn_inverse(const e_float& x, const std::int32_t p)
     return std::numeric_limits<e_float>::quiet_NaN();
   }
 
+  if(p == (std::numeric_limits<std::int32_t>::min)())
+  {
+    // The negation of p is not representable.
+    return ef::rootn(ef::sqrt(x), static_cast<std::int32_t>(-(p / 2)));
+  }
+
   if(p < static_cast<std::int32_t>(0))
   {
     return ef::rootn(x, static_cast<std::int32_t>(-p));
@@ -525,7 +542,12 @@ e_float ef::pow(const e_float& b, const std::int64_t p)
 
   floating_point_type result;
 
-  if     (p <  0) { result = 1 / pow(b, -p); }
+  if     (p == (std::numeric_limits<std::int64_t>::min)())
+  {
+    // The negation of p is not representable.
+    result = pow(b, p + 1) / b;
+  }
+  else if(p <  0) { result = 1 / pow(b, -p); }
   else if(p == 0) { result = floating_point_type(1U); }
   else if(p == 1) { result = b; }
   else if(p == 2) { result = b; result *= b; }
-- 
2.43.0


From c70c9244f4fa41084e3c18533fc11748b9626bf5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 090/104] fix: double factorial, gamma near an integer and zeta
 at the ends of the range of their integer argument

---
 libs/e_float/src/functions/gamma/factorial2.cpp | 9 +++++----
 libs/e_float/src/functions/gamma/gamma.cpp      | 6 ++----
 libs/e_float/src/functions/zeta/zeta.cpp        | 4 ++--
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial2.cpp b/libs/e_float/src/functions/gamma/factorial2.cpp
index 16f8ad6..9199934 100644
--- a/libs/e_float/src/functions/gamma/factorial2.cpp
+++ b/libs/e_float/src/functions/gamma/factorial2.cpp
@@ -29,9 +29,10 @@ e_float Factorial2_Series::AtInfinity(const std::int32_t n)
   }
   else
   {
-    const std::int32_t n_plus_one = static_cast<std::int32_t>(static_cast<std::int32_t>(n) + static_cast<std::int32_t>(1));
+    const std::uint32_t n_plus_one = static_cast<std::uint32_t>(static_cast<std::uint32_t>(n) + static_cast<std::uint32_t>(1));
+    const std::uint32_t n_half     = static_cast<std::uint32_t>(n_plus_one / static_cast<std::uint32_t>(2));
 
-    return ef::factorial(static_cast<std::uint32_t>(n_plus_one)) / ef::factorial2(n_plus_one);
+    return ef::factorial(n_plus_one) / (ef::pow2(static_cast<std::int64_t>(n_half)) * ef::factorial(n_half));
   }
 }
 
@@ -51,8 +52,7 @@ e_float ef::factorial2(const std::int32_t n)
       return ef::one();
     }
 
-    const std::int32_t nn        = (!n_is_neg ? n : static_cast<std::int32_t>(-n));
-    const bool  n_is_even = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0U));
+    const bool  n_is_even = (static_cast<std::int32_t>(n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0));
 
     if(n_is_even)
     {
@@ -61,6 +61,7 @@ e_float ef::factorial2(const std::int32_t n)
     else
     {
       // Double factorial for negative odd integers.
+      const std::int32_t nn                   = static_cast<std::int32_t>(-n);
       const std::int32_t n_minus_one_over_two = static_cast<std::int32_t>(static_cast<std::int32_t>(nn - static_cast<std::int32_t>(1)) / static_cast<std::int32_t>(2));
       const bool  b_negate             = static_cast<std::int32_t>(n_minus_one_over_two % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0);
 
diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index 080286f..e9008a6 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -201,11 +201,9 @@ namespace GammaTemplate
     }
     else
     {
-      const std::int32_t nn = static_cast<std::int32_t>(-n);
+      const bool b_neg = (static_cast<std::int32_t>(n % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0));
 
-      const bool b_neg = (static_cast<std::int32_t>(nn % static_cast<std::int32_t>(2)) != static_cast<std::int32_t>(0));
-
-      const T n_minus_x = nn - x;
+      const T n_minus_x = -(n + x);
       const T Gn        = pi() / (GammaTemplate::gamma<T, TR>(n_minus_x + one()) * sin(pi() * x));
 
       return ((!b_neg) ? Gn : -Gn);
diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index 9e2bf9d..5b00ff7 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -278,11 +278,11 @@ e_float ef::riemann_zeta(const std::int32_t n)
     {
       if(n < static_cast<std::int32_t>(0))
       {
-        const std::uint32_t two_n = static_cast<std::uint32_t>(static_cast<std::int32_t>(-n) + static_cast<std::int32_t>(1));
+        const std::uint32_t two_n = static_cast<std::uint32_t>(static_cast<std::uint32_t>(1U) - static_cast<std::uint32_t>(n));
 
         const bool is_even = (n % static_cast<std::int32_t>(2)) == static_cast<std::int32_t>(0);
 
-        return is_even ? ef::zero() : -ef::bernoulli(two_n) / static_cast<std::int32_t>(two_n);
+        return is_even ? ef::zero() : -ef::bernoulli(two_n) / two_n;
       }
       else
       {
-- 
2.43.0


From a9a52fc84d77a9a46924a7dd32a10f520ace1dd4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 091/104] fix: conversion of the most negative signed long long
 from efx

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 5d2677a..cee3038 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1572,7 +1572,7 @@ signed long long efx::e_float::extract_signed_long_long() const
   {
     return (std::numeric_limits<signed long long>::max)();
   }
-  else if(b_neg &&  (*this < ef::signed_long_long_min()))
+  else if(b_neg &&  (*this <= ef::signed_long_long_min()))
   {
     return (std::numeric_limits<signed long long>::min)();
   }
-- 
2.43.0


From 47a6793d8376fb07ed560d0eb64eba34512971b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 092/104] fix: construction of gmp and mpfr values from the
 most negative signed long long

---
 libs/e_float/src/e_float/gmp/e_float_gmp.h   | 2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.h b/libs/e_float/src/e_float/gmp/e_float_gmp.h
index 740bff3..c58c318 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.h
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.h
@@ -85,7 +85,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : static_cast<unsigned long long>(0ULL - static_cast<unsigned long long>(n)));
 
         from_unsigned_long_long(u);
 
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
index 59fcab5..691c9f1 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.h
@@ -62,7 +62,7 @@
 
         const unsigned long long u =
           ((!is_neg) ? static_cast<unsigned long long>(n)
-                     : static_cast<unsigned long long>(-static_cast<signed long long>(n)));
+                     : static_cast<unsigned long long>(0ULL - static_cast<unsigned long long>(n)));
 
         init();
 
-- 
2.43.0


From eee59f58e3eef5f66064c1d213be9b0e4f575742 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 093/104] fix: order of infinite gmp and mpfr values

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp   | 2 +-
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 33a80e6..d1d0225 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -936,7 +936,7 @@ std::int64_t gmp::e_float::get_order_fast() const
 {
   const e_float xx = ef::fabs(*this);
 
-  if(xx.iszero() || xx.isone())
+  if((!xx.isfinite()) || xx.iszero() || xx.isone())
   {
     return static_cast<std::int64_t>(0);
   }
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 11b3400..057d381 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -551,7 +551,7 @@ std::int64_t mpfr::e_float::get_order_fast() const
 {
   const e_float xx = ef::fabs(*this);
 
-  if(xx.iszero() || xx.isone())
+  if((!xx.isfinite()) || xx.iszero() || xx.isone())
   {
     return static_cast<std::int64_t>(0);
   }
-- 
2.43.0


From 4e737aa8b40c11a07ca5affc651db5f0e734c6a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 094/104] fix: non-positive precision requests in gmp

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index d1d0225..dd95731 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -214,7 +214,7 @@ void gmp::e_float::from_long_double(const long double l)
 void gmp::e_float::precision(const std::int32_t prec_digits)
 {
   const unsigned long int digits2_request =
-    static_cast<unsigned long int>(static_cast<std::uint64_t>(static_cast<double>(prec_digits) / local::value_log2));
+    static_cast<unsigned long int>(static_cast<std::uint64_t>(static_cast<double>((std::max)(prec_digits, static_cast<std::int32_t>(1))) / local::value_log2));
 
   const unsigned long int d2              =
     static_cast<unsigned long int>(my_default_prec);
-- 
2.43.0


From be85ca9e47c9bb9e672f76053f9c98fcb1d52903 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 095/104] fix: efx construction from a mantissa of ten or more,
 a non-finite mantissa or an exponent out of range

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 23 ++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index cee3038..050f2da 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -49,14 +49,33 @@ efx::e_float::e_float(const double mantissa,
     return;
   }
 
+  if(!(::fabs(mantissa) <= (std::numeric_limits<double>::max)()))
+  {
+    operator=(e_float(mantissa));
+    return;
+  }
+
   const auto b_neg = (mantissa < 0.0);
 
   double d = ((!b_neg) ? mantissa : -mantissa);
-  std::int64_t  e = exponent;
+  std::int64_t  e = (std::max)((std::min)(exponent, (std::numeric_limits<std::int64_t>::max)() / 2), (std::numeric_limits<std::int64_t>::min)() / 2);
 
-  while(d > 10.0) { d /= 10.0; ++e; }
+  while(d >= 10.0) { d /= 10.0; ++e; }
   while(d <  1.0) { d *= 10.0; --e; }
 
+  if(e > std::numeric_limits<e_float>::max_exponent10)
+  {
+    operator=((!b_neg) ?  std::numeric_limits<e_float>::infinity()
+                       : -std::numeric_limits<e_float>::infinity());
+    return;
+  }
+
+  if(e < std::numeric_limits<e_float>::min_exponent10)
+  {
+    operator=(ef::zero());
+    return;
+  }
+
   auto shift = static_cast<std::int32_t>(e % static_cast<std::int32_t>(ef_elem_digits10));
 
   while(static_cast<std::int32_t>(shift-- % ef_elem_digits10) != static_cast<std::int32_t>(0))
-- 
2.43.0


From bdb12893ec10fa7fbe0c5d61c8b52583d990675c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 096/104] fix: text exponents near the limits of their type in
 efx

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 050f2da..993fd04 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -1891,6 +1891,10 @@ bool efx::e_float::rd_string(const char* const s)
     // Remove the exponent part from the string.
     my_exp = Util::numeric_cast<std::int64_t>(static_cast<const char*>(str.c_str() + (pos + 1U)));
 
+    // Leave room for the adjustments of the exponent which are made below. All
+    // exponents of this size are far beyond the range of e_float.
+    my_exp = (std::max)((std::min)(my_exp, (std::numeric_limits<std::int64_t>::max)() / 2), (std::numeric_limits<std::int64_t>::min)() / 2);
+
     str = str.substr(static_cast<std::size_t>(0U), pos);
   }
 
-- 
2.43.0


From e6a4ef52a2547ef6b289d54881f5959b3663071f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 097/104] fix: frexp does not come to an end for exponents
 which do not fit in an int

---
 .../e_float/src/functions/elementary/elementary_math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index 8b7d6e6..b6ba9dd 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -87,6 +87,15 @@ e_float ef::frexp(const e_float& v, int* expon)
 
   v.extract_parts(d, i);
 
+  if(   (i > static_cast<std::int64_t>((std::numeric_limits<int>::max)() / 4))
+     || (i < static_cast<std::int64_t>((std::numeric_limits<int>::min)() / 4)))
+  {
+    // The binary exponent can not be represented.
+    *expon = 0;
+
+    return v;
+  }
+
   // Estimate the binary exponent from the decimal one and subsequently
   // normalize the mantissa such that its absolute value is in [1/2, 1).
   using std::fabs;
-- 
2.43.0


From 6919f3d7d1c9088eb7609278f74367a5614bfd28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 098/104] fix: conversion of a double NaN to int64

---
 libs/e_float/src/functions/elementary/elementary_math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/e_float/src/functions/elementary/elementary_math.cpp b/libs/e_float/src/functions/elementary/elementary_math.cpp
index b6ba9dd..086330d 100644
--- a/libs/e_float/src/functions/elementary/elementary_math.cpp
+++ b/libs/e_float/src/functions/elementary/elementary_math.cpp
@@ -168,6 +168,7 @@ std::int64_t ef::to_int64(const double x)
   // Saturate, since the conversion of a value outside of the range is undefined.
   if(x >= +9223372036854775808.0) { return (std::numeric_limits<std::int64_t>::max)(); }
   if(x <= -9223372036854775808.0) { return (std::numeric_limits<std::int64_t>::min)(); }
+  if(ef::isnan(x))                { return static_cast<std::int64_t>(0); }
 
   return static_cast<std::int64_t>(x);
 }
-- 
2.43.0


From 9ae29637cf595b79c45b59effd6917f896123e96 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 099/104] fix: text conversions depend on the global locale

---
 libs/e_float/src/e_float/efx/e_float_efx.cpp                 | 4 ++++
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp                 | 5 +++++
 libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp               | 4 ++++
 .../elementary/generic_functions_elementary.h                | 4 ++++
 libs/e_float/src/utility/util_lexical_cast.h                 | 2 ++
 libs/e_float/src/utility/util_numeric_cast.h                 | 2 ++
 6 files changed, 21 insertions(+)

diff --git a/libs/e_float/src/e_float/efx/e_float_efx.cpp b/libs/e_float/src/e_float/efx/e_float_efx.cpp
index 993fd04..ddd2c82 100644
--- a/libs/e_float/src/e_float/efx/e_float_efx.cpp
+++ b/libs/e_float/src/e_float/efx/e_float_efx.cpp
@@ -21,6 +21,7 @@
 
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <memory>
 
 #include <e_float/e_float_functions.h>
@@ -1512,6 +1513,7 @@ double efx::e_float::extract_double() const
   }
 
   std::stringstream ss;
+  ss.imbue(std::locale::classic());
   ss.exceptions(std::ios::badbit);
 
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<double>::digits10 + (2 + 1)))
@@ -1559,6 +1561,7 @@ long double efx::e_float::extract_long_double() const
   }
 
   std::stringstream ss;
+  ss.imbue(std::locale::classic());
   ss.exceptions(std::ios::badbit);
 
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
@@ -1820,6 +1823,7 @@ void efx::e_float::get_output_string(std::string& str, std::int64_t& the_exp, co
   for(std::size_t i = static_cast<std::size_t>(1U); i < number_of_elements; i++)
   {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss.exceptions(std::ios::badbit);
 
     ss << std::setw(static_cast<std::streamsize>(ef_elem_digits10))
diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index dd95731..3058669 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -12,6 +12,7 @@
 #include <cfloat>
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <vector>
 
@@ -118,6 +119,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(limb_values.size() > 0U)
   {
     std::stringstream strm;
+    strm.imbue(std::locale::classic());
     strm.exceptions(std::ios::badbit);
 
     strm << *it;
@@ -134,6 +136,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     for( ; it != limb_values.end(); ++it)
     {
       std::stringstream strm;
+      strm.imbue(std::locale::classic());
       strm.exceptions(std::ios::badbit);
 
       strm << std::setw(8) << std::setfill('0') << *it;
@@ -145,6 +148,7 @@ gmp::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(e != 0)
   {
     std::stringstream strm;
+    strm.imbue(std::locale::classic());
     strm.exceptions(std::ios::badbit);
 
     strm << e;
@@ -752,6 +756,7 @@ long double gmp::e_float::extract_long_double() const
   }
 
   std::stringstream ss;
+  ss.imbue(std::locale::classic());
   ss.exceptions(std::ios::badbit);
 
   ss << std::setprecision(static_cast<std::streamsize>(std::numeric_limits<long double>::digits10 + (2 + 1)))
diff --git a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
index 057d381..09ecead 100644
--- a/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
+++ b/libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp
@@ -13,6 +13,7 @@
 #include <cstdarg>
 #include <cstdio>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 
 #include <e_float/e_float_functions.h>
@@ -76,6 +77,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(limb_values.size() > 0U)
   {
     std::stringstream strm;
+    strm.imbue(std::locale::classic());
     strm.exceptions(std::ios::badbit);
 
     strm << *it;
@@ -92,6 +94,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
     for( ; it != limb_values.end(); ++it)
     {
       std::stringstream strm;
+      strm.imbue(std::locale::classic());
       strm.exceptions(std::ios::badbit);
 
       strm << std::setw(8) << std::setfill('0') << *it;
@@ -103,6 +106,7 @@ mpfr::e_float::e_float(std::initializer_list<std::uint32_t> limb_values,
   if(e != 0)
   {
     std::stringstream strm;
+    strm.imbue(std::locale::classic());
     strm.exceptions(std::ios::badbit);
 
     strm << e;
diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index e31ff48..029e822 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -12,6 +12,7 @@
   #define GENERIC_FUNCTIONS_ELEMENTARY_2011_06_18_H_
 
   #include <cmath>
+  #include <locale>
   #include <regex>
 
   #include <e_float/e_float_functions.h>
@@ -60,6 +61,7 @@
       // Caution: This is slow. It is generic, but has poor performance.
       // Comment: Any dedicated effort to standardize MP would specify a fast kind of frexp.
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
       ss << std::scientific
          << std::showpos
          << std::uppercase
@@ -177,6 +179,7 @@
       const double sqd = ::sqrt(dd);
 
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
 
       // Estimate the square root.
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
@@ -258,6 +261,7 @@
 
       // Estimate the square root.
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
       ss << std::setprecision(std::numeric_limits<double>::digits10 + 1)
          << one_over_rtn_d
          << 'E'
diff --git a/libs/e_float/src/utility/util_lexical_cast.h b/libs/e_float/src/utility/util_lexical_cast.h
index 3255f71..3fe5871 100644
--- a/libs/e_float/src/utility/util_lexical_cast.h
+++ b/libs/e_float/src/utility/util_lexical_cast.h
@@ -11,6 +11,7 @@
 #ifndef UTIL_LEXICAL_CAST_2009_11_24_H_
   #define UTIL_LEXICAL_CAST_2009_11_24_H_
 
+  #include <locale>
   #include <sstream>
   #include <string>
 
@@ -19,6 +20,7 @@
     template<typename T> inline std::string lexical_cast(const T& t)
     {
       std::stringstream ss;
+      ss.imbue(std::locale::classic());
       ss.exceptions(std::ios::badbit);
 
       ss << t;
diff --git a/libs/e_float/src/utility/util_numeric_cast.h b/libs/e_float/src/utility/util_numeric_cast.h
index 159d55e..546f44b 100644
--- a/libs/e_float/src/utility/util_numeric_cast.h
+++ b/libs/e_float/src/utility/util_numeric_cast.h
@@ -8,6 +8,7 @@
 #ifndef UTIL_NUMERIC_CAST_2009_11_24_H
   #define UTIL_NUMERIC_CAST_2009_11_24_H
 
+  #include <locale>
   #include <sstream>
   #include <string>
   #include <type_traits>
@@ -33,6 +34,7 @@
       // which is available in other projects such as wide-decimal.
 
       std::stringstream strm;
+      strm.imbue(std::locale::classic());
       strm.exceptions(std::ios::badbit);
 
       strm << str;
-- 
2.43.0


From a8e3819b309d366e6814352021a6e1e51f2da100 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 100/104] fix: gmp text with an exponent near the limits of
 int64 wraps

---
 libs/e_float/src/e_float/gmp/e_float_gmp.cpp | 29 ++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
index 3058669..990fc86 100644
--- a/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
+++ b/libs/e_float/src/e_float/gmp/e_float_gmp.cpp
@@ -1076,6 +1076,35 @@ bool gmp::e_float::rd_string(const char* const s)
     str += str_exp;
   }
 
+  // Limit the magnitude of the exponent. An exponent having many digits
+  // would overflow or underflow anyway, but GMP's own exponent would wrap.
+  const std::size_t pos_exp = str.find_first_of("eE");
+
+  if(pos_exp != std::string::npos)
+  {
+    const std::size_t pos_exp_sign = str.find_first_of("+-", pos_exp);
+
+    std::size_t pos_exp_dig =
+      ((pos_exp_sign == (pos_exp + 1U)) ? pos_exp_sign : pos_exp) + 1U;
+
+    // Remove leading zeros of the exponent, but leave at least one digit.
+    while(   (str.length() > (pos_exp_dig + 1U))
+          && (str.at(pos_exp_dig) == static_cast<char>('0')))
+    {
+      str.erase(pos_exp_dig, 1U);
+    }
+
+    const std::size_t exp_dig_max = 16U;
+
+    if(   ((str.length() - pos_exp_dig) > exp_dig_max)
+       && std::all_of(str.cbegin() + pos_exp_dig,
+                      str.cend(),
+                      [](const char& c) -> bool { return ((c >= '0') && (c <= '9')); }))
+    {
+      str.resize(pos_exp_dig + exp_dig_max);
+    }
+  }
+
   // Set the e_float value. Release the storage of a value already held.
   my_fpclass = ef_finite;
 
-- 
2.43.0


From b790fe9b059c583975e8c4e2090417f974d17feb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 101/104] fix: factorial of the largest unsigned integer

---
 libs/e_float/src/functions/gamma/factorial.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/factorial.cpp b/libs/e_float/src/functions/gamma/factorial.cpp
index e0396e5..9f0331e 100644
--- a/libs/e_float/src/functions/gamma/factorial.cpp
+++ b/libs/e_float/src/functions/gamma/factorial.cpp
@@ -16,12 +16,11 @@
 
 namespace Factorial_Series
 {
-  e_float AtInfinity(const std::uint32_t n);
+  e_float AtInfinity(const e_float& x);
 }
 
-e_float Factorial_Series::AtInfinity(const std::uint32_t n)
+e_float Factorial_Series::AtInfinity(const e_float& x)
 {
-  const e_float x                              = e_float(n);
         e_float one_over_x_pow_two_n_minus_one = ef::one() / x;
   const e_float one_over_x2                    = one_over_x_pow_two_n_minus_one * one_over_x_pow_two_n_minus_one;
 
@@ -66,7 +65,7 @@ e_float Factorial_Series::AtInfinity(const std::uint32_t n)
 e_float ef::factorial(const std::uint32_t n)
 {
   return (static_cast<std::size_t>(n) < Tables::A000142().size()) ? Tables::A000142()[n]()
-                                                                  : Factorial_Series::AtInfinity(static_cast<std::uint32_t>(n + static_cast<std::uint32_t>(1U)));
+                                                                  : Factorial_Series::AtInfinity(e_float(n) + ef::one());
 }
 
 e_float ef::binomial(const std::uint32_t n, const std::uint32_t k)
-- 
2.43.0


From 5a25714237d5804c9fa8a873f6fbc999f1e70673 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 102/104] fix: generic pown with the most negative power

---
 .../elementary/generic_functions_elementary.h               | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
index 029e822..939fb53 100644
--- a/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
+++ b/libs/e_float/src/generic_functions/elementary/generic_functions_elementary.h
@@ -107,6 +107,12 @@
       // Compute the pure power of typename T t^p. Binary splitting of the power is
       // used. The resulting computational complexity has the order of log2[abs(p)].
 
+      if(p == (std::numeric_limits<std::int64_t>::min)())
+      {
+        // The negation of p is not representable.
+        return pown(t, static_cast<std::int64_t>(p + 1)) / t;
+      }
+
       if(p < static_cast<std::int64_t>(0))
       {
         return T(1U) / pown(t, -p);
-- 
2.43.0


From ab21ece97e09df7406fb616f9612e3e342766d23 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:37:46 +0000
Subject: [PATCH 103/104] fix: gamma of small arguments loses digits with large
 numbers of digits

---
 libs/e_float/src/functions/gamma/gamma.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/e_float/src/functions/gamma/gamma.cpp b/libs/e_float/src/functions/gamma/gamma.cpp
index e9008a6..fb1c277 100644
--- a/libs/e_float/src/functions/gamma/gamma.cpp
+++ b/libs/e_float/src/functions/gamma/gamma.cpp
@@ -145,6 +145,9 @@ namespace GammaTemplate
         ((rx < min_arg_x) ? static_cast<std::int32_t>((min_arg_n - to_int32(rx)) + 1)
                           : static_cast<std::int32_t>(0));
 
+      // Keep the argument, since low-order digits of it are lost when scaling up.
+      const T x_unscaled(xx);
+
       // Scale the argument up and use downward recursion later for the final result.
       xx += n_recur;
 
@@ -174,12 +177,12 @@ namespace GammaTemplate
       G = exp(((((xx - half()) * log(xx)) - xx) + half_ln_two_pi) + sum);
 
       // Rescale the result using downward recursion if necessary.
-      for(std::int32_t k = static_cast<std::int32_t>(0); k < n_recur; k++)
+      for(std::int32_t k = n_recur; k > static_cast<std::int32_t>(0); k--)
       {
-        xx -= TR(1U);
-
-        G /= xx;
+        G /= (x_unscaled + TR(static_cast<std::int32_t>(k - static_cast<std::int32_t>(1))));
       }
+
+      xx = x_unscaled;
     }
 
     // Return the result, accounting for possible negative arguments.
-- 
2.43.0


From 760586657e7f5c62981a906d30fdee2623fcedd3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:42:20 +0000
Subject: [PATCH 104/104] fix: zeta of negative arguments near zero loses
 digits with large numbers of digits

---
 libs/e_float/src/functions/zeta/zeta.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/e_float/src/functions/zeta/zeta.cpp b/libs/e_float/src/functions/zeta/zeta.cpp
index 5b00ff7..a4c3671 100644
--- a/libs/e_float/src/functions/zeta/zeta.cpp
+++ b/libs/e_float/src/functions/zeta/zeta.cpp
@@ -82,7 +82,6 @@ namespace Zeta_Series
     using ef::to_int32;
     using ef::to_double;
     using ef::order_of;
-    using ef::small_arg;
     using ef::factorial;
     using ef::riemann_zeta;
     using ef::one;
@@ -107,7 +106,7 @@ namespace Zeta_Series
     }
 
     // Do not reflect if one minus the argument would lose the digits of the argument.
-    if(isneg(real(s)) && (!small_arg(fabs(TR(real(s))))))
+    if(isneg(real(s)) && (order_of(TR(real(s))) > static_cast<std::int64_t>(-3)))
     {
       // Support negative arguments using the reflection formula.
       // Support arguments with a real part which is less than 1/2.
-- 
2.43.0

