From 56579261930c34258ddbd6e5a5d602857d982ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 01/93] fix: emit montgomery constants for portable prime
 fields wider than 32 bits

Without the assembly prime fields, Goldilocks on x86_64 is backed by
prime_field_fallback.h, which always uses montgomery representation, while the
generator emitted One(), MinusOne() and TwoInv() in plain representation.
---
 .../prime_field_generator/prime_field_generator.cc        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 7400ef2..5c8579d 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -511,6 +511,14 @@ int RealMain(int argc, char** argv) {
     }
   }
 
+  // NOTE: The only portable implementation of a prime field wider than 32 bits,
+  // |prime_field_fallback.h|, always works in montgomery representation. The
+  // other representation is only available with an assembly implementation.
+  if (!config.use_asm &&
+      GetNumBits(math::gmp::FromDecString(config.modulus)) > 32) {
+    config.use_montgomery = true;
+  }
+
   if (base::EndsWith(config.out.value(), "_fail.h")) {
     return config.GenerateFailHdr();
   } else if (base::EndsWith(config.out.value(), "_fail.cc")) {
-- 
2.43.0


From 7241a2ccb573ddcc8480315bd81349175c425dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 02/93] fix: read limbs without breaking strict aliasing in
 Montgomery conversion

FromMontgomery32() wrote 64-bit limbs through a pointer to 32-bit integers,
which optimizing compilers are free to (and GCC 13 at -O2 does) miscompile.
---
 tachyon/math/base/big_int.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..d0044cc 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1047,9 +1047,13 @@ struct BigInt {
   template <typename T>
   constexpr static BigInt FromMontgomery(const BigInt<N>& value,
                                          const BigInt<N>& modulus, T inverse) {
-    BigInt<N> r = value;
-    T* r_ptr = reinterpret_cast<T*>(r.limbs);
-    const T* m_ptr = reinterpret_cast<const T*>(modulus.limbs);
+    // NOTE: |T| may differ from |uint64_t|, so the limbs are copied instead of
+    // being accessed through a pointer to |T|, which would break the strict
+    // aliasing rule.
+    T r_ptr[kByteNums / sizeof(T)] = {};
+    T m_ptr[kByteNums / sizeof(T)] = {};
+    memcpy(r_ptr, value.limbs, kByteNums);
+    memcpy(m_ptr, modulus.limbs, kByteNums);
     size_t num = 0;
     MulResult<T> (*mul_add_with_carry)(T, T, T, T);
     if constexpr (std::is_same_v<T, uint32_t>) {
@@ -1070,6 +1074,8 @@ struct BigInt {
       }
       r_ptr[i] = result.hi;
     }
+    BigInt<N> r{};
+    memcpy(r.limbs, r_ptr, kByteNums);
     return r;
   }
 
-- 
2.43.0


From 2a536287bc630cc591d5f67f01c15523052622fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:28 +0000
Subject: [PATCH 03/93] fix: keep the carry when converting to non-adjacent
 form

Adding 1 to a value whose bits are all ones from some bit on overflowed, so the
NAF of e.g. the maximum value was that of -1.
---
 tachyon/math/base/big_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index d0044cc..99c2cb8 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -881,6 +881,7 @@ struct BigInt {
     ret.reserve(8 * sizeof(uint64_t) * N);
     while (!v.IsZero()) {
       int8_t z;
+      uint64_t carry = 0;
       // v = v₀ * 2⁰ + v₁ * 2¹ + v₂ * 2² + ... + vₙ₋₁ * 2ⁿ⁻¹
       // if v₀ == 0:
       //   z = 0
@@ -896,13 +897,14 @@ struct BigInt {
         if (z >= 0) {
           v -= BigInt(z);
         } else {
-          v += BigInt(-z);
+          v.AddInPlace(BigInt(-z), carry);
         }
       } else {
         z = 0;
       }
       ret.push_back(z);
       v.DivBy2InPlace();
+      if (carry) BitTraits<BigInt>::SetBit(v, kBitNums - 1, true);
     }
     return ret;
   }
-- 
2.43.0


From 640cbd1ccb0be1fc41b96c39e03cdf0fb20d7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 04/93] fix: parse only the given view when reading numbers

A std::string_view was passed on as if it were null-terminated, so that parsing
a part of a longer string read past its end.
---
 tachyon/math/base/gmp/gmp_util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/gmp/gmp_util.cc b/tachyon/math/base/gmp/gmp_util.cc
index c0ecea5..87dba72 100644
--- a/tachyon/math/base/gmp/gmp_util.cc
+++ b/tachyon/math/base/gmp/gmp_util.cc
@@ -1,5 +1,7 @@
 #include "tachyon/math/base/gmp/gmp_util.h"
 
+#include <string>
+
 #include "absl/base/call_once.h"
 
 #include "tachyon/base/logging.h"
@@ -34,7 +36,8 @@ bool ParseIntoMpz(std::string_view str, int base, mpz_class* out) {
     base::ConsumePrefix0x(&str);
   }
 
-  return out->set_str(str.data(), base) == 0;
+  // |str| is not necessarily null-terminated.
+  return out->set_str(std::string(str), base) == 0;
 }
 
 void MustParseIntoMpz(std::string_view str, int base, mpz_class* out) {
-- 
2.43.0


From 4af71f074c426542aab4bb530a09d7be5dab1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 05/93] fix: emit plain constants for prime fields without
 montgomery form

The subgroup generator and the roots of unity were always written in montgomery
form, so GetRootOfUnity() of a small prime field that does not use it returned
an element of the wrong order.
---
 .../prime_field_generator/prime_field_generator.cc     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 5c8579d..3ceaede 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -218,6 +218,10 @@ int GenerationConfig::GenerateConfigHdr() const {
   mpz_class two(2);
   mpz_class two_inv;
   mpz_invert(two_inv.get_mpz_t(), two.get_mpz_t(), m.get_mpz_t());
+  auto to_string = [this, &m](const mpz_class& value) {
+    return use_montgomery ? math::MpzClassToMontString(value, m)
+                          : math::MpzClassToString(value);
+  };
   if (use_montgomery) {
     replacements["%{one}"] = math::MpzClassToMontString(mpz_class(1), m);
     replacements["%{minus_one}"] =
@@ -270,7 +274,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   if (has_two_adic_root_of_unity) {
     subgroup_generator_mpz = math::gmp::FromDecString(subgroup_generator);
     replacements["%{subgroup_generator}"] =
-        math::MpzClassToMontString(subgroup_generator_mpz, m);
+        to_string(subgroup_generator_mpz);
 
     // 1) 2ˢ * t = m - 1,
     // According to Fermat's Little Theorem, the following equations hold:
@@ -286,7 +290,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{two_adicity}"] =
         base::NumberToString(math::ComputeAdicity(2, m - mpz_class(1)));
     replacements["%{two_adic_root_of_unity}"] =
-        math::MpzClassToMontString(two_adic_root_of_unity, m);
+        to_string(two_adic_root_of_unity);
   }
 
   bool has_large_subgroup_root_of_unity = !small_subgroup_base.empty();
@@ -318,7 +322,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{small_subgroup_base}"] = small_subgroup_base;
     replacements["%{small_subgroup_adicity}"] = small_subgroup_adicity;
     replacements["%{large_subgroup_root_of_unity}"] =
-        math::MpzClassToMontString(large_subgroup_root_of_unity, m);
+        to_string(large_subgroup_root_of_unity);
   }
 
   tpl_content = absl::StrJoin(tpl_lines, "\n");
-- 
2.43.0


From f0b0267e1068cef2b14a6968992404ab7caa9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 06/93] fix: include the KoalaBear4 headers from the koala_bear
 directory

---
 tachyon/math/finite_fields/koala_bear/koala_bear4.h        | 4 ++--
 tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index 7371e9a..caa10f9 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,8 +1,8 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/koala_bear4.h"
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
diff --git a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
index 09e3c97..7a6f451 100644
--- a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
@@ -1,7 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
-- 
2.43.0


From 5f15b9f58d862cde138da70432649e6f88fa7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 07/93] fix: multiply an extension field element by itself in
 place

---
 .../finite_fields/quadratic_extension_field.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..1dc71ce 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -344,17 +344,18 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
-      // c.c1 = a.c0 + a.c1
-      c.c1_ = a.c0_ + a.c1_;
-      // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
-      // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
-      // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ -= v0;
-      // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-      c.c1_ -= v1;
+      // c1 = a.c0 + a.c1
+      BaseField c1 = a.c0_ + a.c1_;
+      // c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
+      // c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
+      c1 *= (b.c0_ + b.c1_);
+      // c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
+      c1 -= v0;
+      // c1 = a.c0 * b.c1 + a.c1 * b.c0
+      c1 -= v1;
       // c.c0 = a.c0 * b.c0 + a.c1 * b.c1 * q
       c.c0_ = v0 + Config::MulByNonResidue(v1);
+      c.c1_ = std::move(c1);
     }
   }
 
-- 
2.43.0


From 13e0ac174fc832e5e6e5d6ba39e07eb37c58ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 08/93] fix: zero the upper coordinates of an extension field
 element made from an integer

---
 tachyon/math/finite_fields/cubic_extension_field.h     | 5 ++++-
 tachyon/math/finite_fields/quadratic_extension_field.h | 4 +++-
 tachyon/math/finite_fields/quartic_extension_field.h   | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/cubic_extension_field.h b/tachyon/math/finite_fields/cubic_extension_field.h
index a094e52..3eab053 100644
--- a/tachyon/math/finite_fields/cubic_extension_field.h
+++ b/tachyon/math/finite_fields/cubic_extension_field.h
@@ -34,7 +34,10 @@ class CubicExtensionField : public CyclotomicMultiplicativeSubgroup<Derived>,
   constexpr CubicExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit CubicExtensionField(T value) : c0_(value) {}
+  constexpr explicit CubicExtensionField(T value)
+      : c0_(value),
+        c1_(BaseField::Zero()),
+        c2_(BaseField::Zero()) {}
   constexpr explicit CubicExtensionField(const BaseField& c0)
       : c0_(c0), c1_(BaseField::Zero()), c2_(BaseField::Zero()) {}
   constexpr explicit CubicExtensionField(BaseField&& c0)
diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 1dc71ce..6ce78de 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -35,7 +35,9 @@ class QuadraticExtensionField
   constexpr QuadraticExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit QuadraticExtensionField(T value) : c0_(value) {}
+  constexpr explicit QuadraticExtensionField(T value)
+      : c0_(value),
+        c1_(BaseField::Zero()) {}
   constexpr explicit QuadraticExtensionField(const BaseField& c0)
       : c0_(c0), c1_(BaseField::Zero()) {}
   constexpr explicit QuadraticExtensionField(BaseField&& c0)
diff --git a/tachyon/math/finite_fields/quartic_extension_field.h b/tachyon/math/finite_fields/quartic_extension_field.h
index 346a584..3a4b357 100644
--- a/tachyon/math/finite_fields/quartic_extension_field.h
+++ b/tachyon/math/finite_fields/quartic_extension_field.h
@@ -30,7 +30,11 @@ class QuarticExtensionField : public CyclotomicMultiplicativeSubgroup<Derived>,
   constexpr QuarticExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit QuarticExtensionField(T value) : c0_(value) {}
+  constexpr explicit QuarticExtensionField(T value)
+      : c0_(value),
+        c1_(BaseField::Zero()),
+        c2_(BaseField::Zero()),
+        c3_(BaseField::Zero()) {}
   constexpr explicit QuarticExtensionField(const BaseField& c0)
       : c0_(c0),
         c1_(BaseField::Zero()),
-- 
2.43.0


From d7ae993df5da5b656e3cba9be8fe3ac017ded16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 09/93] fix: Frobenius coefficients of a quartic field over a
 quadratic one

---
 tachyon/math/finite_fields/fp4.h              | 25 +++++++++----------
 .../ext_field_generator.cc                    |  3 +--
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/tachyon/math/finite_fields/fp4.h b/tachyon/math/finite_fields/fp4.h
index 82e3508..b7da0b2 100644
--- a/tachyon/math/finite_fields/fp4.h
+++ b/tachyon/math/finite_fields/fp4.h
@@ -43,8 +43,7 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
  private:
   static void DoInit() {
-    using BaseFieldConfig = typename BaseField::Config;
-    // x⁴ = q = |BaseFieldConfig::kNonResidue|
+    // x² = q = |Config::kNonResidue|
 
     Config::Init();
 
@@ -52,8 +51,8 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
     //    = α₀ᴾ + α₁ᴾxᴾ
     //    = ᾱ₀ + ᾱ₁xᴾ <- conjugate
     //    = ᾱ₀ + ᾱ₁xᴾ⁻¹x
-    //    = ᾱ₀ + ᾱ₁(x⁴)^((p - 1) / 4) * x
-    //    = ᾱ₀ - ᾱ₁ωx, where ω is a quartic root of unity.
+    //    = ᾱ₀ + ᾱ₁(x²)^((P - 1) / 2) * x
+    //    = ᾱ₀ + ᾱ₁ωx, where ω = q^((P - 1) / 2).
 
     using UnpackedBasePrimeField = MaybeUnpack<BasePrimeField>;
 
@@ -75,29 +74,29 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
 #undef SET_M
 
-#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(4)
+#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(2)
 
-    // exp₁ = (m₁ - 1) / 4 = (P¹ - 1) / 4
+    // exp₁ = (m₁ - 1) / 2 = (P¹ - 1) / 2
     SET_EXP_GMP(1);
-    // exp₂ = (m₂ - 1) / 4 = (P² - 1) / 4
+    // exp₂ = (m₂ - 1) / 2 = (P² - 1) / 2
     SET_EXP_GMP(2);
-    // exp₃ = (m₃ - 1) / 4 = (P³ - 1) / 4
+    // exp₃ = (m₃ - 1) / 2 = (P³ - 1) / 2
     SET_EXP_GMP(3);
 
 #undef SET_EXP_GMP
 
-    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 4) = 1
+    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 2) = 1
     Config::kFrobeniusCoeffs[0] = FrobeniusCoefficient::One();
 #define SET_FROBENIUS_COEFF(d)                \
   BigInt<d * N> exp##d(0);                    \
   gmp::CopyLimbs(exp##d##_gmp, exp##d.limbs); \
-  Config::kFrobeniusCoeffs[d] = BaseFieldConfig::kNonResidue.Pow(exp##d)
+  Config::kFrobeniusCoeffs[d] = Config::kNonResidue.Pow(exp##d)
 
-    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 4) = ω
+    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 2) = ω
     SET_FROBENIUS_COEFF(1);
-    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 4)
+    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 2)
     SET_FROBENIUS_COEFF(2);
-    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 4)
+    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 2)
     SET_FROBENIUS_COEFF(3);
 
 #undef SET_FROBENIUS_COEFF
diff --git a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
index 1860e2f..f302de2 100644
--- a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
@@ -119,8 +119,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   }
 
   replacements["%{frobenius_coefficient}"] =
-      ((degree == 4 && base_field_degree == 2) ||
-       (degree == 6 && base_field_degree == 3) || degree == 12)
+      ((degree == 6 && base_field_degree == 3) || degree == 12)
           ? "typename BaseField::BaseField"
           : "BaseField";
 
-- 
2.43.0


From 3138ec1d3f994ccfb5a2ec7beb8533900aa1f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 10/93] fix: pad hexadecimal 64-bit binary field elements to 16
 digits

---
 tachyon/math/finite_fields/binary_fields/binary_field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/binary_fields/binary_field.h b/tachyon/math/finite_fields/binary_fields/binary_field.h
index 56f87fd..c572e6c 100644
--- a/tachyon/math/finite_fields/binary_fields/binary_field.h
+++ b/tachyon/math/finite_fields/binary_fields/binary_field.h
@@ -206,7 +206,7 @@ class BinaryField final : public FiniteField<BinaryField<_Config>> {
     if constexpr (kBits <= 64) {
       std::string str = base::HexToString(value_);
       if (pad_zero) {
-        str = base::ToHexStringWithLeadingZero(str, 8);
+        str = base::ToHexStringWithLeadingZero(str, kBits <= 32 ? 8 : 16);
       }
       return base::MaybePrepend0x(str);
     } else {
-- 
2.43.0


From 2771662d1d78894a0e36aa9d9b29da6ba99a2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 11/93] fix: pack quartic extension powers over the packed base
 field

---
 tachyon/math/finite_fields/baby_bear/BUILD.bazel    | 1 +
 tachyon/math/finite_fields/baby_bear/baby_bear4.h   | 1 +
 tachyon/math/finite_fields/koala_bear/BUILD.bazel   | 1 +
 tachyon/math/finite_fields/koala_bear/koala_bear4.h | 1 +
 4 files changed, 4 insertions(+)

diff --git a/tachyon/math/finite_fields/baby_bear/BUILD.bazel b/tachyon/math/finite_fields/baby_bear/BUILD.bazel
index ad392cd..78e19a0 100644
--- a/tachyon/math/finite_fields/baby_bear/BUILD.bazel
+++ b/tachyon/math/finite_fields/baby_bear/BUILD.bazel
@@ -19,6 +19,7 @@ tachyon_cc_library(
     name = "baby_bear4",
     hdrs = ["baby_bear4.h"],
     deps = [
+        ":baby_bear",
         "//tachyon/math/finite_fields/baby_bear/internal:baby_bear4",
         "//tachyon/math/finite_fields/baby_bear/internal:packed_baby_bear4",
     ],
diff --git a/tachyon/math/finite_fields/baby_bear/baby_bear4.h b/tachyon/math/finite_fields/baby_bear/baby_bear4.h
index f991284..abf744e 100644
--- a/tachyon/math/finite_fields/baby_bear/baby_bear4.h
+++ b/tachyon/math/finite_fields/baby_bear/baby_bear4.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_BABY_BEAR_BABY_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_BABY_BEAR_BABY_BEAR4_H_
 
+#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
 #include "tachyon/math/finite_fields/baby_bear/internal/baby_bear4.h"
 #include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear4.h"
 
diff --git a/tachyon/math/finite_fields/koala_bear/BUILD.bazel b/tachyon/math/finite_fields/koala_bear/BUILD.bazel
index 877f17b..50571f3 100644
--- a/tachyon/math/finite_fields/koala_bear/BUILD.bazel
+++ b/tachyon/math/finite_fields/koala_bear/BUILD.bazel
@@ -19,6 +19,7 @@ tachyon_cc_library(
     name = "koala_bear4",
     hdrs = ["koala_bear4.h"],
     deps = [
+        ":koala_bear",
         "//tachyon/math/finite_fields/koala_bear/internal:koala_bear4",
         "//tachyon/math/finite_fields/koala_bear/internal:packed_koala_bear4",
     ],
diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index caa10f9..7871807 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
+#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
 #include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
 #include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
-- 
2.43.0


From 1810f84240c68312748180e57d70acae34511717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 12/93] fix: a rational field element with numerator one is not
 one

---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..5506088 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -81,11 +81,11 @@ class RationalField : public Field<RationalField<F>> {
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
   constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
+    return numerator_ == denominator_;
   }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From b8db38764ecdbe4c4892d650d5179dd90e034ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 13/93] fix: apply the coefficient in
 RationalField::BatchEvaluate

---
 tachyon/math/base/rational_field.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index 5506088..c55d39d 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,14 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
-                                       size_t chunk_size) {
+                      [&ration_fields, &coeff](absl::Span<F> chunk,
+                                               size_t chunk_offset,
+                                               size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From bd37edee13cb9a9f042b27af2350cf4aca5d0d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 14/93] fix: generate curves without GLV coefficients

---
 .../elliptic_curves/short_weierstrass/generator/cpu.h.tpl   | 6 +++---
 .../short_weierstrass/generator/generator.cc                | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
index b7884f6..a9678c7 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
@@ -37,9 +37,9 @@ class %{class}CurveConfig {
   static Point2<BaseField> kGenerator;
 %{if HasGLVCoefficients}
   static BaseField kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
   static ScalarField kLambda;
   static mpz_class kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
   static void Init() {
     static absl::once_flag once;
@@ -58,9 +58,9 @@ class %{class}CurveConfig {
 %{y_init}
 %{if HasGLVCoefficients}
 %{endomorphism_coefficient_init_code}
-%{endif HasGLVCoefficients}
 %{lambda_init_code}
 %{glv_coeffs_init_code}
+%{endif HasGLVCoefficients}
     VLOG(1) << "%{namespace}::%{class} initialized";
   }
 };
@@ -74,11 +74,11 @@ Point2<BaseField> %{class}CurveConfig<BaseField, ScalarField>::kGenerator;
 %{if HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 BaseField %{class}CurveConfig<BaseField, ScalarField>::kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 ScalarField %{class}CurveConfig<BaseField, ScalarField>::kLambda;
 template <typename BaseField, typename ScalarField>
 mpz_class %{class}CurveConfig<BaseField, ScalarField>::kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
 using %{class}Curve = SWCurve<%{class}CurveConfig<%{base_field}, %{scalar_field}>>;
 using %{class}AffinePoint = AffinePoint<%{class}Curve>;
diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 345203d..6f2ae53 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -126,9 +126,8 @@ int GenerationConfig::GenerateConfigHdr() const {
                                  glv_coefficients[i]);
                            }),
         "\n");
-
-    RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   }
+  RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   tpl_content = absl::StrJoin(tpl_lines, "\n");
   std::string content = absl::StrReplaceAll(tpl_content, replacements);
   return WriteHdr(content, false);
-- 
2.43.0


From 89c12048292afb4006b54e02560f8b0a2928a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 15/93] fix: pass reverse_at_last on from the copying
 CosetLDEBatch

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From 323a06decfabe725158419144e63f34d05308f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:28 +0000
Subject: [PATCH 16/93] fix: account for coset offsets in filter polynomials

---
 .../polynomials/univariate/univariate_evaluation_domain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..4d62c42 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -404,7 +404,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
                                          subdomain.offset_pow_size_}}));
     SparsePoly subdomain_vanishing_poly =
         subdomain.GetVanishingPolynomial() *
-        SparsePoly(SparseCoeffs({{0, size_as_field_element_}}));
+        SparsePoly(
+            SparseCoeffs({{0, size_as_field_element_ * offset_pow_size_}}));
     std::optional<DivResult<DensePoly>> result =
         domain_vanishing_poly.DivMod(subdomain_vanishing_poly);
     CHECK(result);
@@ -424,9 +425,10 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
     } else {
       const std::optional<F> div =
           EvaluateVanishingPolynomial(tau) /
-          (size_as_field_element_ * v_subdomain_of_tau);
+          (size_as_field_element_ * offset_pow_size_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From c862d9c8aaea4132a1c0df244b6be7e65d517daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:29 +0000
Subject: [PATCH 17/93] fix: complete cached twiddles that were prepared for
 packed use only

---
 .../univariate/radix2_twiddle_cache.h           | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..71e0024 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -57,9 +57,8 @@ class Radix2TwiddleCache {
     template <typename Domain>
     Item(const Domain* domain, bool packed_vec_only) {
       TRACE_EVENT("Utils", "Radix2TwiddleCache<F>::Item::Init");
-      if (domain->log_size_of_group() == 0) return;
-
       this->packed_vec_only = packed_vec_only;
+      if (domain->log_size_of_group() == 0) return;
 
       roots_vec.resize(domain->log_size_of_group());
       inv_roots_vec.resize(domain->log_size_of_group());
@@ -98,7 +97,13 @@ class Radix2TwiddleCache {
       roots_vec[domain->log_size_of_group() - 1] = std::move(largest);
       inv_roots_vec[0] = std::move(largest_inv);
 
-      if (packed_vec_only) return;
+      if (!packed_vec_only) PrepareSmallerRoots(domain);
+    }
+
+    // Derive the vectors for the smaller gaps from the biggest ones.
+    template <typename Domain>
+    void PrepareSmallerRoots(const Domain* domain) {
+      packed_vec_only = false;
 
       // Prepare space in each vector for the others.
       size_t size = domain->size() / 2;
@@ -128,12 +133,14 @@ class Radix2TwiddleCache {
     absl::MutexLock lock(&twiddle_cache->mutex_);
     auto it = twiddle_cache->items_.find(
         std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
+    if (it == twiddle_cache->items_.end()) {
       it = twiddle_cache->items_.insert(
           it,
           std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
                          std::make_unique<Item>(domain, packed_vec_only)));
+    } else if (it->second->packed_vec_only && !packed_vec_only) {
+      // NOTE: The item is completed in place since others may refer to it.
+      it->second->PrepareSmallerRoots(domain);
     }
     return it->second.get();
   }
-- 
2.43.0


From 2697df21b9495fc0561fed30161653288e127dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 18/93] fix: let domains reach the small subgroup in their
 largest size

---
 .../univariate/mixed_radix_evaluation_domain.h            | 8 ++++----
 .../univariate/univariate_evaluation_domain_factory.h     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..8c36b23 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -38,11 +38,11 @@ namespace tachyon::math {
 
 template <typename F>
 constexpr size_t MaxDegreeForMixedRadixEvaluationDomain() {
-  size_t i = 1;
-  for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
-    i *= F::Config::kSmallSubgroupBase;
+  size_t size = size_t{1} << F::Config::kTwoAdicity;
+  for (size_t i = 0; i < F::Config::kSmallSubgroupAdicity; ++i) {
+    size *= F::Config::kSmallSubgroupBase;
   }
-  return i * (size_t{1} << F::Config::kTwoAdicity) - 1;
+  return size - 1;
 }
 
 // Defines a domain over which finite field (I)FFTs can be performed. Works only
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
index c82ee5f..9a8be8a 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
@@ -15,13 +15,13 @@ namespace tachyon::math {
 
 template <typename F>
 constexpr size_t MaxDegreeForEvaluationDomainFactory() {
-  size_t i = 1;
+  size_t size = size_t{1} << F::Config::kTwoAdicity;
   if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
-    for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
-      i *= F::Config::kSmallSubgroupBase;
+    for (size_t i = 0; i < F::Config::kSmallSubgroupAdicity; ++i) {
+      size *= F::Config::kSmallSubgroupBase;
     }
   }
-  return i * (size_t{1} << F::Config::kTwoAdicity) - 1;
+  return size - 1;
 }
 
 template <typename F,
-- 
2.43.0


From d9b801f390591d64330a1cf9257c492b1fecf8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 19/93] fix: keep the base term of mixed radix butterflies

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 8c36b23..07fa755 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            const F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From 2a89b6ea5f124b6d89a7c51376f45c9ecb074ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 20/93] fix: return the result of operator%= of polynomials by
 value

---
 tachyon/math/polynomials/univariate/univariate_polynomial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial.h b/tachyon/math/polynomials/univariate/univariate_polynomial.h
index b5ba41f..7d16103 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial.h
@@ -281,7 +281,8 @@ class UnivariatePolynomial final
   }
 
   template <typename Coefficients2>
-  constexpr auto& operator%=(const UnivariatePolynomial<Coefficients2>& other) {
+  [[nodiscard]] constexpr auto operator%=(
+      const UnivariatePolynomial<Coefficients2>& other) {
     return ModInPlace(other);
   }
 
-- 
2.43.0


From 4d28b571b95ec44a6c84696c53e18c509cbe19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:38 +0000
Subject: [PATCH 21/93] fix: do not read past the coefficients when folding an
 odd number of them

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..0c79a9a 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < size - size % 2; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From 9e58234a327c5a02c3ae9c61ed99d440ec897831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 22/93] fix: take the powers of sparse terms by their degree as
 an integer

---
 .../polynomials/univariate/univariate_sparse_coefficients.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 4748e1d..364c6d7 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -26,6 +26,7 @@
 #include "tachyon/base/optional.h"
 #include "tachyon/base/ranges/algorithm.h"
 #include "tachyon/base/strings/string_util.h"
+#include "tachyon/math/base/big_int.h"
 #include "tachyon/math/polynomials/univariate/support_poly_operators.h"
 
 namespace tachyon {
@@ -219,7 +220,7 @@ class UnivariateSparseCoefficients {
 
     F sum = F::Zero();
     for (const Term& term : terms_) {
-      sum += F::PowWithTable(powers_of_2, F(term.degree).ToBigInt()) *
+      sum += F::PowWithTable(powers_of_2, BigInt<1>(term.degree)) *
              term.coefficient;
     }
     return sum;
-- 
2.43.0


From 423a922611b32cd809e384ed7e110a4aec61b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 23/93] fix: order sparse multivariate literals totally

---
 .../multivariate/multivariate_sparse_coefficients.h          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..2e38299 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -82,7 +82,10 @@ class MultivariateSparseCoefficients {
 
     bool operator<(const Literal& other) const {
       if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
+        if (elements.size() != other.elements.size()) {
+          return elements.size() < other.elements.size();
+        }
+        return elements < other.elements;
       } else {
         return elements.back() < other.elements.back();
       }
-- 
2.43.0


From a5d665ed3992e725ce9fbdad66db0abd4a168d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 24/93] fix: compact a sparse multivariate polynomial without
 terms

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 2e38299..0c31dfd 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -304,6 +304,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From 4dcc70bcac8c3f53af37a9fadbfa05bada9b7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 25/93] fix: give sums of multivariate polynomials their number
 of variables

---
 .../polynomials/multivariate/multivariate_polynomial_ops.h    | 2 ++
 .../multivariate/multivariate_sparse_coefficients.h           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..201fc98 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -149,6 +149,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 0c31dfd..5e4cd56 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -271,10 +271,10 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr F Evaluate(const Point& points) const {
-    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     if (IsZero()) {
       return F::Zero();
     }
+    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     std::vector<F> results =
         base::ParallelizeMap(terms_, [&points](absl::Span<const Term> chunk) {
           return EvaluateSerial(chunk, points);
@@ -350,7 +350,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From f333c9b8683279907002f30854f1ef8698f43acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 26/93] fix: take the degree of a multivariate polynomial over
 all of its terms

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 5e4cd56..3d0b89c 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -266,8 +266,11 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 8c8aedee774b8fa10f33ff4cb3917427d9c73796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 27/93] fix: make at() and GetLeadingCoefficient() of
 multivariate polynomials compile

---
 .../multivariate/multivariate_sparse_coefficients.h       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 3d0b89c..fe5071c 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -238,9 +238,9 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr F& at(const Literal& literal) {
-    const F* ptr = const_cast<F*>(std::as_const(*this).GetCoefficient(literal));
-    if (ptr) return *ptr;
-    return kZero;
+    const F* ptr = GetCoefficient(literal);
+    CHECK(ptr);
+    return *const_cast<F*>(ptr);
   }
 
   constexpr const F& at(const Literal& literal) const {
@@ -255,7 +255,7 @@ class MultivariateSparseCoefficients {
 
   constexpr const F& GetLeadingCoefficient() const {
     if (IsZero()) return kZero;
-    return terms_.begin().coefficient;
+    return terms_.back().coefficient;
   }
 
   constexpr bool IsZero() const { return terms_.empty(); }
-- 
2.43.0


From 533ac09872be34a14ba8f4e4cc9d9c39885b1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 28/93] fix: count the missing evaluations of a zero extension
 as zeros

---
 tachyon/math/polynomials/multivariate/linear_combination_term.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/linear_combination_term.h b/tachyon/math/polynomials/multivariate/linear_combination_term.h
index 6e2026b..23b549a 100644
--- a/tachyon/math/polynomials/multivariate/linear_combination_term.h
+++ b/tachyon/math/polynomials/multivariate/linear_combination_term.h
@@ -58,7 +58,7 @@ struct LinearCombinationTerm {
                 [&flattened_ml_evaluations, i](F& acc, size_t index) {
                   const std::vector<F>& evals =
                       flattened_ml_evaluations[index]->evaluations();
-                  return (i < evals.size()) ? (acc *= evals[i]) : acc;
+                  return acc *= (i < evals.size()) ? evals[i] : F::Zero();
                 });
           }
           return sum;
-- 
2.43.0


From ecee374676d9162c7774e6f759cc0885e9b18aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 29/93] fix: do not take an XYZZ point with z = -1 for a
 normalised one

---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From 97ab5cb96605cb7f2edea7fc951b073429a29346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 30/93] fix: double Jacobian points of curves with a nonzero a

---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From 8eeba39dfc0cb1c1fb40f111c5ffa09d9df91c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:38 +0000
Subject: [PATCH 31/93] fix: generate the multiplication by a nonzero a of a
 curve

---
 .../elliptic_curves/short_weierstrass/generator/generator.cc  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 6f2ae53..da618cc 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -16,8 +16,8 @@ std::string GenerateMulByAFunc(bool mul_by_a_fast, int64_t a_value) {
   if (a_value == 0) return "    return BaseField::Zero();";
   if (mul_by_a_fast) {
     std::stringstream ss;
-    ss << "    return ";
-    ss << math::GenerateFastMultiplication(a_value) << ";";
+    ss << "    BaseField ret = v;" << std::endl;
+    ss << "    return ret" << math::GenerateFastMultiplication(a_value) << ";";
     return ss.str();
   }
   return "    return kA * v;";
-- 
2.43.0


From ce46d76d9d14f9520be7146b384ee5f8c6d47095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 32/93] fix: multiply by both halves of a GLV decomposition
 when their lengths differ

---
 tachyon/math/elliptic_curves/msm/glv.h | 34 ++++++++++++--------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..2fc5e3d 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,7 +6,11 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
-#include "tachyon/math/base/bit_iterator.h"
+#include <stddef.h>
+
+#include <algorithm>
+#include <limits>
+
 #include "tachyon/math/base/gmp/bit_traits.h"
 #include "tachyon/math/base/gmp/signed_value.h"
 #include "tachyon/math/elliptic_curves/semigroups.h"
@@ -84,36 +88,30 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
-    auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
+    // NOTE: |k1| and |k2| don't always have the same number of limbs.
+    size_t bits =
+        std::max(BitTraits<mpz_class>::GetNumBits(result.k1.abs_value),
+                 BitTraits<mpz_class>::GetNumBits(result.k2.abs_value));
 
     RetPoint ret = RetPoint::Zero();
     bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
-    while (k1_it != k1_end) {
-      if (skip_zeros && !(*k1_it) && !(*k2_it)) {
-        skip_zeros = false;
-        ++k1_it;
-        ++k2_it;
-        continue;
-      }
+    for (size_t i = bits - 1; i != std::numeric_limits<size_t>::max(); --i) {
+      bool k1_bit = BitTraits<mpz_class>::TestBit(result.k1.abs_value, i);
+      bool k2_bit = BitTraits<mpz_class>::TestBit(result.k2.abs_value, i);
+      if (skip_zeros && !k1_bit && !k2_bit) continue;
       skip_zeros = false;
       ret.DoubleInPlace();
-      if ((*k1_it)) {
-        if (*(k2_it)) {
+      if (k1_bit) {
+        if (k2_bit) {
           ret += b1b2;
         } else {
           ret += b1;
         }
       } else {
-        if (*(k2_it)) {
+        if (k2_bit) {
           ret += b2;
         }
       }
-      ++k1_it;
-      ++k2_it;
     }
     return ret;
   }
-- 
2.43.0


From b1628d7c11acac184e0530cddc7b94bcaa1cab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 33/93] fix: size the product of a matrix and a vector by the
 rows of the matrix

---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 909e0cdf3d81ea5ce1f4d46e30d563f56233f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 34/93] fix: count the columns of sparse matrices with empty
 rows

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..61271c5 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -247,6 +248,7 @@ class CSRSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
+    if (elements_.empty()) return 0;
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
-- 
2.43.0


From f094c89df3353e0f948ceafaa588c3bd8f1f0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 35/93] fix: permute between blocks when a squeeze starts
 inside of a block

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..68c7ca4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -227,9 +227,7 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From 2fd134429664f84bb3dbe58686bf1f182d01fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 36/93] fix: use the 24 diagonal entries of the Poseidon2
 internal matrix of BabyBear of width 24

---
 .../param_traits/poseidon2_baby_bear.h        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
index 372fe66..09e25c3 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
@@ -37,14 +37,18 @@ struct Poseidon2ParamsTraits<math::BabyBear, 23, 7> {
   constexpr static std::array<math::BabyBear, 24>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::BabyBear{0x0a632d94}, math::BabyBear{0x6db657b7},
-        math::BabyBear{0x56fbdc9e}, math::BabyBear{0x052b3d8a},
-        math::BabyBear{0x33745201}, math::BabyBear{0x5c03108c},
-        math::BabyBear{0x0beba37b}, math::BabyBear{0x258c2e8b},
-        math::BabyBear{0x12029f39}, math::BabyBear{0x694909ce},
-        math::BabyBear{0x6d231724}, math::BabyBear{0x21c3b222},
-        math::BabyBear{0x3c0904a5}, math::BabyBear{0x01d6acda},
-        math::BabyBear{0x27705c83}, math::BabyBear{0x5231c802},
+        math::BabyBear{0x409133f0}, math::BabyBear{0x1667a8a1},
+        math::BabyBear{0x06a6c7b6}, math::BabyBear{0x6f53160e},
+        math::BabyBear{0x273b11d1}, math::BabyBear{0x03176c5d},
+        math::BabyBear{0x72f9bbf9}, math::BabyBear{0x73ceba91},
+        math::BabyBear{0x5cdef81d}, math::BabyBear{0x01393285},
+        math::BabyBear{0x46daee06}, math::BabyBear{0x065d7ba6},
+        math::BabyBear{0x52d72d6f}, math::BabyBear{0x05dd05e0},
+        math::BabyBear{0x3bab4b63}, math::BabyBear{0x6ada3842},
+        math::BabyBear{0x2fc5fbec}, math::BabyBear{0x770d61b0},
+        math::BabyBear{0x5715aae9}, math::BabyBear{0x03ef0e90},
+        math::BabyBear{0x75b6c770}, math::BabyBear{0x242adf5f},
+        math::BabyBear{0x00d0ca4c}, math::BabyBear{0x36c0e388},
     };
   }
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
-- 
2.43.0


From 76fa6e007ec97f4c94d10fa07e8a79c0d6f31c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 37/93] fix: parametrize Poseidon2 over Mersenne31 with the
 bijective S-box of degree 5

---
 .../sponge/poseidon2/param_traits/poseidon2_mersenne31.h      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h
index 96a86d4..6fc20b0 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h
@@ -11,14 +11,14 @@ namespace tachyon::crypto {
 // This is taken and modified from
 // https://github.com/Plonky3/Plonky3/blob/fde81db/mersenne-31/src/poseidon2.rs.
 template <>
-struct Poseidon2ParamsTraits<math::Mersenne31, 15, 7> {
+struct Poseidon2ParamsTraits<math::Mersenne31, 15, 5> {
   constexpr static std::array<uint8_t, 15> GetPoseidon2InternalShiftArray() {
     return {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16};
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Mersenne31, 23, 7> {
+struct Poseidon2ParamsTraits<math::Mersenne31, 23, 5> {
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
     return {
         0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  10, 11,
-- 
2.43.0


From c54d9e04f61fc67a22e71f5996d9da04d6e6f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 38/93] fix: make the Poseidon2 parameters of pallas and
 bls12_381 compile

---
 .../param_traits/poseidon2_bls12_381.h        | 32 +++++++-------
 .../poseidon2/param_traits/poseidon2_pallas.h | 42 +++++++++----------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
index 7d91c1d..82bafbd 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
@@ -4,7 +4,7 @@
 #include <array>
 
 #include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_param_traits_forward.h"
-#include "tachyon/math/elliptic_curves/bls12/bls12_318/fr.h"
+#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
 
 namespace tachyon::crypto {
 
@@ -35,33 +35,33 @@ struct Poseidon2ParamsTraits<math::bls12_381::Fr, 2, 5> {
 
 template <>
 struct Poseidon2ParamsTraits<math::bls12_381::Fr, 3, 5> {
-  constexpr static std::array<math::bls12_381::Fr, 4>
+  static std::array<math::bls12_381::Fr, 4>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
-        math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
-        math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
-        math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
+        *math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
+        *math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
+        *math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
+        *math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::bls12_381::Fr, 4, 5> {
-  constexpr static std::array<math::bls12_381::Fr, 5>
+struct Poseidon2ParamsTraits<math::bls12_381::Fr, 7, 5> {
+  static std::array<math::bls12_381::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
-        math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
-        math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
-        math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
-        math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
-        math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
-        math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
-        math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
+        *math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
+        *math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
+        *math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
+        *math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
+        *math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
+        *math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
+        *math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
+        *math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
         // clang-format on
     };
   }
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
index ab8ab65..4eb0f20 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
@@ -11,46 +11,46 @@ namespace tachyon::crypto {
 // This is taken and modified from
 // https://github.com/HorizenLabs/poseidon2/blob/bb476b9/plain_implementations/src/poseidon2/poseidon2_instance_pallas.rs.
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 2, 5> {
-  constexpr static std::array<math::Pallas::Fr, 3>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 2, 5> {
+  constexpr static std::array<math::pallas::Fr, 3>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(2),
+        math::pallas::Fr(1),
+        math::pallas::Fr(1),
+        math::pallas::Fr(2),
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 3, 5> {
-  constexpr static std::array<math::Pallas::Fr, 4>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 3, 5> {
+  static std::array<math::pallas::Fr, 4>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
-        math::Pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
-        math::Pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
-        math::Pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
+        *math::pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
+        *math::pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
+        *math::pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
+        *math::pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 7, 5> {
-  constexpr static std::array<math::Pallas::Fr, 8>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 7, 5> {
+  static std::array<math::pallas::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
-        math::Pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
-        math::Pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
-        math::Pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
-        math::Pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
-        math::Pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
-        math::Pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
-        math::Pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
+        *math::pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
+        *math::pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
+        *math::pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
+        *math::pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
+        *math::pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
+        *math::pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
+        *math::pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
+        *math::pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
         // clang-format on
     };
   }
-- 
2.43.0


From b3a461893f3f6ae451e83b257e930b57bce578e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:48 +0000
Subject: [PATCH 39/93] fix: serialize and compare every part of a Poseidon2
 config

---
 .../sponge/poseidon2/poseidon2_config.h       | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..29b83c4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -125,6 +125,15 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
     return Create(config_entry, internal_shifts, std::move(ark));
   }
 
+  bool operator==(const Poseidon2Config& other) const {
+    return PoseidonConfigBase<Params>::operator==(other) &&
+           internal_diagonal_minus_one == other.internal_diagonal_minus_one &&
+           internal_shifts == other.internal_shifts;
+  }
+  bool operator!=(const Poseidon2Config& other) const {
+    return !operator==(other);
+  }
+
  private:
   constexpr static Poseidon2Config Create(
       const Poseidon2ConfigEntry& config_entry,
@@ -166,25 +175,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
     *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    config->internal_shifts = std::move(internal_shifts);
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From 1eb9653900c66ca73312c46e9efde3697f3d5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 40/93] fix: leave no round constant of Poseidon2 uninitialized

---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 29b83c4..36d6ff0 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -30,8 +30,9 @@ template <typename F>
 void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
                       math::Matrix<F>& ark) {
   PoseidonGrainLFSR<F> lfsr(config);
-  ark = math::Matrix<F>(config.num_full_rounds + config.num_partial_rounds,
-                        config.state_len);
+  // NOTE: A partial round has one constant. The rest of its row is zero.
+  ark = math::Matrix<F>::Zero(
+      config.num_full_rounds + config.num_partial_rounds, config.state_len);
   size_t partial_rounds_start = config.num_full_rounds / 2;
   size_t partial_rounds_end =
       config.num_full_rounds / 2 + config.num_partial_rounds;
-- 
2.43.0


From 6fa14c1b2b4084bb6f25040a800555390e51a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 41/93] fix: build binary Merkle trees of one leaf and from
 subtrees of one leaf

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..3d44a70 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -143,13 +143,13 @@ class BinaryMerkleTree final
   }
 
   void BuildTreeFromLeaves(base::Range<size_t> range) const {
-    while (range.GetSize() > 0) {
+    while (range.GetSize() > 1) {
       for (size_t i = range.from; i < range.to; i += 2) {
         storage_->SetHash(i >> 1,
                           hasher_->ComputeParentHash(storage_->GetHash(i),
                                                      storage_->GetHash(i + 1)));
       }
-      range = base::Range<size_t>(range.from >> 1, (range.to >> 1) - 1);
+      range = base::Range<size_t>(range.from >> 1, range.to >> 1);
     }
   }
 
-- 
2.43.0


From 3f8b806ff815e6d163756443de5c25f19c9e671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:13 +0000
Subject: [PATCH 42/93] fix: refuse to open a matrix at an index that is only
 padding

---
 .../field_merkle_tree/field_merkle_tree_mmcs.h     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 20829be..df50023 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -15,6 +15,7 @@
 
 #include "tachyon/base/bits.h"
 #include "tachyon/base/containers/container_util.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
 #include "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"
@@ -139,6 +140,19 @@ class FieldMerkleTreeMMCS final
     size_t max_row_size = this->GetMaxRowSize(prover_data);
     uint32_t log_max_row_size = base::bits::Log2Ceiling(max_row_size);
 
+    // NOTE: A matrix whose number of rows isn't a power of two has no row to
+    // open at the indices it is padded to.
+    for (const Eigen::Map<const math::RowMajorMatrix<F>>& matrix :
+         prover_data.leaves()) {
+      size_t row_size = static_cast<size_t>(matrix.rows());
+      uint32_t bits_reduced =
+          log_max_row_size - base::bits::Log2Ceiling(row_size);
+      if ((index >> bits_reduced) >= row_size) {
+        LOG(ERROR) << "There is no row to open at index " << index;
+        return false;
+      }
+    }
+
     // TODO(chokobole): Is it able to be parallelized?
     *openings = base::Map(
         prover_data.leaves(),
-- 
2.43.0


From e82383421f74405a3620370d23dab2338677bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:19 +0000
Subject: [PATCH 43/93] fix: evaluate the selectors of a two-adic coset on a
 larger coset

---
 .../commitments/fri/two_adic_multiplicative_coset.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 976e352..d4aa468 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -87,26 +87,31 @@ class TwoAdicMultiplicativeCoset {
 
     CHECK_EQ(domain_->offset(), F::One());
     CHECK_NE(coset_shift, F::One());
-    CHECK_GE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
+    CHECK_LE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
     uint32_t rate_bits =
         coset.domain()->log_size_of_group() - domain_->log_size_of_group();
     F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());
+    // NOTE: Z_H takes |2^rate_bits| values on |coset|, and they repeat after
+    // that.
+    F rate_gen = coset.domain()->group_gen().ExpPowOfTwo(
+        domain_->log_size_of_group());
 
     // Evals of Z_H(X) = Xⁿ - 1
     size_t evals_size = size_t{1} << rate_bits;
     std::vector<F> evals(evals_size);
     std::vector<F> inv_denoms_inv_zeroifier(evals_size);
     base::Parallelize(
-        evals_size, [this, &s_pow_n, &evals, &inv_denoms_inv_zeroifier](
+        evals_size, [&s_pow_n, &rate_gen, &evals, &inv_denoms_inv_zeroifier](
                         size_t len, size_t chunk_offset, size_t chunk_size) {
           size_t start = chunk_offset * chunk_size;
-          F eval = s_pow_n * domain_->group_gen().Pow(start);
+          F eval = s_pow_n * rate_gen.Pow(start);
           for (size_t i = start; i < start + len; ++i) {
             evals[i] = eval - F::One();
             inv_denoms_inv_zeroifier[i] = evals[i];
+            eval *= rate_gen;
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
-              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], chunk_size);
+              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
           CHECK(F::BatchInverseInPlaceSerial(inv_denoms_inv_zeroifier_chunk));
         });
 
-- 
2.43.0


From c34841124796b9927d06b501d2b5867464cd8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:19 +0000
Subject: [PATCH 44/93] fix: reject invalid FRI proofs instead of aborting on
 them

---
 tachyon/crypto/commitments/fri/two_adic_fri.h | 11 ++--
 tachyon/crypto/commitments/fri/verify.h       | 57 +++++++++++++------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_fri.h b/tachyon/crypto/commitments/fri/two_adic_fri.h
index 96fb772..bbb273f 100644
--- a/tachyon/crypto/commitments/fri/two_adic_fri.h
+++ b/tachyon/crypto/commitments/fri/two_adic_fri.h
@@ -276,9 +276,11 @@ class TwoAdicFRI {
             const std::vector<std::vector<F>>& opened_values_in =
                 input_proof[round].opened_values;
 
-            CHECK(mmcs_.VerifyOpeningProof(commits_by_round[round], batch_dims,
-                                           reduced_index, opened_values_in,
-                                           input_proof[round].opening_proof));
+            if (!mmcs_.VerifyOpeningProof(commits_by_round[round], batch_dims,
+                                          reduced_index, opened_values_in,
+                                          input_proof[round].opening_proof)) {
+              return false;
+            }
 
             for (size_t batch_idx = 0; batch_idx < vals_size; ++batch_idx) {
               const Domain& domain = domains[batch_idx];
@@ -304,7 +306,7 @@ class TwoAdicFRI {
                 const ExtF& z = cur_points[i];
                 ExtF denom = unwrap((x - z).Inverse());
                 const std::vector<ExtF>& ps_at_z = cur_values[i];
-                CHECK_EQ(ps_at_z.size(), cur_values_in.size());
+                if (ps_at_z.size() != cur_values_in.size()) return false;
                 for (size_t j = 0; j < ps_at_z.size(); ++j) {
                   ExtF quotient = (cur_values_in[j] - ps_at_z[j]) * denom;
                   reduced_opening.value += reduced_opening.pow * quotient;
@@ -320,6 +322,7 @@ class TwoAdicFRI {
             ro_num_rows.emplace_back(it->first);
             ro_values.emplace_back(std::move(it->second.value));
           }
+          return true;
         });
   }
 
diff --git a/tachyon/crypto/commitments/fri/verify.h b/tachyon/crypto/commitments/fri/verify.h
index f23bb33..7b281f3 100644
--- a/tachyon/crypto/commitments/fri/verify.h
+++ b/tachyon/crypto/commitments/fri/verify.h
@@ -29,12 +29,13 @@ struct CommitStep {
 };
 
 template <typename PCS, typename MMCS, typename F>
-F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
-              const FRIConfig<MMCS>& config,
-              const std::vector<CommitStep<PCS>>& steps,
-              const std::vector<size_t>& ro_num_rows,
-              const std::vector<F>& ro_values) {
-  F folded_eval = F::Zero();
+[[nodiscard]] bool VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
+                               const FRIConfig<MMCS>& config,
+                               const std::vector<CommitStep<PCS>>& steps,
+                               const std::vector<size_t>& ro_num_rows,
+                               const std::vector<F>& ro_values,
+                               F& folded_eval) {
+  folded_eval = F::Zero();
   size_t ro_idx = 0;
   size_t ro_size = ro_num_rows.size();
 
@@ -47,18 +48,32 @@ F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
     size_t index_pair = index >> 1;
     std::vector<std::vector<F>> evals = {{folded_eval, folded_eval}};
     evals[0][index_sibling % 2] = steps[step_idx].opening.sibling_value;
-    CHECK(config.mmcs.VerifyOpeningProof(
-        steps[step_idx].commit,
-        {math::Dimensions(2, size_t{1} << log_folded_num_rows)}, index_pair,
-        evals, steps[step_idx].opening.opening_proof));
+    if (!config.mmcs.VerifyOpeningProof(
+            steps[step_idx].commit,
+            {math::Dimensions(2, size_t{1} << log_folded_num_rows)}, index_pair,
+            evals, steps[step_idx].opening.opening_proof)) {
+      LOG(ERROR) << "failed to verify the opening of the commit phase";
+      return false;
+    }
     folded_eval = FoldRow(index_pair, log_folded_num_rows, steps[step_idx].beta,
                           evals[0]);
     index = index_pair;
   }
-  CHECK_LT(index, config.Blowup()) << "index was " << index;
-  CHECK_EQ(ro_idx, ro_size);
-
-  return folded_eval;
+  uint32_t log_final_num_rows =
+      log_max_num_rows - static_cast<uint32_t>(steps.size());
+  if (ro_idx != ro_size && ro_num_rows[ro_idx] == log_final_num_rows) {
+    folded_eval += ro_values[ro_idx++];
+  }
+  if (index >= config.Blowup()) {
+    LOG(ERROR) << "index was " << index;
+    return false;
+  }
+  if (ro_idx != ro_size) {
+    LOG(ERROR) << "reduced openings are not used: " << ro_idx << " vs "
+               << ro_size;
+    return false;
+  }
+  return true;
 }
 
 template <typename PCS, typename ChallengeMMCS, typename Challenger,
@@ -100,8 +115,11 @@ template <typename PCS, typename ChallengeMMCS, typename Challenger,
     std::vector<ExtF> ro_values;
     size_t index = challenger.SampleBits(log_max_num_rows);
     VLOG(2) << "FRI(index[" << i << "]): " << index;
-    open_input(index, proof.query_proofs[i].input_proof, ro_num_rows,
-               ro_values);
+    if (!open_input(index, proof.query_proofs[i].input_proof, ro_num_rows,
+                    ro_values)) {
+      LOG(ERROR) << "failed to verify the input proof";
+      return false;
+    }
 
 #if DCHECK_IS_ON()
     // Check reduced openings sorted by |num_rows| descending
@@ -114,8 +132,11 @@ template <typename PCS, typename ChallengeMMCS, typename Challenger,
               betas[j], proof.commit_phase_commits[j],
               proof.query_proofs[i].commit_phase_openings[j]};
         });
-    ExtF folded_eval = VerifyQuery(index, log_max_num_rows, config, steps,
-                                   ro_num_rows, ro_values);
+    ExtF folded_eval;
+    if (!VerifyQuery(index, log_max_num_rows, config, steps, ro_num_rows,
+                     ro_values, folded_eval)) {
+      return false;
+    }
     if (folded_eval != proof.final_eval) {
       LOG(ERROR) << "final_eval is not matched: "
                  << folded_eval.ToHexString(true);
-- 
2.43.0


From 2482abb6f3f10e5365c3846c12aae765b48dcb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:19 +0000
Subject: [PATCH 45/93] fix: prepare the pairing of a KZG scheme made from
 parts

---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From 3a984baac2848a37f4961d59dcc829baca568a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:19 +0000
Subject: [PATCH 46/93] fix: compare the tables of sumcheck proving keys

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From 4ef3c89602db28fe8c23dec27a99b38a8b8c8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:19 +0000
Subject: [PATCH 47/93] fix: fix variables of multilinear evaluations that
 leave out zeros at the end

---
 .../polynomials/multivariate/multilinear_dense_evaluations.h    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
index fda7c47..c3cec58 100644
--- a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
+++ b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
@@ -165,6 +165,8 @@ class MultilinearDenseEvaluations {
     size_t k = partial_point.size();
     size_t n = Degree();
     CHECK_LE(k, n);
+    // The zeros at the end might be left out.
+    evaluations.resize(size_t{1} << n, F::Zero());
 
     // clang-format off
     // P(x₀, x₁) = 1(1 - x₀)(1 - x₁) + 2x₀(1 - x₁) + 3(1 - x₀)x₁ + 4x₀x₁
-- 
2.43.0


From 84b55b4b62161dbbf1923dc41fb7f2441667b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 48/93] fix: evaluate batches of constant polynomials on
 radix-2 domains

---
 .../univariate/radix2_evaluation_domain.h         | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index c4e78c7..18abe38 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -102,6 +102,11 @@ class Radix2EvaluationDomain
     if constexpr (F::Config::kModulusBits > 32) {
       NOTREACHED();
     }
+    if (this->size_ == 1) {
+      // The evaluation of a constant polynomial is its coefficient.
+      CHECK_EQ(mat.rows(), Eigen::Index{1});
+      return;
+    }
     CHECK_GT(cache_->roots_vec.size(), size_t{0});
     CHECK_GT(cache_->packed_roots_vec.size(), size_t{0});
     CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
@@ -134,6 +139,16 @@ class Radix2EvaluationDomain
     if constexpr (F::Config::kModulusBits > 32) {
       NOTREACHED();
     }
+    if (this->size_ == 1) {
+      // Constant polynomials evaluate to the same value everywhere.
+      CHECK_EQ(mat.rows(), Eigen::Index{1});
+      CHECK_EQ(out.rows(), Eigen::Index{1} << added_bits);
+      CHECK_EQ(out.cols(), mat.cols());
+      for (Eigen::Index row = 0; row < out.rows(); ++row) {
+        out.row(row) = mat.row(0);
+      }
+      return;
+    }
     CHECK_GT(cache_->roots_vec.size(), size_t{0});
     CHECK_GT(cache_->packed_roots_vec.size(), size_t{0});
     CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
-- 
2.43.0


From a69e604c870cc2c6c79d7b550ff9a5eb8f8ab09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 49/93] fix: refuse to read prime field elements that are not
 reduced

---
 tachyon/math/finite_fields/prime_field_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 210045d..649f024 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -215,6 +215,8 @@ class Copyable<
   static bool ReadFrom(const ReadOnlyBuffer& buffer, T* prime_field) {
     value_type v;
     if (!buffer.Read(&v)) return false;
+    // The value is not the one of a field element unless it is reduced.
+    if (v >= T::Config::kModulus) return false;
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *prime_field = T::FromMontgomery(v);
-- 
2.43.0


From 726967cb98f9e37181b1f97b9117681977c54fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 50/93] fix: refuse to read points of a proof that are not
 reduced or not on the curve

---
 tachyon/zk/plonk/halo2/proof_serializer.h  | 13 +++++++++++--
 tachyon/zk/plonk/halo2/sha256_transcript.h |  9 ++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/tachyon/zk/plonk/halo2/proof_serializer.h b/tachyon/zk/plonk/halo2/proof_serializer.h
index 6f290b8..2afd84a 100644
--- a/tachyon/zk/plonk/halo2/proof_serializer.h
+++ b/tachyon/zk/plonk/halo2/proof_serializer.h
@@ -59,7 +59,7 @@ class ProofSerializer<math::AffinePoint<Curve>> {
     if (s_use_legacy_serialization) {
       is_odd = bytes[kByteSize - 1] >> 7;
       bytes[kByteSize - 1] &= 0b01111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      if (!ReadX(bytes, &x)) return false;
       if (x.IsZero()) {
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
@@ -68,7 +68,7 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       bool is_inf = bytes[kByteSize - 1] >> 7;
       is_odd = (bytes[kByteSize - 1] >> 6) & 1;
       bytes[kByteSize - 1] &= 0b00111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      if (!ReadX(bytes, &x)) return false;
       if (x.IsZero() && is_inf) {
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
@@ -99,6 +99,15 @@ class ProofSerializer<math::AffinePoint<Curve>> {
                             static_cast<uint8_t>(x[kByteSize - 1] | is_odd));
     }
   }
+
+ private:
+  [[nodiscard]] static bool ReadX(const uint8_t (&bytes)[kByteSize],
+                                  BaseField* x) {
+    BigInt x_bigint = BigInt::FromBytesLE(bytes);
+    if (x_bigint >= BaseField::Config::kModulus) return false;
+    *x = BaseField::FromBigInt(x_bigint);
+    return true;
+  }
 };
 
 // static
diff --git a/tachyon/zk/plonk/halo2/sha256_transcript.h b/tachyon/zk/plonk/halo2/sha256_transcript.h
index 0e4ad45..cc0b340 100644
--- a/tachyon/zk/plonk/halo2/sha256_transcript.h
+++ b/tachyon/zk/plonk/halo2/sha256_transcript.h
@@ -126,8 +126,15 @@ class Sha256Reader : public crypto::TranscriptReader<AffinePoint>,
     math::BigInt<4> x;
     math::BigInt<4> y;
     if (!this->buffer_.ReadMany(&x, &y)) return false;
+    if (x >= BaseField::Config::kModulus || y >= BaseField::Config::kModulus) {
+      return false;
+    }
+    if (x.IsZero() && y.IsZero()) {
+      *point = AffinePoint::Zero();
+      return true;
+    }
     *point = {BaseField(std::move(x)), BaseField(std::move(y))};
-    return true;
+    return point->IsOnCurve();
   }
 
   bool DoReadFromProof(ScalarField* scalar) const override {
-- 
2.43.0


From f3a65e5949e52393cc99362de7c6c6e5b5c4dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 51/93] fix: refuse a ChaCha20RNG state whose index is outside
 of the block

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 044293c..0eb6d80 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -69,6 +69,10 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     uint8_t output[kOutputSize];
     base::EndianAutoReset auto_reset(buffer, base::Endian::kLittle);
     if (!buffer.ReadMany(&index, input, output)) return false;
+    if (index > kMaxIndex) {
+      LOG(ERROR) << "Index must be at most " << kMaxIndex;
+      return false;
+    }
     index_ = index;
     memcpy(input_, input, kInputSize);
     memcpy(output_, output, kOutputSize);
-- 
2.43.0


From 871fce2e1de84ee6c5e079da6f6da3c1e2aeee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 52/93] fix: start the stream of a ChaCha20RNG anew when it is
 seeded again

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 0eb6d80..fa639f3 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -59,6 +59,12 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     for (size_t i = 0; i < 8; ++i) {
       input_[i + 4] = absl::little_endian::Load32(&seed[4 * i]);
     }
+    // counter
+    for (size_t i = 12; i < 16; ++i) {
+      input_[i] = 0;
+    }
+    // What is left of the block belongs to the former stream.
+    index_ = kMaxIndex;
     return true;
   }
 
@@ -96,12 +102,6 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
 
     // seed
     CHECK(SetSeed(absl::Span<const uint8_t>(seed, kSeedSize)));
-
-    // counter
-    input_[12] = 0;
-    input_[13] = 0;
-    input_[14] = 0;
-    input_[15] = 0;
   }
 
   ChaCha20RNG(size_t index, const uint8_t input[kInputSize],
-- 
2.43.0


From d0bd0a10d8e7391379ec12b018b702a90658ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:14 +0000
Subject: [PATCH 53/93] fix: use the joining selector's degree when combining
 selectors

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..8c27b1a 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -218,9 +218,9 @@ class SelectorCompressor {
         if (excluded) continue;
 
         // Can the new selector join the combination? Reminder: we use
-        // |selector.max_degree() - 1| to omit the influence of the virtual
+        // |selectors_[j].max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From 943afd5a7dce8cac8afd181ec6f8a7d7d5e7aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 54/93] fix: chunk lookups only into arguments of their own
 table

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..69cf024 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -307,6 +307,8 @@ class ConstraintSystem {
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
           Expression<F>::CloneExpressions(lookup_tracker.table);
+      // The arguments before this index look up other tables.
+      size_t first_argument_index = lookups_.size();
       lookups_.emplace_back(lookup_tracker.name, std::move(cloned_input),
                             std::move(cloned_table));
 
@@ -316,7 +318,8 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first_argument_index; i < lookups_.size(); ++i) {
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           // Try to fit input into one of the |lookup_arguments|.
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
-- 
2.43.0


From d4cfabffe2c5e290b858ef804cf2470d0ea06440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 55/93] fix: identify scaled expressions by what they scale

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..678c5ea 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,6 +50,7 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
         return;
-- 
2.43.0


From 1b7afba9122fc3e949f4649fad48f7fa82c0d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:19 +0000
Subject: [PATCH 56/93] fix: separate the identifiers of table expressions

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 69cf024..f9d265c 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -794,7 +794,7 @@ class ConstraintSystem {
       std::vector<std::unique_ptr<Expression<F>>>&& table_expressions) {
     std::stringstream table_expressions_ss;
     for (const std::unique_ptr<Expression<F>>& expr : table_expressions) {
-      table_expressions_ss << GetIdentifier(expr.get());
+      table_expressions_ss << GetIdentifier(expr.get()) << ",";
     }
 
     std::string table_expressions_identifier = table_expressions_ss.str();
-- 
2.43.0


From b575a861b792a44543efacae8389400ceda0871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 57/93] fix: skip the zero variable in the rows of R1CS
 matrices

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..be82246 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,8 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      // NOTE: The variable "zero" has no column in the matrices.
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From b93f49a7b06ca2b1e17d72c26c6db87c4d6d7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 58/93] fix: write the bits of a floating point value in the
 selected byte order

---
 tachyon/base/buffer/buffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..2849926 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -1,6 +1,8 @@
 #ifndef TACHYON_BASE_BUFFER_BUFFER_H_
 #define TACHYON_BASE_BUFFER_BUFFER_H_
 
+#include <string.h>
+
 #include "tachyon/base/buffer/read_only_buffer.h"
 
 namespace tachyon::base {
@@ -84,11 +86,13 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
             std::enable_if_t<internal::IsBuiltinSerializable<T>::value && \
                              (sizeof(T) == bytes)>* = nullptr>            \
   [[nodiscard]] bool WriteAt(size_t buffer_offset, T value) {             \
+    type bits_value;                                                      \
+    memcpy(&bits_value, &value, bytes);                                   \
     switch (endian_) {                                                    \
       case Endian::kBig:                                                  \
-        return Write##bits##BEAt(buffer_offset, value);                   \
+        return Write##bits##BEAt(buffer_offset, bits_value);              \
       case Endian::kLittle:                                               \
-        return Write##bits##LEAt(buffer_offset, value);                   \
+        return Write##bits##LEAt(buffer_offset, bits_value);              \
       case Endian::kNative:                                               \
         return WriteAt(buffer_offset,                                     \
                        reinterpret_cast<const uint8_t*>(&value), bytes);  \
-- 
2.43.0


From 9b53a6a5b1ade1b81947d011859ca18eb859fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 59/93] fix: place the values of WriteManyAt and ReadManyAt one
 after another

---
 tachyon/base/buffer/buffer.h           | 2 +-
 tachyon/base/buffer/read_only_buffer.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 2849926..79e803a 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -132,7 +132,7 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteManyAt(size_t buffer_offset, const T& value,
                                  const Args&... args) {
     if (!WriteAt(buffer_offset, value)) return false;
-    return WriteManyAt(buffer_offset, args...);
+    return WriteMany(args...);
   }
 
   [[nodiscard]] virtual bool Grow(size_t size) { return false; }
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..6e4e5ad 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -199,7 +199,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
     return ReadMany(std::forward<Args>(args)...);
   }
 
-  template <typename T, size_t N>
+  template <typename T>
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value) const {
     return ReadAt(buffer_offset, std::forward<T>(value));
   }
@@ -208,7 +208,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value,
                                 Args&&... args) const {
     if (!ReadAt(buffer_offset, std::forward<T>(value))) return false;
-    return ReadManyAt(buffer_offset, std::forward<Args>(args)...);
+    return ReadMany(std::forward<Args>(args)...);
   }
 
  protected:
-- 
2.43.0


From 043e6baec88e40755a7c7398c4193bc1a87e5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 60/93] fix: keep the byte order when a buffer is moved

---
 tachyon/base/buffer/read_only_buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 6e4e5ad..3f25a1e 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -45,10 +45,12 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   ReadOnlyBuffer(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer& operator=(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer(ReadOnlyBuffer&& other)
-      : buffer_(std::exchange(other.buffer_, nullptr)),
+      : endian_(other.endian_),
+        buffer_(std::exchange(other.buffer_, nullptr)),
         buffer_offset_(std::exchange(other.buffer_offset_, 0)),
         buffer_len_(std::exchange(other.buffer_len_, 0)) {}
   ReadOnlyBuffer& operator=(ReadOnlyBuffer&& other) {
+    endian_ = other.endian_;
     buffer_ = std::exchange(other.buffer_, nullptr);
     buffer_offset_ = std::exchange(other.buffer_offset_, 0);
     buffer_len_ = std::exchange(other.buffer_len_, 0);
-- 
2.43.0


From 96b5a4440f32637ab86ca089e156cad83de8f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 61/93] fix: reject a ReadPtrAt whose byte count overflows

---
 tachyon/base/buffer/read_only_buffer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 3f25a1e..a7b86a0 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -139,10 +139,13 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
-    base::CheckedNumeric<size_t> len = buffer_offset;
+    base::CheckedNumeric<size_t> len = ptr_num;
+    size_t size;
+    if (!(len * sizeof(T)).AssignIfValid(&size)) return false;
     size_t size_needed;
-    if (!(len + size).AssignIfValid(&size_needed)) return false;
+    if (!(base::CheckedNumeric<size_t>(buffer_offset) + size)
+             .AssignIfValid(&size_needed))
+      return false;
     if (size_needed > buffer_len_) {
       return false;
     }
-- 
2.43.0


From 3630af7aeb2c9be0dc6edeb93b1e27c941fc953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 62/93] fix: point a moved StringBuffer at its own string

---
 tachyon/base/buffer/string_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/string_buffer.h b/tachyon/base/buffer/string_buffer.h
index e26b543..6faf5b9 100644
--- a/tachyon/base/buffer/string_buffer.h
+++ b/tachyon/base/buffer/string_buffer.h
@@ -15,10 +15,14 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
   StringBuffer& operator=(const StringBuffer& other) = delete;
   StringBuffer(StringBuffer&& other)
       : Buffer(std::move(other)),
-        owned_buffer_(std::move(other.owned_buffer_)) {}
+        owned_buffer_(std::move(other.owned_buffer_)) {
+    // NOTE: A short |owned_buffer_| is stored inside the string itself.
+    buffer_ = owned_buffer_.data();
+  }
   StringBuffer& operator=(StringBuffer&& other) {
     Buffer::operator=(std::move(other));
     owned_buffer_ = std::move(other.owned_buffer_);
+    buffer_ = owned_buffer_.data();
     return *this;
   }
   ~StringBuffer() override = default;
-- 
2.43.0


From da3a5707b6e881c70af08c42dfc39e2d3a22f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 63/93] fix: read strings of wide characters back and reject
 lengths past the end

---
 tachyon/base/buffer/copyable.h         | 22 ++++++++++++++--------
 tachyon/base/buffer/read_only_buffer.h |  5 +++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..b220d75 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_BASE_BUFFER_COPYABLE_H_
 #define TACHYON_BASE_BUFFER_COPYABLE_H_
 
+#include <algorithm>
 #include <array>
 #include <numeric>
 #include <string>
@@ -47,7 +48,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +58,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,19 +68,21 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        std::basic_string<CharTy>* value) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    if (size > buffer.remaining() / sizeof(CharTy)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -147,9 +150,12 @@ class Copyable<std::vector<T>> {
   static bool ReadFrom(const ReadOnlyBuffer& buffer, std::vector<T>* values) {
     size_t size;
     if (!buffer.Read(&size)) return false;
-    values->resize(size);
-    for (T& value : (*values)) {
-      if (!buffer.Read(&value)) return false;
+    // NOTE: |size| is not trusted. It may be larger than what is left to read.
+    values->clear();
+    values->reserve(std::min(size, buffer.remaining() / sizeof(T)));
+    for (size_t i = 0; i < size; ++i) {
+      values->emplace_back();
+      if (!buffer.Read(&values->back())) return false;
     }
     return true;
   }
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index a7b86a0..bb05c7c 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -74,6 +74,11 @@ class TACHYON_EXPORT ReadOnlyBuffer {
 
   size_t buffer_len() const { return buffer_len_; }
 
+  // Returns the number of bytes from |buffer_offset_| to the end.
+  size_t remaining() const {
+    return buffer_offset_ < buffer_len_ ? buffer_len_ - buffer_offset_ : 0;
+  }
+
   [[nodiscard]] bool Done() const { return buffer_offset_ == buffer_len_; }
 
   // Returns false when either
-- 
2.43.0


From 1263e0354182bc35de48de58b6420b72a68dbae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 64/93] fix: reject serialized matrix dimensions that cannot
 fit the buffer

---
 tachyon/math/matrix/matrix_types.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tachyon/math/matrix/matrix_types.h b/tachyon/math/matrix/matrix_types.h
index 20f468a..0e347f0 100644
--- a/tachyon/math/matrix/matrix_types.h
+++ b/tachyon/math/matrix/matrix_types.h
@@ -71,6 +71,11 @@ class Copyable<Eigen::Matrix<Field, Rows, Cols, Options, MaxRows, MaxCols>> {
     Eigen::Index rows, cols;
     Matrix matrix_tmp;
     if (!buffer.ReadMany(&rows, &cols)) return false;
+    if (rows < 0 || cols < 0) return false;
+    // Every element takes at least a byte.
+    if (rows > 0 &&
+        static_cast<size_t>(cols) > buffer.remaining() / rows)
+      return false;
     if (Rows != Eigen::Dynamic && Cols != Eigen::Dynamic) {
       if (rows != Rows || cols != Cols) return false;
     } else if (Rows != Eigen::Dynamic) {
@@ -132,6 +137,9 @@ class Copyable<Eigen::DiagonalMatrix<Field, Size, MaxSize>> {
     Eigen::Index size;
     DiagonalVector vector_tmp;
     if (!buffer.ReadMany(&size)) return false;
+    // Every element takes at least a byte.
+    if (size < 0 || static_cast<size_t>(size) > buffer.remaining())
+      return false;
     if (Size != Eigen::Dynamic) {
       if (size != Size) return false;
     } else {
-- 
2.43.0


From 6474f15df042c1a1ce81fef56a6cd811a074395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 65/93] fix: keep the NULs in JSON strings and write string
 views by length

---
 tachyon/base/json/rapidjson_util.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 17d3384..c54b173 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -194,7 +194,7 @@ class RapidJsonValueConverter<std::string> {
       *error = RapidJsonMismatchedTypeError(key, "string", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = {json_value.GetString(), json_value.GetStringLength()};
     return true;
   }
 };
@@ -213,7 +213,7 @@ class RapidJsonValueConverter<std::string_view> {
       *error = RapidJsonMismatchedTypeError(key, "string_view", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = {json_value.GetString(), json_value.GetStringLength()};
     return true;
   }
 };
@@ -430,7 +430,7 @@ Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
 operator<<(Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
                writer,
            std::string_view value) {
-  writer.String(value.data());
+  writer.String(value.data(), value.length());
   return writer;
 }
 
-- 
2.43.0


From 881420662ac25ede23e8c9c3c059f0734501aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 66/93] fix: reject JSON values that are not objects instead of
 reading their members

---
 tachyon/base/json/json.h           | 2 +-
 tachyon/base/json/rapidjson_util.h | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 82a3388..330372c 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -25,7 +25,7 @@ bool ParseJson(std::string_view content, T* value, std::string* error) {
                          document.GetErrorOffset());
     return false;
   }
-  return RapidJsonValueConverter<T>::To(document.GetObject(), "", value, error);
+  return RapidJsonValueConverter<T>::To(document, "", value, error);
 }
 
 // Load from file and parse json string and populate |value| on success.
diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index c54b173..4146f8a 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -344,7 +344,12 @@ void AddJsonElement(rapidjson::Value& json_value, std::string_view key,
 template <typename T>
 bool ParseJsonElement(const rapidjson::Value& json_value, std::string_view key,
                       T* value, std::string* error) {
-  auto it = json_value.FindMember(key.data());
+  if (!json_value.IsObject()) {
+    *error = RapidJsonMismatchedTypeError(key, "object", json_value);
+    return false;
+  }
+  auto it = json_value.FindMember(
+      rapidjson::Value(rapidjson::StringRef(key.data(), key.length())));
   if (it == json_value.MemberEnd()) {
     *error = absl::Substitute("\"$0\" key is not found", key);
     return false;
-- 
2.43.0


From aa3c4ad138687d1b79ceeeb864627a3bdb3421be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 67/93] fix: reject JSON field elements that are not reduced
 and say why a big integer was rejected

---
 tachyon/math/base/big_int.h                   | 6 +++++-
 tachyon/math/finite_fields/prime_field_base.h | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 99c2cb8..efb8450 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1213,7 +1213,11 @@ class RapidJsonValueConverter<math::BigInt<N>> {
       return false;
     std::optional<math::BigInt<N>> tmp =
         math::BigInt<N>::FromHexString(value_str);
-    if (!tmp.has_value()) return false;
+    if (!tmp.has_value()) {
+      *error = absl::Substitute(
+          "\"$0\" is not a hexadecimal number that fits in $1 limbs", key, N);
+      return false;
+    }
     *value = std::move(tmp).value();
     return true;
   }
diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 649f024..2a080eb 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -278,6 +278,11 @@ class RapidJsonValueConverter<
     if (!RapidJsonValueConverter<value_type>::To(json_value, key, &v, error))
       return false;
 
+    if (v >= value_type(T::Config::kModulus)) {
+      *error = absl::Substitute("\"$0\" is not less than the modulus", key);
+      return false;
+    }
+
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *value = T::FromMontgomery(v);
-- 
2.43.0


From 51757d94283cef90e69ec2f14a7e641ad6e10797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 68/93] fix: do not read past the end of the command line when
 a value is missing

---
 tachyon/base/flag/flag_parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 19c76f2..c80890d 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -120,6 +120,7 @@ bool FlagParserBase::Context::ConsumeEqualOrProceed(std::string_view* arg) {
   if (ConsumePrefix(arg, "=")) return true;
   if (!arg->empty()) return false;
   Proceed();
+  if (!HasArg()) return false;
   *arg = current();
   return true;
 }
-- 
2.43.0


From ec0a21d7d79b7dd841822c0686f4f1ff28acd855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 69/93] fix: check required flags before -- and report errors
 of known flags

---
 tachyon/base/flag/flag_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index c80890d..f322b01 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -249,7 +249,7 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
           ctx.forward_argv->emplace_back(ctx.argv[i]);
         }
       }
-      return true;
+      break;
     }
 
     if (arg == "--help" || arg == "-h") {
@@ -470,7 +470,7 @@ bool FlagParser::ParseKnownWithForward(int* argc, char** argv,
   Context ctx(this, 1, *argc, argv);
   ctx.unknown_argc = argc;
   ctx.forward_argv = forward;
-  if (!FlagParserBase::Parse(ctx, error) && Validate(error)) return false;
+  if (!(FlagParserBase::Parse(ctx, error) && Validate(error))) return false;
   ctx.FillUnknownArgs();
   return true;
 }
-- 
2.43.0


From f5b5430b157b2728445d28a9258dbdb230310970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 70/93] fix: do not match a short name after the long name of
 the same flag

---
 tachyon/base/flag/flag.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/flag/flag.cc b/tachyon/base/flag/flag.cc
index 7dc7b09..bc39d51 100644
--- a/tachyon/base/flag/flag.cc
+++ b/tachyon/base/flag/flag.cc
@@ -79,6 +79,7 @@ bool FlagBase::ConsumeNamePrefix(FlagParserBase& parser,
     }
   }
   if (!short_name_.empty()) {
+    input = *arg;
     if (ConsumePrefix(&input, short_name_)) {
       if (input.empty() || input[0] == '=') {
         *arg = input;
-- 
2.43.0


From 200c15d90a7ee9eb5d3b776017db3fd3a1140102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:29 +0000
Subject: [PATCH 71/93] fix: do not count 0x as digits when adding leading
 zeros

---
 tachyon/base/strings/string_util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/strings/string_util.cc b/tachyon/base/strings/string_util.cc
index 3f8ed64..e9c10d4 100644
--- a/tachyon/base/strings/string_util.cc
+++ b/tachyon/base/strings/string_util.cc
@@ -140,9 +140,10 @@ std::string MaybePrepend0x(std::string&& str) {
 }
 
 std::string ToHexStringWithLeadingZero(const std::string& str, size_t num) {
-  CHECK_GE(num, str.size());
   std::string_view sv = str;
-  if (ConsumePrefix0x(&sv)) {
+  bool has_prefix = ConsumePrefix0x(&sv);
+  CHECK_GE(num, sv.size());
+  if (has_prefix) {
     return absl::StrCat(k0x, std::string(num - sv.size(), '0'), sv);
   } else {
     return absl::StrCat(std::string(num - sv.size(), '0'), sv);
-- 
2.43.0


From cdaa0796a3d13bf13471b06266965679176d57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:32 +0000
Subject: [PATCH 72/93] fix: reject JSON numbers that are too large for a
 double

---
 tachyon/base/json/rapidjson_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 4146f8a..a174df5 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -2,6 +2,7 @@
 #define TACHYON_BASE_JSON_RAPIDJSON_UTIL_H_
 
 #include <array>
+#include <cmath>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -171,7 +172,8 @@ class RapidJsonValueConverter<
       return false;
     }
     double value_tmp = json_value.GetDouble();
-    if (!IsValueInRangeForNumericType<T>(value_tmp)) {
+    if (!std::isfinite(value_tmp) ||
+        !IsValueInRangeForNumericType<T>(value_tmp)) {
       *error = RapidJsonOutOfRangeError(key, value_tmp);
       return false;
     }
-- 
2.43.0


From ed5a8c3a416531ae3c636c99063a83848f9a2314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:32 +0000
Subject: [PATCH 73/93] fix: reject JSON polynomials whose degree exceeds the
 maximum

---
 .../polynomials/univariate/univariate_dense_coefficients.h  | 4 ++++
 .../math/polynomials/univariate/univariate_evaluations.h    | 4 ++++
 .../polynomials/univariate/univariate_sparse_coefficients.h | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0c79a9a..2339a1f 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -348,6 +348,10 @@ class RapidJsonValueConverter<math::UnivariateDenseCoefficients<F, MaxDegree>> {
     std::vector<F> coeffs;
     if (!ParseJsonElement(json_value, "coefficients", &coeffs, error))
       return false;
+    if (!coeffs.empty() && coeffs.size() - 1 > MaxDegree) {
+      *error = RapidJsonOutOfRangeError("degree", coeffs.size() - 1);
+      return false;
+    }
     *value = math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(coeffs));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluations.h b/tachyon/math/polynomials/univariate/univariate_evaluations.h
index 6955448..7ae8e07 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluations.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluations.h
@@ -327,6 +327,10 @@ class RapidJsonValueConverter<math::UnivariateEvaluations<F, MaxDegree>> {
     std::vector<F> evals;
     if (!ParseJsonElement(json_value, "evaluations", &evals, error))
       return false;
+    if (!evals.empty() && evals.size() - 1 > MaxDegree) {
+      *error = RapidJsonOutOfRangeError("degree", evals.size() - 1);
+      return false;
+    }
     *value = math::UnivariateEvaluations<F, MaxDegree>(std::move(evals));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 364c6d7..c42e933 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -409,6 +409,12 @@ class RapidJsonValueConverter<
                  std::string* error) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!ParseJsonElement(json_value, "terms", &terms, error)) return false;
+    for (const math::UnivariateTerm<F>& term : terms) {
+      if (term.degree > MaxDegree) {
+        *error = RapidJsonOutOfRangeError("degree", term.degree);
+        return false;
+      }
+    }
     *value = math::UnivariateSparseCoefficients<F, MaxDegree>(std::move(terms));
     return true;
   }
-- 
2.43.0


From 68badabd24ace0dcb10ad2b94cb78f56b1f5504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:16 +0000
Subject: [PATCH 74/93] fix: copy the chunk size of a chunked adapter

---
 tachyon/base/containers/adapters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/containers/adapters.h b/tachyon/base/containers/adapters.h
index 1c94d89..77afb31 100644
--- a/tachyon/base/containers/adapters.h
+++ b/tachyon/base/containers/adapters.h
@@ -43,7 +43,8 @@ template <typename T>
 class ChunkedAdapter {
  public:
   ChunkedAdapter(T& t, size_t chunk_size) : t_(t), chunk_size_(chunk_size) {}
-  ChunkedAdapter(const ChunkedAdapter& ca) : t_(ca.t_) {}
+  ChunkedAdapter(const ChunkedAdapter& ca)
+      : t_(ca.t_), chunk_size_(ca.chunk_size_) {}
 
   ChunkedAdapter& operator=(const ChunkedAdapter& ca) = delete;
 
-- 
2.43.0


From 3d14b1bcda5bbe8efe59e04810b6c4c2815c257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:16 +0000
Subject: [PATCH 75/93] fix: do not fill past a container that
 ParallelizeResize shrinks

---
 tachyon/base/parallelize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/parallelize.h b/tachyon/base/parallelize.h
index 281898d..2be208d 100644
--- a/tachyon/base/parallelize.h
+++ b/tachyon/base/parallelize.h
@@ -311,6 +311,7 @@ void ParallelizeResize(Container& container, size_t size,
   if (container.capacity() > size) {
     size_t old_size = container.size();
     container.resize(size);
+    if (size <= old_size) return;
     auto init_span = absl::MakeSpan(container).last(size - old_size);
     Parallelize(
         init_span,
-- 
2.43.0


From 0835d46c456322b4145d48d86371ba5fee68f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 76/93] fix: size and iteration of empty and very large ranges

---
 tachyon/base/range.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 039d6bd..2a11c16 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -143,6 +143,7 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
   }
 
   Iterator end() const {
+    if (IsEmpty()) return begin();
     if constexpr (IsEndInclusive) {
       return Iterator(to + 1);
     } else {
@@ -158,14 +159,14 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
   template <typename U = T, std::enable_if_t<std::is_integral_v<U>>* = nullptr>
   constexpr size_t GetSize() const {
     if (IsEmpty()) return 0;
+    // NOTE: |to - from| may not fit in a signed |T|.
+    size_t size = static_cast<size_t>(to) - static_cast<size_t>(from);
     if constexpr (IsStartInclusive && IsEndInclusive) {
-      return to - from + 1;
-    } else if constexpr (IsStartInclusive && !IsEndInclusive) {
-      return to - from;
-    } else if constexpr (!IsStartInclusive && IsEndInclusive) {
-      return to - from;
+      return size + 1;
+    } else if constexpr (IsStartInclusive != IsEndInclusive) {
+      return size;
     } else {
-      return to - from - 1;
+      return size - 1;
     }
   }
 
-- 
2.43.0


From e2baa4362fc34f656400c6b47f8c24921447319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 77/93] fix: let a copied field Merkle tree refer to the leaves
 it owns

---
 .../field_merkle_tree/field_merkle_tree.h     | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h
index 7014d65..8b0c2f5 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h
@@ -48,6 +48,18 @@ class FieldMerkleTree {
   using PackedDigest = std::array<PackedPrimeField, N>;
 
   FieldMerkleTree() = default;
+  // NOTE: |leaves_| refer to |owned_leaves_| if there are any, therefore a copy
+  // has to refer to the ones it owns.
+  FieldMerkleTree(const FieldMerkleTree& other)
+      : owned_leaves_(other.owned_leaves_),
+        leaves_(owned_leaves_.empty() ? other.leaves_
+                                      : MapLeaves(owned_leaves_)),
+        digest_layers_(other.digest_layers_) {}
+  FieldMerkleTree& operator=(const FieldMerkleTree& other) {
+    return *this = FieldMerkleTree(other);
+  }
+  FieldMerkleTree(FieldMerkleTree&& other) = default;
+  FieldMerkleTree& operator=(FieldMerkleTree&& other) = default;
 
   template <typename Hasher, typename PackedHasher, typename Compressor,
             typename PackedCompressor>
@@ -190,6 +202,13 @@ class FieldMerkleTree {
       std::vector<std::vector<Digest>>&& digest_layers)
       : leaves_(std::move(leaves)), digest_layers_(std::move(digest_layers)) {}
 
+  static std::vector<Eigen::Map<const math::RowMajorMatrix<F>>> MapLeaves(
+      const std::vector<math::RowMajorMatrix<F>>& leaves) {
+    return base::Map(leaves, [](const math::RowMajorMatrix<F>& leaf) {
+      return math::Map(leaf);
+    });
+  }
+
   template <typename Hasher, typename PackedHasher, typename Compressor,
             typename PackedCompressor>
   static FieldMerkleTree DoBuildCpu(
-- 
2.43.0


From 421fc075d29c5e2bcb2794cb16c5c69b57a0976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:00 +0000
Subject: [PATCH 78/93] fix: declare the stream operator of G1Point3

---
 tachyon/cc/math/elliptic_curves/generator/g1.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl b/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl
index 758340f..4d4c078 100644
--- a/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl
+++ b/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl
@@ -465,7 +465,7 @@ class TACHYON_CC_EXPORT G1Point3 {
   Fq z_;
 };
 
-TACHYON_CC_EXPORT std::ostream& operator<<(std::ostream& os, const G1Point2& value);
+TACHYON_CC_EXPORT std::ostream& operator<<(std::ostream& os, const G1Point3& value);
 
 class TACHYON_CC_EXPORT G1Point4 {
  public:
-- 
2.43.0


From b195ff2205ebead5cc0a97a6a7eb472b7b6d11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:27 +0000
Subject: [PATCH 79/93] fix: keep the compiler from reordering accesses across
 C and native types

---
 tachyon/c/base/type_traits_forward.h | 37 ++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/tachyon/c/base/type_traits_forward.h b/tachyon/c/base/type_traits_forward.h
index d1b14d0..8ecc0cd 100644
--- a/tachyon/c/base/type_traits_forward.h
+++ b/tachyon/c/base/type_traits_forward.h
@@ -6,64 +6,81 @@ namespace tachyon::c::base {
 template <typename T>
 struct TypeTraits;
 
+namespace internal {
+
+// The C types and the native types share the memory but are unrelated types:
+// without a barrier, the compiler may assume that what is read as the one is
+// not what was written as the other.
+template <typename T>
+T* HideType(T* ptr) {
+#if defined(__GNUC__) || defined(__clang__)
+  asm volatile("" : "+r"(ptr) : : "memory");
+#endif
+  return ptr;
+}
+
+}  // namespace internal
+
 template <typename CType,
           typename NativeType = typename TypeTraits<CType>::NativeType>
 const NativeType& native_cast(const CType& c_type) {
-  return reinterpret_cast<const NativeType&>(c_type);
+  return *reinterpret_cast<const NativeType*>(internal::HideType(&c_type));
 }
 
 template <typename CType,
           typename NativeType = typename TypeTraits<CType>::NativeType>
 NativeType& native_cast(CType& c_type) {
-  return reinterpret_cast<NativeType&>(c_type);
+  return *reinterpret_cast<NativeType*>(internal::HideType(&c_type));
 }
 
 template <typename CType,
           typename NativeType = typename TypeTraits<CType>::NativeType>
 NativeType&& native_cast(CType&& c_type) {
-  return reinterpret_cast<NativeType&&>(c_type);
+  return static_cast<NativeType&&>(
+      *reinterpret_cast<NativeType*>(internal::HideType(&c_type)));
 }
 
 template <typename CType,
           typename NativeType = typename TypeTraits<CType>::NativeType>
 const NativeType* native_cast(const CType* c_type) {
-  return reinterpret_cast<const NativeType*>(c_type);
+  return reinterpret_cast<const NativeType*>(internal::HideType(c_type));
 }
 
 template <typename CType,
           typename NativeType = typename TypeTraits<CType>::NativeType>
 NativeType* native_cast(CType* c_type) {
-  return reinterpret_cast<NativeType*>(c_type);
+  return reinterpret_cast<NativeType*>(internal::HideType(c_type));
 }
 
 template <typename NativeType,
           typename CType = typename TypeTraits<NativeType>::CType>
 const CType& c_cast(const NativeType& native_type) {
-  return reinterpret_cast<const CType&>(native_type);
+  return *reinterpret_cast<const CType*>(internal::HideType(&native_type));
 }
 
 template <typename NativeType,
           typename CType = typename TypeTraits<NativeType>::CType>
 CType& c_cast(NativeType& native_type) {
-  return reinterpret_cast<CType&>(native_type);
+  return *reinterpret_cast<CType*>(internal::HideType(&native_type));
 }
 
 template <typename NativeType,
           typename CType = typename TypeTraits<NativeType>::CType>
 CType&& c_cast(NativeType&& native_type) {
-  return reinterpret_cast<CType&&>(native_type);
+  return static_cast<CType&&>(
+      *reinterpret_cast<CType*>(internal::HideType(&native_type)));
 }
 
 template <typename NativeType,
           typename CType = typename TypeTraits<NativeType>::CType>
 const CType* c_cast(const NativeType* native_type) {
-  return reinterpret_cast<const CType*>(native_type);
+  return reinterpret_cast<const CType*>(internal::HideType(native_type));
 }
 
 template <typename NativeType,
           typename CType = typename TypeTraits<NativeType>::CType>
 CType* c_cast(NativeType* native_type) {
-  return reinterpret_cast<CType*>(native_type);
+  return reinterpret_cast<CType*>(internal::HideType(native_type));
 }
 
 }  // namespace tachyon::c::base
-- 
2.43.0


From a6db9cd18a13407953990998953b05b1df1e2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:53 +0000
Subject: [PATCH 80/93] fix: saturate a clamped sum of mixed signs at the lower
 bound

---
 tachyon/base/numerics/clamped_math_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/numerics/clamped_math_impl.h b/tachyon/base/numerics/clamped_math_impl.h
index 31292f5..3f37b49 100644
--- a/tachyon/base/numerics/clamped_math_impl.h
+++ b/tachyon/base/numerics/clamped_math_impl.h
@@ -87,7 +87,9 @@ struct ClampedAddOp<T,
                       IsTypeInRangeForNumericType<U, V>::value,
                   "The saturation result cannot be determined from the "
                   "provided types.");
-    const V saturated = CommonMaxOrMin<V>(IsValueNegative(y));
+    // With operands of different signs only a negative sum can be out of range.
+    const V saturated =
+        CommonMaxOrMin<V>(IsValueNegative(x) || IsValueNegative(y));
     V result = {};
     return BASE_NUMERICS_LIKELY((CheckedAddOp<T, U>::Do(x, y, &result)))
                ? result
-- 
2.43.0


From 591ff1dc111140e494ec6b10964d60602c3ea0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:53 +0000
Subject: [PATCH 81/93] fix: refuse a checked remainder of operands without a
 common type

---
 tachyon/base/numerics/checked_math_impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/base/numerics/checked_math_impl.h b/tachyon/base/numerics/checked_math_impl.h
index 4f14430..43b2c4d 100644
--- a/tachyon/base/numerics/checked_math_impl.h
+++ b/tachyon/base/numerics/checked_math_impl.h
@@ -281,6 +281,13 @@ struct CheckedModOp<T,
       return true;
     }
 
+    // Refuse the operands that can't be represented in the common type.
+    if (BASE_NUMERICS_UNLIKELY((!IsValueInRangeForNumericType<Promotion>(x) ||
+                                !IsValueInRangeForNumericType<Promotion>(y)) &&
+                               x)) {
+      return false;
+    }
+
     const Promotion presult =
         static_cast<Promotion>(x) % static_cast<Promotion>(y);
     if (!IsValueInRangeForNumericType<V>(presult))
-- 
2.43.0


From ce8d2709687f998ad477fe0437ecc9c80703163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:53 +0000
Subject: [PATCH 82/93] fix: round large and nearly half values correctly in
 ClampRound

---
 tachyon/base/numerics/safe_conversions.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/base/numerics/safe_conversions.h b/tachyon/base/numerics/safe_conversions.h
index 1b4aa1b..0732ff4 100644
--- a/tachyon/base/numerics/safe_conversions.h
+++ b/tachyon/base/numerics/safe_conversions.h
@@ -378,9 +378,7 @@ template <typename Dst = int,
           typename = std::enable_if_t<std::is_integral<Dst>::value &&
                                       std::is_floating_point<Src>::value>>
 Dst ClampRound(Src value) {
-  const Src rounded =
-      (value >= 0.0f) ? std::floor(value + 0.5f) : std::ceil(value - 0.5f);
-  return saturated_cast<Dst>(rounded);
+  return saturated_cast<Dst>(std::round(value));
 }
 
 }  // namespace tachyon::base
-- 
2.43.0


From 2e3754125c0e72c70c074cfed6b98700fb073e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:53 +0000
Subject: [PATCH 83/93] fix: keep every microsecond when converting from
 std::chrono

---
 tachyon/base/time/time.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tachyon/base/time/time.h b/tachyon/base/time/time.h
index 72e690e..4e6fd46 100644
--- a/tachyon/base/time/time.h
+++ b/tachyon/base/time/time.h
@@ -674,6 +674,14 @@ namespace time_internal {
 template <std::intmax_t N>
 constexpr TimeDelta FromInt64(int64_t v, std::ratio<1, N>) {
   static_assert(0 < N && N <= 1000 * 1000 * 1000, "Unsupported ratio");
+  // A double can't hold every tick count, so stay with the integers if the
+  // period is a whole multiple or fraction of a microsecond.
+  if constexpr (Time::kMicrosecondsPerSecond % N == 0) {
+    return TimeDelta::FromInternalValue(
+        int64_t{ClampMul(v, Time::kMicrosecondsPerSecond / N)});
+  } else if constexpr (N % Time::kMicrosecondsPerSecond == 0) {
+    return TimeDelta::FromInternalValue(v / (N / Time::kMicrosecondsPerSecond));
+  }
   return TimeDelta::FromInternalValue(saturated_cast<int64_t>(
       static_cast<double>(v) / N * Time::kMicrosecondsPerSecond));
 }
-- 
2.43.0


From 1311d4330d24b95d2cfc671e814fbe8b80efde76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:53 +0000
Subject: [PATCH 84/93] fix: scale negative durations by 64-bit unsigned
 factors

---
 tachyon/base/time/time.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/time/time.h b/tachyon/base/time/time.h
index 4e6fd46..8f6dea9 100644
--- a/tachyon/base/time/time.h
+++ b/tachyon/base/time/time.h
@@ -253,11 +253,11 @@ class TACHYON_EXPORT TimeDelta {
   // Computations with numeric types.
   template <typename T>
   constexpr TimeDelta operator*(T a) const {
-    return TimeDelta(int64_t{delta_ * a});
+    return TimeDelta(int64_t{delta_ * ToFactor(a)});
   }
   template <typename T>
   constexpr TimeDelta operator/(T a) const {
-    return TimeDelta(int64_t{delta_ / a});
+    return TimeDelta(int64_t{delta_ / ToFactor(a)});
   }
   template <typename T>
   constexpr TimeDelta& operator*=(T a) {
@@ -337,6 +337,18 @@ class TACHYON_EXPORT TimeDelta {
   constexpr explicit TimeDelta(ClampedNumeric<int64_t> delta_us)
       : delta_(delta_us) {}
 
+  // A clamped operation of int64_t and uint64_t is unsigned and would turn any
+  // negative delta into 0.
+  template <typename T>
+  static constexpr auto ToFactor(T a) {
+    if constexpr (std::is_integral_v<T> && std::is_unsigned_v<T> &&
+                  sizeof(T) == sizeof(int64_t)) {
+      return saturated_cast<int64_t>(a);
+    } else {
+      return a;
+    }
+  }
+
   // Returns a double representation of this TimeDelta's tick count.  In
   // particular, Max()/Min() are converted to +/-infinity.
   constexpr double ToDouble() const {
-- 
2.43.0


From f5e698be4ab9fa8b37e6af5f706044847113edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 85/93] fix: keep an empty path empty when stripping trailing
 separators

---
 tachyon/base/files/file_path.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index a056934..9dbb10b 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -295,6 +295,8 @@ FilePath FilePath::StripTrailingSeparators() const {
 }
 
 void FilePath::StripTrailingSeparatorsInternal() {
+  if (path_.empty()) return;
+
   size_t pos = path_.find_last_not_of(kSeparators);
   if (pos == std::string::npos) {
     path_.resize(1);
-- 
2.43.0


From 1c3bc4de6857592fe9106cec6c2998d5db080d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 86/93] fix: look for the parent directory among the components
 of a path

---
 tachyon/base/files/file_path.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index 9dbb10b..32bbfaf 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -306,7 +306,12 @@ void FilePath::StripTrailingSeparatorsInternal() {
 }
 
 bool FilePath::ReferencesParent() const {
-  return path_.find(kParentDirectory) != std::string::npos;
+  if (path_.find(kParentDirectory) == std::string::npos) return false;
+
+  for (const std::string& component : GetComponents()) {
+    if (component == kParentDirectory) return true;
+  }
+  return false;
 }
 
 std::ostream& operator<<(std::ostream& out, const FilePath& file_path) {
-- 
2.43.0


From 322e49a0d2ed38e83f6d691c10085edfe6e0a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 87/93] fix: keep double extensions when inserting before the
 extension

---
 tachyon/base/files/file_path.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index 32bbfaf..e5fe20c 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -233,8 +233,11 @@ FilePath FilePath::InsertBeforeExtension(std::string_view suffix) const {
   if (IsEmptyOrSpecialCase(BaseName().value()))
     return FilePath();
 
+  // NOTE: |Extension()| is only the last part of a double extension like
+  // ".tar.gz", which |RemoveExtension()| removes as a whole.
+  const FilePath stem = RemoveExtension();
   return FilePath(
-      absl::StrCat(RemoveExtension().value(), suffix, Extension()));
+      absl::StrCat(stem.value(), suffix, path_.substr(stem.value().size())));
 }
 
 FilePath FilePath::Append(std::string_view component) const {
-- 
2.43.0


From 4e66052029ff698101928cdd394b092fb0a3d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 88/93] fix: do not take . and .. for names with an extension

---
 tachyon/base/files/file_path.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index e5fe20c..d3dbfe7 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -188,6 +188,7 @@ FilePath FilePath::BaseName() const {
 
 std::string FilePath::Extension() const {
   FilePath base(BaseName());
+  if (IsEmptyOrSpecialCase(base.value())) return EmptyString();
   std::string_view p = base.value();
   size_t last_separator =
       p.find_last_of(kExtensionSeparator, std::string::npos);
-- 
2.43.0


From 01b6c4a3292bfaf8e01796eef0bc9649c5b8984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 89/93] fix: create and copy directories whose path is a bare
 name

---
 tachyon/base/files/file_util_posix.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 4e1be38..d7aaa4f 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -150,7 +150,9 @@ bool DoCopyDirectory(const FilePath& from_path,
   if (PathExists(real_to_path))
     real_to_path = MakeAbsoluteFilePath(real_to_path);
   else
-    real_to_path = MakeAbsoluteFilePath(real_to_path.DirName());
+    real_to_path = MakeAbsoluteFilePath(
+        real_to_path.DirName().empty() ? FilePath(FilePath::kCurrentDirectory)
+                                       : real_to_path.DirName());
   if (real_to_path.empty())
     return false;
 
@@ -780,7 +782,8 @@ bool CreateDirectoryAndGetError(const FilePath& full_path,
   FilePath last_path = full_path;
   subpaths.push_back(full_path);
   for (FilePath path = full_path.DirName();
-       path.value() != last_path.value(); path = path.DirName()) {
+       !path.empty() && path.value() != last_path.value();
+       path = path.DirName()) {
     subpaths.push_back(path);
     last_path = path;
   }
-- 
2.43.0


From 7d3377a156a5f1f77a5a267f027b9b81bc205353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 90/93] fix: show what was read after a BinFile had been mapped

---
 tachyon/base/files/bin_file.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/files/bin_file.cc b/tachyon/base/files/bin_file.cc
index 7e116a6..91e0aad 100644
--- a/tachyon/base/files/bin_file.cc
+++ b/tachyon/base/files/bin_file.cc
@@ -25,6 +25,7 @@ bool BinFile::Load(const base::FilePath& path, bool use_mmap) {
       return false;
     }
     vec_ = std::move(vec).value();
+    map_.reset();
     return true;
   }
 }
-- 
2.43.0


From 784027dbc71c8144973f4e69578cc04f90495c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 91/93] fix: refuse circom files that cannot be read instead of
 aborting

ParseR1CS, ParseWtns and ParseZKey promise nullptr for what they fail to
parse. The message about the magic also read past its four bytes.
---
 vendors/circom/circomlib/r1cs/r1cs.h |  5 +++--
 vendors/circom/circomlib/wtns/wtns.h | 10 +++++++---
 vendors/circom/circomlib/zkey/zkey.h | 10 +++++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/vendors/circom/circomlib/r1cs/r1cs.h b/vendors/circom/circomlib/r1cs/r1cs.h
index bac3387..9bcda3f 100644
--- a/vendors/circom/circomlib/r1cs/r1cs.h
+++ b/vendors/circom/circomlib/r1cs/r1cs.h
@@ -8,6 +8,7 @@
 #include <memory>
 #include <optional>
 #include <string>
+#include <string_view>
 #include <utility>
 #include <vector>
 
@@ -61,13 +62,13 @@ std::unique_ptr<R1CS<F>> ParseR1CS(const base::FilePath& path) {
   uint32_t version;
   if (!buffer.ReadMany(magic, &version)) return nullptr;
   if (memcmp(magic, kR1CSMagic, 4) != 0) {
-    LOG(ERROR) << "Invalid magic: " << magic;
+    LOG(ERROR) << "Invalid magic: " << std::string_view(magic, 4);
     return nullptr;
   }
   std::unique_ptr<R1CS<F>> r1cs;
   if (version == 1) {
     r1cs.reset(new v1::R1CS<F>());
-    CHECK(r1cs->ToV1()->Read(buffer));
+    if (!r1cs->ToV1()->Read(buffer)) return nullptr;
   } else {
     LOG(ERROR) << "Invalid version: " << version;
     return nullptr;
diff --git a/vendors/circom/circomlib/wtns/wtns.h b/vendors/circom/circomlib/wtns/wtns.h
index 64a6b0b..f2c9788 100644
--- a/vendors/circom/circomlib/wtns/wtns.h
+++ b/vendors/circom/circomlib/wtns/wtns.h
@@ -8,6 +8,7 @@
 
 #include <memory>
 #include <string>
+#include <string_view>
 #include <utility>
 
 #include "circomlib/base/modulus.h"
@@ -52,7 +53,10 @@ template <typename F>
 std::unique_ptr<Wtns<F>> ParseWtns(const base::FilePath& path,
                                    bool use_mmap = true) {
   base::BinFile bin_file;
-  CHECK(bin_file.Load(path, use_mmap));
+  if (!bin_file.Load(path, use_mmap)) {
+    LOG(ERROR) << "Failed to read file: " << path.value();
+    return nullptr;
+  }
   if (use_mmap) {
     PCHECK(madvise(bin_file.GetData(), bin_file.GetDataLength(),
                    MADV_SEQUENTIAL) == 0);
@@ -64,13 +68,13 @@ std::unique_ptr<Wtns<F>> ParseWtns(const base::FilePath& path,
   uint32_t version;
   if (!buffer.ReadMany(magic, &version)) return nullptr;
   if (memcmp(magic, kWtnsMagic, 4) != 0) {
-    LOG(ERROR) << "Invalid magic: " << magic;
+    LOG(ERROR) << "Invalid magic: " << std::string_view(magic, 4);
     return nullptr;
   }
   std::unique_ptr<Wtns<F>> wtns;
   if (version == 2) {
     wtns.reset(new v2::Wtns<F>(std::move(bin_file)));
-    CHECK(wtns->ToV2()->Read(buffer));
+    if (!wtns->ToV2()->Read(buffer)) return nullptr;
   } else {
     LOG(ERROR) << "Invalid version: " << version;
     return nullptr;
diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index fb9b10c..84c3928 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <memory>
 #include <string>
+#include <string_view>
 #include <utility>
 
 #include "circomlib/base/modulus.h"
@@ -58,7 +59,10 @@ template <typename Curve>
 std::unique_ptr<ZKey<Curve>> ParseZKey(const base::FilePath& path,
                                        bool use_mmap = true) {
   base::BinFile bin_file;
-  CHECK(bin_file.Load(path, use_mmap));
+  if (!bin_file.Load(path, use_mmap)) {
+    LOG(ERROR) << "Failed to read file: " << path.value();
+    return nullptr;
+  }
   if (use_mmap) {
     PCHECK(madvise(bin_file.GetData(), bin_file.GetDataLength(),
                    MADV_SEQUENTIAL) == 0);
@@ -70,13 +74,13 @@ std::unique_ptr<ZKey<Curve>> ParseZKey(const base::FilePath& path,
   uint32_t version;
   if (!buffer.ReadMany(magic, &version)) return nullptr;
   if (memcmp(magic, kZKeyMagic, 4) != 0) {
-    LOG(ERROR) << "Invalid magic: " << magic;
+    LOG(ERROR) << "Invalid magic: " << std::string_view(magic, 4);
     return nullptr;
   }
   std::unique_ptr<ZKey<Curve>> zkey;
   if (version == 1) {
     zkey.reset(new v1::ZKey<Curve>(std::move(bin_file)));
-    CHECK(zkey->ToV1()->Read(buffer));
+    if (!zkey->ToV1()->Read(buffer)) return nullptr;
   } else {
     LOG(ERROR) << "Invalid version: " << version;
     return nullptr;
-- 
2.43.0


From 7978d692e32259cb31ee62232210a31f1004bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 92/93] fix: check counts in circom files before allocating for
 them

A count that the file has no room for asked for gigabytes, and a section
size that overflows led back to sections already read.
---
 vendors/circom/circomlib/base/modulus.h  |  4 ++++
 vendors/circom/circomlib/base/sections.h | 12 +++++++++---
 vendors/circom/circomlib/r1cs/r1cs.h     | 13 +++++++++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/vendors/circom/circomlib/base/modulus.h b/vendors/circom/circomlib/base/modulus.h
index 8264038..b5c48b5 100644
--- a/vendors/circom/circomlib/base/modulus.h
+++ b/vendors/circom/circomlib/base/modulus.h
@@ -42,6 +42,10 @@ struct Modulus {
       LOG(ERROR) << "field size is not a multiple of 8";
       return false;
     }
+    if (num_bytes > buffer.remaining()) {
+      LOG(ERROR) << "field size is larger than the buffer";
+      return false;
+    }
     bytes.resize(num_bytes);
     return buffer.Read(bytes.data(), bytes.size());
   }
diff --git a/vendors/circom/circomlib/base/sections.h b/vendors/circom/circomlib/base/sections.h
index d503865..96f74d7 100644
--- a/vendors/circom/circomlib/base/sections.h
+++ b/vendors/circom/circomlib/base/sections.h
@@ -3,6 +3,8 @@
 
 #include <stdint.h>
 
+#include <algorithm>
+#include <limits>
 #include <string_view>
 #include <vector>
 
@@ -32,7 +34,6 @@ class Sections {
     uint32_t num_sections;
     if (!buffer_.Read(&num_sections)) return false;
 
-    sections_.reserve(num_sections);
     for (uint32_t i = 0; i < num_sections; ++i) {
       if (!Add()) return false;
     }
@@ -57,8 +58,13 @@ class Sections {
     uint64_t size;
     if (!buffer_.ReadMany(&type, &size)) return false;
 
-    sections_.push_back({type, {buffer_.buffer_offset(), size}});
-    buffer_.set_buffer_offset(buffer_.buffer_offset() + size);
+    uint64_t offset = buffer_.buffer_offset();
+    if (size > std::numeric_limits<uint64_t>::max() - offset) {
+      LOG(ERROR) << "section is too large: " << size;
+      return false;
+    }
+    sections_.push_back({type, {offset, size}});
+    buffer_.set_buffer_offset(offset + size);
     return true;
   }
 
diff --git a/vendors/circom/circomlib/r1cs/r1cs.h b/vendors/circom/circomlib/r1cs/r1cs.h
index 9bcda3f..aefacb0 100644
--- a/vendors/circom/circomlib/r1cs/r1cs.h
+++ b/vendors/circom/circomlib/r1cs/r1cs.h
@@ -149,12 +149,21 @@ struct R1CSConstraintsSection {
   bool Read(const base::ReadOnlyBuffer& buffer,
             const R1CSHeaderSection& header) {
     base::EndianAutoReset reset(buffer, base::Endian::kLittle);
+    // Each constraint consists of at least 3 lengths.
+    if (header.num_constraints > buffer.remaining() / (3 * sizeof(uint32_t))) {
+      LOG(ERROR) << "Too many constraints: " << header.num_constraints;
+      return false;
+    }
     constraints.reserve(header.num_constraints);
     for (uint32_t i = 0; i < header.num_constraints; ++i) {
       Constraint<F> constraint;
       for (uint32_t j = 0; j < 3; ++j) {
         uint32_t n;
         if (!buffer.Read(&n)) return false;
+        if (n > buffer.remaining() / sizeof(uint32_t)) {
+          LOG(ERROR) << "Too many terms: " << n;
+          return false;
+        }
         std::vector<Term<F>> terms(n);
         for (uint32_t k = 0; k < n; ++k) {
           if (!buffer.ReadMany(&terms[k].wire_id, &terms[k].coefficient))
@@ -189,6 +198,10 @@ struct R1CSWireId2LabelIdMapSection {
   bool Read(const base::ReadOnlyBuffer& buffer,
             const R1CSHeaderSection& header) {
     base::EndianAutoReset reset(buffer, base::Endian::kLittle);
+    if (header.num_wires > buffer.remaining() / sizeof(uint64_t)) {
+      LOG(ERROR) << "Too many wires: " << header.num_wires;
+      return false;
+    }
     label_ids.resize(header.num_wires);
     for (uint32_t i = 0; i < header.num_wires; ++i) {
       if (!buffer.Read(&label_ids[i])) return false;
-- 
2.43.0


From 0b4914071ecc1f3fa418fd72d8643a6a90a574ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:56 +0000
Subject: [PATCH 93/93] fix: refuse zkey files with more public inputs than
 variables

The numbers of the IC and C points wrapped around.
---
 vendors/circom/circomlib/zkey/zkey.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index 84c3928..e0b4d59 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -154,6 +154,10 @@ struct ZKeyHeaderGrothSection {
     if (!r.Read(buffer)) return false;
     if (!buffer.ReadMany(&num_vars, &num_public_inputs, &domain_size))
       return false;
+    if (num_public_inputs >= num_vars) {
+      LOG(ERROR) << "Too many public inputs: " << num_public_inputs;
+      return false;
+    }
     return vkey.Read(buffer);
   }
 
-- 
2.43.0

