From e976aa740d8adf8fcc26a9249f64ad283749751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 001/116] fix: copy chunk size in ChunkedAdapter copy
 constructor

---
 tachyon/base/containers/adapters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/containers/adapters.h b/tachyon/base/containers/adapters.h
index 1c94d89..77afb31 100644
--- a/tachyon/base/containers/adapters.h
+++ b/tachyon/base/containers/adapters.h
@@ -43,7 +43,8 @@ template <typename T>
 class ChunkedAdapter {
  public:
   ChunkedAdapter(T& t, size_t chunk_size) : t_(t), chunk_size_(chunk_size) {}
-  ChunkedAdapter(const ChunkedAdapter& ca) : t_(ca.t_) {}
+  ChunkedAdapter(const ChunkedAdapter& ca)
+      : t_(ca.t_), chunk_size_(ca.chunk_size_) {}
 
   ChunkedAdapter& operator=(const ChunkedAdapter& ca) = delete;
 
-- 
2.43.0


From a84ee30709f859795ba6ebb242836f1686b6b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 002/116] fix: keep the carry when recoding the largest
 integers in BigInt::ToNAF()

---
 tachyon/math/base/big_int.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..de3a131 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -881,6 +881,9 @@ struct BigInt {
     ret.reserve(8 * sizeof(uint64_t) * N);
     while (!v.IsZero()) {
       int8_t z;
+      // The carry out of |v + 1|, which belongs to the bit just above the most
+      // significant bit of |v|.
+      uint64_t carry = 0;
       // v = v₀ * 2⁰ + v₁ * 2¹ + v₂ * 2² + ... + vₙ₋₁ * 2ⁿ⁻¹
       // if v₀ == 0:
       //   z = 0
@@ -896,13 +899,14 @@ struct BigInt {
         if (z >= 0) {
           v -= BigInt(z);
         } else {
-          v += BigInt(-z);
+          v.AddInPlace(BigInt(-z), carry);
         }
       } else {
         z = 0;
       }
       ret.push_back(z);
       v.DivBy2InPlace();
+      if (carry) v.biggest_limb() |= uint64_t{1} << 63;
     }
     return ret;
   }
-- 
2.43.0


From 545569007e9b7243e3bd9e2a6c9c3f90d2458bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 003/116] fix: extract as many bits as a limb has in
 BigInt::ExtractBits()

---
 tachyon/math/base/big_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index de3a131..6cbe900 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1030,12 +1030,14 @@ struct BigInt {
     size_t bit_idx = bit_offset % bits;
 
     T ret;
-    if (bit_idx < bits - bit_count || limb_idx == nums - 1) {
+    if (bit_idx + bit_count <= bits || limb_idx == nums - 1) {
       ret = limbs_ptr[limb_idx] >> bit_idx;
     } else {
       ret = (limbs_ptr[limb_idx] >> bit_idx) |
             (limbs_ptr[1 + limb_idx] << (bits - bit_idx));
     }
+    // Shifting by the number of bits of |T| is undefined.
+    if (bit_count == bits) return ret;
     T mask = (T{1} << bit_count) - T{1};
     return ret & mask;
   }
-- 
2.43.0


From d4c286cfa067f58ee88ce13d5a71abffe1c69426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 004/116] fix: don't read past the end of the string view in
 ParseIntoMpz()

---
 tachyon/math/base/gmp/gmp_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/gmp/gmp_util.cc b/tachyon/math/base/gmp/gmp_util.cc
index c0ecea5..ebb74b7 100644
--- a/tachyon/math/base/gmp/gmp_util.cc
+++ b/tachyon/math/base/gmp/gmp_util.cc
@@ -34,7 +34,8 @@ bool ParseIntoMpz(std::string_view str, int base, mpz_class* out) {
     base::ConsumePrefix0x(&str);
   }
 
-  return out->set_str(str.data(), base) == 0;
+  // NOTE: |str| may not be null-terminated.
+  return out->set_str(std::string(str), base) == 0;
 }
 
 void MustParseIntoMpz(std::string_view str, int base, mpz_class* out) {
-- 
2.43.0


From 51bb6256c0b119b3772757517c470deec29ff259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 005/116] fix: respect strict aliasing in Montgomery reduction
 of 32-bit limbs

---
 tachyon/math/base/big_int.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 6cbe900..fb3643b 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1053,9 +1053,12 @@ struct BigInt {
   template <typename T>
   constexpr static BigInt FromMontgomery(const BigInt<N>& value,
                                          const BigInt<N>& modulus, T inverse) {
-    BigInt<N> r = value;
-    T* r_ptr = reinterpret_cast<T*>(r.limbs);
-    const T* m_ptr = reinterpret_cast<const T*>(modulus.limbs);
+    // NOTE: |uint64_t| limbs must not be accessed through a |uint32_t| pointer,
+    // since this violates the strict aliasing rule.
+    T r_ptr[sizeof(uint64_t) / sizeof(T) * N];
+    T m_ptr[sizeof(uint64_t) / sizeof(T) * N];
+    memcpy(r_ptr, value.limbs, sizeof(r_ptr));
+    memcpy(m_ptr, modulus.limbs, sizeof(m_ptr));
     size_t num = 0;
     MulResult<T> (*mul_add_with_carry)(T, T, T, T);
     if constexpr (std::is_same_v<T, uint32_t>) {
@@ -1076,6 +1079,8 @@ struct BigInt {
       }
       r_ptr[i] = result.hi;
     }
+    BigInt<N> r;
+    memcpy(r.limbs, r_ptr, sizeof(r_ptr));
     return r;
   }
 
@@ -1105,8 +1110,12 @@ struct BigInt {
   constexpr static void MontgomeryReduce(BigInt<2 * N>& r,
                                          const BigInt& modulus, T inverse,
                                          BigInt* out) {
-    T* r_ptr = reinterpret_cast<T*>(r.limbs);
-    const T* m_ptr = reinterpret_cast<const T*>(modulus.limbs);
+    // NOTE: |uint64_t| limbs must not be accessed through a |uint32_t| pointer,
+    // since this violates the strict aliasing rule.
+    T r_ptr[2 * sizeof(uint64_t) / sizeof(T) * N];
+    T m_ptr[sizeof(uint64_t) / sizeof(T) * N];
+    memcpy(r_ptr, r.limbs, sizeof(r_ptr));
+    memcpy(m_ptr, modulus.limbs, sizeof(m_ptr));
     size_t num = 0;
     MulResult<T> (*mul_add_with_carry)(T, T, T, T);
     AddResult<T> (*add_with_carry)(T, T, T);
@@ -1133,7 +1142,7 @@ struct BigInt {
           add_with_carry(r_ptr[num + i], mul_result.hi, add_result.carry);
       r_ptr[num + i] = add_result.result;
     }
-    memcpy(&(*out)[0], &r[N], sizeof(uint64_t) * N);
+    memcpy(&(*out)[0], &r_ptr[num], sizeof(uint64_t) * N);
     Clamp<ModulusHasSpareBit>(modulus, out, add_result.carry);
   }
 };
-- 
2.43.0


From ec35f9e2ea4e8702e5230e80cddcef94fa14d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 006/116] fix: compare with the denominator in
 RationalField::IsOne() and IsMinusOne()

---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..5506088 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -81,11 +81,11 @@ class RationalField : public Field<RationalField<F>> {
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
   constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
+    return numerator_ == denominator_;
   }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From d83271c65b44e850d8cf6efbc8637e32cf9ff3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 007/116] fix: apply the coefficient in
 RationalField::BatchEvaluate()

---
 tachyon/math/base/rational_field.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index 5506088..0896eaf 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,14 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
-                                       size_t chunk_size) {
+                      [&ration_fields, &coeff](
+                          absl::Span<F> chunk, size_t chunk_offset,
+                          size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From b0c71dc8c1673805df50287ea2ecc34112a5ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 008/116] fix: include the generated KoalaBear4 headers from
 their own package

---
 tachyon/math/finite_fields/koala_bear/koala_bear4.h        | 4 ++--
 tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index 7371e9a..caa10f9 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,8 +1,8 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/koala_bear4.h"
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
diff --git a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
index 09e3c97..7a6f451 100644
--- a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
@@ -1,7 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
-- 
2.43.0


From dd10d137ba18545eb4aead6a438a45acbb94beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 009/116] fix: allow multiplying a quadratic extension field
 element by itself in place

---
 tachyon/math/finite_fields/quadratic_extension_field.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..e42cf7b 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -344,11 +344,10 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
-      // c.c1 = a.c0 + a.c1
-      c.c1_ = a.c0_ + a.c1_;
       // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
       // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
+      // NOTE: |c| may be the same object as |b|.
+      c.c1_ = (a.c0_ + a.c1_) * (b.c0_ + b.c1_);
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
       c.c1_ -= v0;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-- 
2.43.0


From 91c7f15c0cc438a3da93b2dcc29de57cfe932eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 010/116] fix: generate Montgomery constants for the portable
 prime fields over 32 bits

---
 .../prime_field_generator/prime_field_generator.cc       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 7400ef2..c3078df 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -498,6 +498,15 @@ int RealMain(int argc, char** argv) {
     return 1;
   }
 
+  // The portable implementation of fields of more than 32 bits (see
+  // prime_field_fallback.h) always keeps elements in Montgomery form, so the
+  // generated constants must be in that form, too.
+  if (!config.use_asm &&
+      mpz_sizeinbase(math::gmp::FromDecString(config.modulus).get_mpz_t(), 2) >
+          32) {
+    config.use_montgomery = true;
+  }
+
   if (config.use_montgomery) {
     if (!config.reduce32.empty()) {
       tachyon_cerr << "reduce32 and use_montgomery shouldn't be used together"
-- 
2.43.0


From 8b5447f03e04e782db2ef404bed38cdda4b35863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 011/116] fix: compute subgroup sizes with integers in
 PrimeFieldBase::Decompose()

std::pow() rounds q^k to a double, so exact powers above 2^53 were rejected.
---
 tachyon/math/finite_fields/prime_field_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 210045d..1995b6c 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -9,7 +9,6 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#include <cmath>
 #include <string>
 #include <utility>
 
@@ -64,10 +63,11 @@ class PrimeFieldBase : public FiniteField<F> {
     // Compute the size of our evaluation domain
     uint64_t q = uint64_t{F::Config::kSmallSubgroupBase};
     uint32_t q_adicity = ComputeAdicity(q, gmp::FromUnsignedInt(n));
-    uint64_t q_part = static_cast<uint64_t>(std::pow(q, q_adicity));
+    uint64_t q_part = 1;
+    for (uint32_t i = 0; i < q_adicity; ++i) q_part *= q;
 
     uint32_t two_adicity = ComputeAdicity(2, gmp::FromUnsignedInt(n));
-    uint64_t two_part = static_cast<uint64_t>(std::pow(2, two_adicity));
+    uint64_t two_part = uint64_t{1} << two_adicity;
     if (n != q_part * two_part) return false;
 
     factors->q_adicity = q_adicity;
-- 
2.43.0


From 62e9efa540ee52e5c271419c788bf35a4984afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:06 +0000
Subject: [PATCH 012/116] fix: return 1 from ComputeTrace() for an exact power

The loop left the trace at 0 when n is a power of k, so the generated root of
unity of such a field was g^0 = 1.
---
 tachyon/math/finite_fields/prime_field_util.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/tachyon/math/finite_fields/prime_field_util.cc b/tachyon/math/finite_fields/prime_field_util.cc
index a3e776d..bb4abd4 100644
--- a/tachyon/math/finite_fields/prime_field_util.cc
+++ b/tachyon/math/finite_fields/prime_field_util.cc
@@ -23,16 +23,10 @@ uint32_t ComputeAdicity(uint32_t k, mpz_class n) {
 
 // The integer t such that |n| = |k|ˢ * t for some odd integer t.
 mpz_class ComputeTrace(size_t k, mpz_class n) {
-  mpz_class trace = 0;
-  while (n > 1) {
-    if (n % k == 0) {
-      n /= k;
-    } else {
-      trace = n;
-      break;
-    }
+  while (n > 1 && n % k == 0) {
+    n /= k;
   }
-  return trace;
+  return n;
 }
 
 }  // namespace tachyon::math
-- 
2.43.0


From e63e7d6adc3d26ef0c9808ee50f9786fc2b79ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 013/116] fix: JacobianPoint doubling on curves with a != 0

Z3 must be 2 * Y1 * Z1, as the comment says, not 2 * (Y1 + Z1).
---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From 6952cf26d338dca73aa5d398ce54b02ec1f0ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 014/116] fix: PointXYZZ conversions with zz = 1 and zzz != 1

When Z = -1, ZZ is 1 but ZZZ is -1, so y is not already affine.
---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From ba6c084a3ce3efde0de2d3cf05f67c2a6db3f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 015/116] fix: generated curve headers without GLV coefficients
 do not compile

The optional template lines were only removed when GLV coefficients were
given, leaving the tags in the headers of pallas, vesta and secp256k1.
---
 .../elliptic_curves/short_weierstrass/generator/cpu.h.tpl   | 6 +++---
 .../short_weierstrass/generator/generator.cc                | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
index b7884f6..a9678c7 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
@@ -37,9 +37,9 @@ class %{class}CurveConfig {
   static Point2<BaseField> kGenerator;
 %{if HasGLVCoefficients}
   static BaseField kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
   static ScalarField kLambda;
   static mpz_class kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
   static void Init() {
     static absl::once_flag once;
@@ -58,9 +58,9 @@ class %{class}CurveConfig {
 %{y_init}
 %{if HasGLVCoefficients}
 %{endomorphism_coefficient_init_code}
-%{endif HasGLVCoefficients}
 %{lambda_init_code}
 %{glv_coeffs_init_code}
+%{endif HasGLVCoefficients}
     VLOG(1) << "%{namespace}::%{class} initialized";
   }
 };
@@ -74,11 +74,11 @@ Point2<BaseField> %{class}CurveConfig<BaseField, ScalarField>::kGenerator;
 %{if HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 BaseField %{class}CurveConfig<BaseField, ScalarField>::kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 ScalarField %{class}CurveConfig<BaseField, ScalarField>::kLambda;
 template <typename BaseField, typename ScalarField>
 mpz_class %{class}CurveConfig<BaseField, ScalarField>::kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
 using %{class}Curve = SWCurve<%{class}CurveConfig<%{base_field}, %{scalar_field}>>;
 using %{class}AffinePoint = AffinePoint<%{class}Curve>;
diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 345203d..6f2ae53 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -126,9 +126,8 @@ int GenerationConfig::GenerateConfigHdr() const {
                                  glv_coefficients[i]);
                            }),
         "\n");
-
-    RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   }
+  RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   tpl_content = absl::StrJoin(tpl_lines, "\n");
   std::string content = absl::StrReplaceAll(tpl_content, replacements);
   return WriteHdr(content, false);
-- 
2.43.0


From e57843324fe6365b153130c96fe1df8492630ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 016/116] fix: SWCurve::IsOnCurve accepted XYZZ points with
 ZZ^3 != ZZZ^2

Such a point stands for (X/ZZ, Y/ZZZ), which is not on the curve.
---
 tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h b/tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h
index 17c5a85..d6199c1 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h
@@ -118,8 +118,10 @@ class SWCurve {
 
   constexpr static bool IsOnCurve(const PointXYZZ& point) {
     if (point.zzz().IsZero()) return false;
-    BaseField right =
-        point.x().Square() * point.x() + Config::kB * point.zzz().Square();
+    BaseField zzz2 = point.zzz().Square();
+    // ZZ³ = ZZZ² must hold for (X/ZZ, Y/ZZZ) to satisfy the curve equation.
+    if (point.zz().Square() * point.zz() != zzz2) return false;
+    BaseField right = point.x().Square() * point.x() + Config::kB * zzz2;
     if constexpr (!Config::kAIsZero) {
       right += Config::kA * point.x() * point.zz().Square();
     }
-- 
2.43.0


From 306280ba0737f05c86d0a8e38c4bc8a3c918b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 017/116] fix: FindIndices() on lists and FindIndicesIf() with
 a stateful predicate

The non random access overloads did not compile (it + 1), and a predicate
passed as an rvalue was moved from again for every match.
---
 tachyon/base/containers/container_util.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/containers/container_util.h b/tachyon/base/containers/container_util.h
index 9968c75..dfbd048 100644
--- a/tachyon/base/containers/container_util.h
+++ b/tachyon/base/containers/container_util.h
@@ -236,7 +236,7 @@ std::vector<size_t> DoFindIndices(Iterator begin, Iterator end, const T& value,
     matches.push_back(index);
     last_it = it;
     last_index = index;
-    it = std::find(last_it + 1, end, value);
+    it = std::find(std::next(last_it), end, value);
   }
   return matches;
 }
@@ -245,11 +245,11 @@ template <typename Iterator, typename UnaryOp>
 std::vector<size_t> DoFindIndicesIf(Iterator begin, Iterator end, UnaryOp&& op,
                                     const std::random_access_iterator_tag&) {
   std::vector<size_t> matches;
-  auto it = std::find_if(begin, end, std::forward<UnaryOp>(op));
+  auto it = std::find_if(begin, end, op);
   while (it != end) {
     size_t index = std::distance(begin, it);
     matches.push_back(index);
-    it = std::find_if(it + 1, end, std::forward<UnaryOp>(op));
+    it = std::find_if(it + 1, end, op);
   }
   return matches;
 }
@@ -258,7 +258,7 @@ template <typename Iterator, typename UnaryOp>
 std::vector<size_t> DoFindIndicesIf(Iterator begin, Iterator end, UnaryOp&& op,
                                     const std::input_iterator_tag&) {
   std::vector<size_t> matches;
-  auto it = std::find_if(begin, end, std::forward<UnaryOp>(op));
+  auto it = std::find_if(begin, end, op);
   auto last_it = begin;
   size_t last_index = 0;
   while (it != end) {
@@ -266,7 +266,7 @@ std::vector<size_t> DoFindIndicesIf(Iterator begin, Iterator end, UnaryOp&& op,
     matches.push_back(index);
     last_it = it;
     last_index = index;
-    it = std::find_if(last_it + 1, end, std::forward<UnaryOp>(op));
+    it = std::find_if(std::next(last_it), end, op);
   }
   return matches;
 }
-- 
2.43.0


From 889eb6ce86d3d3ef68e7ec5f5312b5c758f2d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 018/116] fix: Extend() emptied a non-const lvalue container

The forwarding reference overload was chosen over the copying one.
---
 tachyon/base/containers/container_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/containers/container_util.h b/tachyon/base/containers/container_util.h
index dfbd048..905a0f7 100644
--- a/tachyon/base/containers/container_util.h
+++ b/tachyon/base/containers/container_util.h
@@ -349,7 +349,9 @@ std::array<ReturnType, N> CreateArray(Generator&& generator) {
   return ret;
 }
 
-template <typename Container, typename Container2>
+template <
+    typename Container, typename Container2,
+    std::enable_if_t<!std::is_lvalue_reference_v<Container2>>* = nullptr>
 void Extend(Container& container, Container2&& container2) {
   container.insert(container.end(), std::make_move_iterator(container2.begin()),
                    std::make_move_iterator(container2.end()));
-- 
2.43.0


From 3cf6b38466d2acae3b9daebaa8ce5c7b43da09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 019/116] fix: CreateRangedVector() overflowed when end - start
 + step does not fit

CreateRangedVector<uint32_t>(0, UINT32_MAX, UINT32_MAX) was empty.
---
 tachyon/base/containers/container_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/containers/container_util.h b/tachyon/base/containers/container_util.h
index 905a0f7..2ba244c 100644
--- a/tachyon/base/containers/container_util.h
+++ b/tachyon/base/containers/container_util.h
@@ -22,7 +22,7 @@ std::vector<T> CreateRangedVector(T start, T end, T step = 1) {
   CHECK_LT(start, end);
   CHECK_GT(step, T{0});
   std::vector<T> ret;
-  size_t size = static_cast<size_t>((end - start + step - 1) / step);
+  size_t size = static_cast<size_t>((end - start - 1) / step) + 1;
   ret.reserve(size);
   T v = start;
   std::generate_n(std::back_inserter(ret), size, [&v, step]() {
-- 
2.43.0


From 005f62b4f40a0593e80732c8ba9d41282ad3495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 020/116] fix: Range::Iterator postfix operators did not
 compile

---
 tachyon/base/range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 039d6bd..2a92c30 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -61,7 +61,7 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
       return *this;
     }
 
-    constexpr Iterator operator++(int) const {
+    constexpr Iterator operator++(int) {
       Iterator it(*this);
       ++(*this);
       return it;
@@ -72,7 +72,7 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
       return *this;
     }
 
-    constexpr Iterator operator--(int) const {
+    constexpr Iterator operator--(int) {
       Iterator it(*this);
       --(*this);
       return it;
-- 
2.43.0


From 5bce2fb4e7231cc3285e496c21a78b0e6628363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 021/116] fix: Range::GetSize() overflowed for wide signed
 ranges

Range<int>::All().GetSize() returned SIZE_MAX.
---
 tachyon/base/range.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tachyon/base/range.h b/tachyon/base/range.h
index 2a92c30..194f504 100644
--- a/tachyon/base/range.h
+++ b/tachyon/base/range.h
@@ -158,14 +158,14 @@ struct Range<T, IsStartInclusive, IsEndInclusive,
   template <typename U = T, std::enable_if_t<std::is_integral_v<U>>* = nullptr>
   constexpr size_t GetSize() const {
     if (IsEmpty()) return 0;
+    // NOTE: |to - from| may not fit in |T| if it is signed.
+    size_t diff = static_cast<size_t>(to) - static_cast<size_t>(from);
     if constexpr (IsStartInclusive && IsEndInclusive) {
-      return to - from + 1;
-    } else if constexpr (IsStartInclusive && !IsEndInclusive) {
-      return to - from;
-    } else if constexpr (!IsStartInclusive && IsEndInclusive) {
-      return to - from;
+      return diff + 1;
+    } else if constexpr (IsStartInclusive != IsEndInclusive) {
+      return diff;
     } else {
-      return to - from - 1;
+      return diff - 1;
     }
   }
 
-- 
2.43.0


From 5168aa22c1c5b965e3b36dee07009c4b9efeed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:17 +0000
Subject: [PATCH 022/116] fix: CheckDiv/CheckMod (and clamped forms) of
 mixed-sign 64-bit operands

A negative operand was converted to uint64_t before the remainder was taken,
and exact quotients such as int64_t(-4) / uint64_t(2) were rejected.
---
 tachyon/base/numerics/checked_math_impl.h | 59 ++++++++++++++++-------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/tachyon/base/numerics/checked_math_impl.h b/tachyon/base/numerics/checked_math_impl.h
index 4f14430..726cf93 100644
--- a/tachyon/base/numerics/checked_math_impl.h
+++ b/tachyon/base/numerics/checked_math_impl.h
@@ -215,6 +215,21 @@ struct CheckedMulOp<T,
 
 // Division just requires a check for a zero denominator or an invalid negation
 // on signed min/-1.
+// Stores the value with the given sign and magnitude if it is in range.
+template <typename V, typename T>
+constexpr bool CheckedFromMagnitude(T magnitude, bool is_negative, V* result) {
+  if (!is_negative) {
+    if (!IsValueInRangeForNumericType<V>(magnitude))
+      return false;
+    *result = static_cast<V>(magnitude);
+    return true;
+  }
+  if (magnitude > SafeUnsignedAbs(std::numeric_limits<V>::lowest()))
+    return false;
+  *result = NegateWrapper(static_cast<V>(magnitude));
+  return true;
+}
+
 template <typename T, typename U, class Enable = void>
 struct CheckedDivOp {};
 
@@ -241,18 +256,19 @@ struct CheckedDivOp<T,
       return false;
     }
 
-    // This branch always compiles away if the above branch wasn't removed.
-    if (BASE_NUMERICS_UNLIKELY((!IsValueInRangeForNumericType<Promotion>(x) ||
-                                !IsValueInRangeForNumericType<Promotion>(y)) &&
-                               x)) {
-      return false;
+    // No type holds every value of both operands: divide the magnitudes.
+    if constexpr (!BigEnoughPromotion<T, U>::is_contained) {
+      return CheckedFromMagnitude(
+          static_cast<Promotion>(SafeUnsignedAbs(x)) /
+              static_cast<Promotion>(SafeUnsignedAbs(y)),
+          IsValueNegative(x) != IsValueNegative(y), result);
+    } else {
+      const Promotion presult = Promotion(x) / Promotion(y);
+      if (!IsValueInRangeForNumericType<V>(presult))
+        return false;
+      *result = static_cast<V>(presult);
+      return true;
     }
-
-    const Promotion presult = Promotion(x) / Promotion(y);
-    if (!IsValueInRangeForNumericType<V>(presult))
-      return false;
-    *result = static_cast<V>(presult);
-    return true;
   }
 };
 
@@ -281,12 +297,21 @@ struct CheckedModOp<T,
       return true;
     }
 
-    const Promotion presult =
-        static_cast<Promotion>(x) % static_cast<Promotion>(y);
-    if (!IsValueInRangeForNumericType<V>(presult))
-      return false;
-    *result = static_cast<Promotion>(presult);
-    return true;
+    // No type holds every value of both operands: divide the magnitudes. The
+    // remainder takes the sign of the dividend.
+    if constexpr (!BigEnoughPromotion<T, U>::is_contained) {
+      return CheckedFromMagnitude(
+          static_cast<Promotion>(SafeUnsignedAbs(x)) %
+              static_cast<Promotion>(SafeUnsignedAbs(y)),
+          IsValueNegative(x), result);
+    } else {
+      const Promotion presult =
+          static_cast<Promotion>(x) % static_cast<Promotion>(y);
+      if (!IsValueInRangeForNumericType<V>(presult))
+        return false;
+      *result = static_cast<Promotion>(presult);
+      return true;
+    }
   }
 };
 
-- 
2.43.0


From b4a6f1048a65f441a064c4c2611e68afc5b6318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:17 +0000
Subject: [PATCH 023/116] fix: ClampAdd/ClampMod of a negative and an unsigned
 operand clipped to the wrong value

ClampAdd(-1, 0u) was UINT_MAX and ClampMod(-1, 0u) wrapped around.
---
 tachyon/base/numerics/clamped_math_impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/numerics/clamped_math_impl.h b/tachyon/base/numerics/clamped_math_impl.h
index 31292f5..ee880f7 100644
--- a/tachyon/base/numerics/clamped_math_impl.h
+++ b/tachyon/base/numerics/clamped_math_impl.h
@@ -87,7 +87,10 @@ struct ClampedAddOp<T,
                       IsTypeInRangeForNumericType<U, V>::value,
                   "The saturation result cannot be determined from the "
                   "provided types.");
-    const V saturated = CommonMaxOrMin<V>(IsValueNegative(y));
+    // |x| itself may be out of range if it is negative and |V| is unsigned.
+    const V saturated = CommonMaxOrMin<V>(
+        IsValueNegative(y) ||
+        (!std::is_signed<V>::value && IsValueNegative(x)));
     V result = {};
     return BASE_NUMERICS_LIKELY((CheckedAddOp<T, U>::Do(x, y, &result)))
                ? result
@@ -178,7 +181,7 @@ struct ClampedModOp<T,
     V result = {};
     return BASE_NUMERICS_LIKELY((CheckedModOp<T, U>::Do(x, y, &result)))
                ? result
-               : x;
+               : saturated_cast<V>(x);
   }
 };
 
-- 
2.43.0


From e8259f044c0795bd17fa3bc92c6be70040040367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 024/116] fix: negating a nonzero unsigned CheckedNumeric
 reported a valid wrapped value

---
 tachyon/base/numerics/checked_math.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/numerics/checked_math.h b/tachyon/base/numerics/checked_math.h
index 6da2122..6085044 100644
--- a/tachyon/base/numerics/checked_math.h
+++ b/tachyon/base/numerics/checked_math.h
@@ -148,11 +148,14 @@ class CheckedNumeric {
         std::is_floating_point<T>::value) {
       return FastRuntimeNegate();
     }
-    // The negation of two's complement int min is int min.
+    // The negation of two's complement int min is int min, and of the unsigned
+    // values, only the negation of 0 is in range.
     const bool is_valid =
         IsValid() &&
-        (!std::is_signed<T>::value || std::is_floating_point<T>::value ||
-         NegateWrapper(state_.value()) != std::numeric_limits<T>::lowest());
+        (std::is_floating_point<T>::value ||
+         (std::is_signed<T>::value
+              ? NegateWrapper(state_.value()) != std::numeric_limits<T>::lowest()
+              : state_.value() == 0));
     return CheckedNumeric<T>(NegateWrapper(state_.value()), is_valid);
   }
 
-- 
2.43.0


From 5bfd6ea69524fe41ba13b09b3800b784c161439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 025/116] fix: TimeDelta::FromChrono() lost precision

It went through double, so that Time::FromChrono(time.ToChrono()) could be off
by a microsecond.
---
 tachyon/base/time/time.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/time/time.h b/tachyon/base/time/time.h
index 72e690e..3020198 100644
--- a/tachyon/base/time/time.h
+++ b/tachyon/base/time/time.h
@@ -674,8 +674,9 @@ namespace time_internal {
 template <std::intmax_t N>
 constexpr TimeDelta FromInt64(int64_t v, std::ratio<1, N>) {
   static_assert(0 < N && N <= 1000 * 1000 * 1000, "Unsupported ratio");
-  return TimeDelta::FromInternalValue(saturated_cast<int64_t>(
-      static_cast<double>(v) / N * Time::kMicrosecondsPerSecond));
+  return TimeDelta::FromInternalValue(
+      int64_t{ClampAdd(ClampMul(v / N, Time::kMicrosecondsPerSecond),
+                       v % N * Time::kMicrosecondsPerSecond / N)});
 }
 
 constexpr TimeDelta FromInt64(int64_t v, std::ratio<60>) {
-- 
2.43.0


From d465894d360052792451ecde37837718c4e649f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 026/116] fix: a negative TimeDelta times or over a uint64_t
 was 0

---
 tachyon/base/time/time.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/time/time.h b/tachyon/base/time/time.h
index 3020198..25f44b7 100644
--- a/tachyon/base/time/time.h
+++ b/tachyon/base/time/time.h
@@ -253,11 +253,15 @@ class TACHYON_EXPORT TimeDelta {
   // Computations with numeric types.
   template <typename T>
   constexpr TimeDelta operator*(T a) const {
-    return TimeDelta(int64_t{delta_ * a});
+    ClampedNumeric<int64_t> ret = delta_;
+    ret *= a;
+    return TimeDelta(ret);
   }
   template <typename T>
   constexpr TimeDelta operator/(T a) const {
-    return TimeDelta(int64_t{delta_ / a});
+    ClampedNumeric<int64_t> ret = delta_;
+    ret /= a;
+    return TimeDelta(ret);
   }
   template <typename T>
   constexpr TimeDelta& operator*=(T a) {
-- 
2.43.0


From 2c3df8ace4a5b8bb8abf9385c2bb74a0c8234ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:18 +0000
Subject: [PATCH 027/116] fix: timespec and timeval conversions of early and
 extreme times

ToTimeSpec() and ToTimeVal() gave negative or overflowed subsecond parts for
times before the epoch, FromTimeSpec() and FromTimeVal() wrapped around instead
of saturating, and Time::FromTimeSpec() lost microseconds in double.
---
 tachyon/base/time/time.cc                  |  3 +-
 tachyon/base/time/time_conversion_posix.cc | 48 ++++++++++++++++------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/tachyon/base/time/time.cc b/tachyon/base/time/time.cc
index 43e7a99..a4455f8 100644
--- a/tachyon/base/time/time.cc
+++ b/tachyon/base/time/time.cc
@@ -154,8 +154,7 @@ double Time::ToDoubleT() const {
 #if BUILDFLAG(IS_POSIX) || BUILDFLAG(IS_FUCHSIA)
 // static
 Time Time::FromTimeSpec(const timespec& ts) {
-  return FromDoubleT(ts.tv_sec +
-                     static_cast<double>(ts.tv_nsec) / kNanosecondsPerSecond);
+  return Time() + TimeDelta::FromTimeSpec(ts);
 }
 #endif
 
diff --git a/tachyon/base/time/time_conversion_posix.cc b/tachyon/base/time/time_conversion_posix.cc
index 8865613..234643d 100644
--- a/tachyon/base/time/time_conversion_posix.cc
+++ b/tachyon/base/time/time_conversion_posix.cc
@@ -9,22 +9,44 @@
 #include "tachyon/build/build_config.h"
 
 namespace tachyon::base {
+namespace {
+
+// Returns |seconds| and |microseconds| in microseconds, saturating at the
+// limits of int64_t.
+int64_t ToMicroseconds(int64_t seconds, int64_t microseconds) {
+  if (seconds < 0) {
+    // Make both have the same sign, or the product may saturate too early.
+    ++seconds;
+    microseconds -= Time::kMicrosecondsPerSecond;
+  }
+  return ClampAdd(ClampMul(seconds, Time::kMicrosecondsPerSecond),
+                  microseconds);
+}
+
+// Returns the whole seconds rounded down. |remainder| is in [0, 10⁶).
+int64_t SplitSeconds(int64_t microseconds, int64_t* remainder) {
+  int64_t seconds = microseconds / Time::kMicrosecondsPerSecond;
+  *remainder = microseconds % Time::kMicrosecondsPerSecond;
+  if (*remainder < 0) {
+    --seconds;
+    *remainder += Time::kMicrosecondsPerSecond;
+  }
+  return seconds;
+}
+
+}  // namespace
 
 // static
 TimeDelta TimeDelta::FromTimeSpec(const timespec& ts) {
-  return TimeDelta(ts.tv_sec * Time::kMicrosecondsPerSecond +
-                   ts.tv_nsec / Time::kNanosecondsPerMicrosecond);
+  return TimeDelta(ToMicroseconds(
+      ts.tv_sec, ts.tv_nsec / Time::kNanosecondsPerMicrosecond));
 }
 
 struct timespec TimeDelta::ToTimeSpec() const {
-  int64_t microseconds = InMicroseconds();
-  time_t seconds = 0;
-  if (microseconds >= Time::kMicrosecondsPerSecond) {
-    seconds = static_cast<time_t>(InSeconds());
-    microseconds -= seconds * Time::kMicrosecondsPerSecond;
-  }
+  int64_t microseconds;
+  const int64_t seconds = SplitSeconds(InMicroseconds(), &microseconds);
   struct timespec result = {
-      seconds,
+      static_cast<time_t>(seconds),
       static_cast<long>(microseconds * Time::kNanosecondsPerMicrosecond)};
   return result;
 }
@@ -37,8 +59,7 @@ Time Time::FromTimeVal(struct timeval t) {
   if (t.tv_usec == static_cast<suseconds_t>(Time::kMicrosecondsPerSecond) - 1 &&
       t.tv_sec == std::numeric_limits<time_t>::max())
     return Max();
-  return Time((static_cast<int64_t>(t.tv_sec) * Time::kMicrosecondsPerSecond) +
-              t.tv_usec);
+  return Time(ToMicroseconds(t.tv_sec, t.tv_usec));
 }
 
 struct timeval Time::ToTimeVal() const {
@@ -53,8 +74,9 @@ struct timeval Time::ToTimeVal() const {
     result.tv_usec = static_cast<suseconds_t>(Time::kMicrosecondsPerSecond) - 1;
     return result;
   }
-  result.tv_sec = us_ / Time::kMicrosecondsPerSecond;
-  result.tv_usec = us_ % Time::kMicrosecondsPerSecond;
+  int64_t microseconds;
+  result.tv_sec = SplitSeconds(us_, &microseconds);
+  result.tv_usec = static_cast<suseconds_t>(microseconds);
   return result;
 }
 
-- 
2.43.0


From 669760ace0ef9bd43c6866ba36e5dbf6d5f2ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 028/116] fix: TimeDelta::RoundToMultiple() of values within
 half an interval of the limits

---
 tachyon/base/time/time.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/time/time.cc b/tachyon/base/time/time.cc
index a4455f8..f8741b6 100644
--- a/tachyon/base/time/time.cc
+++ b/tachyon/base/time/time.cc
@@ -112,9 +112,14 @@ TimeDelta TimeDelta::FloorToMultiple(TimeDelta interval) const {
 TimeDelta TimeDelta::RoundToMultiple(TimeDelta interval) const {
   if (is_inf() || interval.is_zero()) return *this;
   if (interval.is_inf()) return TimeDelta();
-  const TimeDelta half = interval.magnitude() / 2;
-  return (delta_ < 0) ? (*this - half).CeilToMultiple(interval)
-                      : (*this + half).FloorToMultiple(interval);
+  // Adding half of |interval| to |*this| may saturate although the result
+  // doesn't.
+  const TimeDelta magnitude = interval.magnitude();
+  const TimeDelta remainder = *this % interval;
+  const TimeDelta towards_zero = *this - remainder;
+  if (remainder.magnitude() < magnitude - remainder.magnitude())
+    return towards_zero;
+  return (delta_ < 0) ? towards_zero - magnitude : towards_zero + magnitude;
 }
 
 std::ostream& operator<<(std::ostream& os, TimeDelta time_delta) {
-- 
2.43.0


From dd00f1176d2d72b0c011edfcb0cccf115cad3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 029/116] fix: remainder of the zero polynomial is zero

---
 tachyon/math/polynomials/univariate/univariate_polynomial_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
index ed8e669..bd5ff64 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
@@ -526,7 +526,7 @@ class UnivariatePolynomialOp<UnivariateDenseCoefficients<F, MaxDegree>> {
     }
     if (self.IsZero()) {
       output = DivResult<UnivariatePolynomial<D>>{
-          UnivariatePolynomial<D>::Zero(), other.ToDense()};
+          UnivariatePolynomial<D>::Zero(), UnivariatePolynomial<D>::Zero()};
       return true;
     } else if (self.Degree() < other.Degree()) {
       output = DivResult<UnivariatePolynomial<D>>{
-- 
2.43.0


From cde314078d62b351da75a66a2b02e19c0346d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 030/116] fix: divide a zero sparse polynomial like any other

---
 .../polynomials/univariate/univariate_polynomial_ops.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
index bd5ff64..9ef343e 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
@@ -741,9 +741,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Div(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return UnivariatePolynomial<D>::Zero();
-    }
     return self.ToDense() / other;
   }
 
@@ -751,9 +748,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Mod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return other.ToDense();
-    }
     return self.ToDense() % other;
   }
 
@@ -761,10 +755,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<DivResult<UnivariatePolynomial<D>>> DivMod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return DivResult<UnivariatePolynomial<D>>{UnivariatePolynomial<D>::Zero(),
-                                                other.ToDense()};
-    }
     return self.ToDense().DivMod(other);
   }
 
-- 
2.43.0


From 9640bf9ff5e69c340daa631ed0d79627e62dc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 031/116] fix: do not read past the coefficients when folding
 an odd number

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..0c79a9a 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < size - size % 2; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From 2c54e1f583e1b1da40fcbc2567a7361585ec7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 032/116] fix: do not reduce exponents when evaluating a sparse
 polynomial

---
 .../polynomials/univariate/univariate_sparse_coefficients.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 4748e1d..364c6d7 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -26,6 +26,7 @@
 #include "tachyon/base/optional.h"
 #include "tachyon/base/ranges/algorithm.h"
 #include "tachyon/base/strings/string_util.h"
+#include "tachyon/math/base/big_int.h"
 #include "tachyon/math/polynomials/univariate/support_poly_operators.h"
 
 namespace tachyon {
@@ -219,7 +220,7 @@ class UnivariateSparseCoefficients {
 
     F sum = F::Zero();
     for (const Term& term : terms_) {
-      sum += F::PowWithTable(powers_of_2, F(term.degree).ToBigInt()) *
+      sum += F::PowWithTable(powers_of_2, BigInt<1>(term.degree)) *
              term.coefficient;
     }
     return sum;
-- 
2.43.0


From e3315b6fba0e7b41fc3cbd7edcd0ce5b1eebb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 033/116] fix: scale filter polynomials by the offsets of both
 cosets

---
 .../polynomials/univariate/univariate_evaluation_domain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..b497d74 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -404,7 +404,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
                                          subdomain.offset_pow_size_}}));
     SparsePoly subdomain_vanishing_poly =
         subdomain.GetVanishingPolynomial() *
-        SparsePoly(SparseCoeffs({{0, size_as_field_element_}}));
+        SparsePoly(SparseCoeffs(
+            {{0, size_as_field_element_ * offset_pow_size_}}));
     std::optional<DivResult<DensePoly>> result =
         domain_vanishing_poly.DivMod(subdomain_vanishing_poly);
     CHECK(result);
@@ -424,9 +425,10 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
     } else {
       const std::optional<F> div =
           EvaluateVanishingPolynomial(tau) /
-          (size_as_field_element_ * v_subdomain_of_tau);
+          (size_as_field_element_ * offset_pow_size_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From 2a254c6dd0a5ef854ed15ce29ed0f510c9065a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 034/116] fix: keep the first term of a radix-q butterfly while
 overwriting it

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..3e0420a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            const F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From bb36237b3192b0e5812656215bcc5cfd16598f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 035/116] fix: default maximum degree of mixed-radix domains

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 .../univariate/univariate_evaluation_domain_factory.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 3e0420a..c8d946a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -39,7 +39,7 @@ namespace tachyon::math {
 template <typename F>
 constexpr size_t MaxDegreeForMixedRadixEvaluationDomain() {
   size_t i = 1;
-  for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
+  for (size_t j = 0; j < F::Config::kSmallSubgroupAdicity; ++j) {
     i *= F::Config::kSmallSubgroupBase;
   }
   return i * (size_t{1} << F::Config::kTwoAdicity) - 1;
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
index c82ee5f..f557415 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
@@ -17,7 +17,7 @@ template <typename F>
 constexpr size_t MaxDegreeForEvaluationDomainFactory() {
   size_t i = 1;
   if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
-    for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
+    for (size_t j = 0; j < F::Config::kSmallSubgroupAdicity; ++j) {
       i *= F::Config::kSmallSubgroupBase;
     }
   }
-- 
2.43.0


From 9f8032445855744f7e1766c4dbce13eb38209a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 036/116] fix: honour reverse_at_last when the input of
 CosetLDEBatch is kept

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From 24faab0349d0fddc1d205e26f20472d36a9b9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 037/116] fix: complete cached twiddles that were created for
 batch transforms only

---
 .../univariate/radix2_twiddle_cache.h         | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..620c99f 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -57,10 +57,10 @@ class Radix2TwiddleCache {
     template <typename Domain>
     Item(const Domain* domain, bool packed_vec_only) {
       TRACE_EVENT("Utils", "Radix2TwiddleCache<F>::Item::Init");
-      if (domain->log_size_of_group() == 0) return;
-
       this->packed_vec_only = packed_vec_only;
 
+      if (domain->log_size_of_group() == 0) return;
+
       roots_vec.resize(domain->log_size_of_group());
       inv_roots_vec.resize(domain->log_size_of_group());
 
@@ -100,6 +100,17 @@ class Radix2TwiddleCache {
 
       if (packed_vec_only) return;
 
+      FillRootsVec(domain);
+    }
+
+    // Adds what |packed_vec_only| left out. The vectors an item was created
+    // with stay as they are.
+    template <typename Domain>
+    void FillRootsVec(const Domain* domain) {
+      packed_vec_only = false;
+
+      if (domain->log_size_of_group() == 0) return;
+
       // Prepare space in each vector for the others.
       size_t size = domain->size() / 2;
       for (size_t i = 1; i < domain->log_size_of_group(); ++i) {
@@ -128,12 +139,13 @@ class Radix2TwiddleCache {
     absl::MutexLock lock(&twiddle_cache->mutex_);
     auto it = twiddle_cache->items_.find(
         std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
+    if (it == twiddle_cache->items_.end()) {
       it = twiddle_cache->items_.insert(
           it,
           std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
                          std::make_unique<Item>(domain, packed_vec_only)));
+    } else if (it->second->packed_vec_only && !packed_vec_only) {
+      it->second->FillRootsVec(domain);
     }
     return it->second.get();
   }
-- 
2.43.0


From 9e5b42f4b191edda92cb3ee7e387b097056d626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 038/116] fix: set the number of variables of sums of
 multivariate polynomials

---
 .../polynomials/multivariate/multivariate_polynomial_ops.h    | 3 +++
 .../multivariate/multivariate_sparse_coefficients.h           | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..3899796 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -6,6 +6,7 @@
 #ifndef TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 #define TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -149,6 +150,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..ae4734e 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -268,10 +268,10 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr F Evaluate(const Point& points) const {
-    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     if (IsZero()) {
       return F::Zero();
     }
+    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     std::vector<F> results =
         base::ParallelizeMap(terms_, [&points](absl::Span<const Term> chunk) {
           return EvaluateSerial(chunk, points);
@@ -346,7 +346,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From 3fda77a4190d94a6b8b453f38968a3404e89ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 039/116] fix: order the literals of multivariate polynomials
 totally

---
 .../multivariate/multivariate_sparse_coefficients.h   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index ae4734e..f9b02bc 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -81,11 +81,14 @@ class MultivariateSparseCoefficients {
     }
 
     bool operator<(const Literal& other) const {
-      if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
-      } else {
-        return elements.back() < other.elements.back();
+      // The literal of degree 0 precedes all the others regardless of the way
+      // it is represented.
+      if (Degree() == 0 || other.Degree() == 0) {
+        return Degree() < other.Degree();
       }
+      return std::lexicographical_compare(
+          elements.rbegin(), elements.rend(), other.elements.rbegin(),
+          other.elements.rend());
     }
     bool operator==(const Literal& other) const {
       return (Degree() == 0 && other.Degree() == 0) ||
-- 
2.43.0


From 0a27929d84a8d71d42a4fd49e8432460e0d8fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 040/116] fix: degree of multivariate polynomials

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index f9b02bc..0ba2b56 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -266,8 +266,11 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 5cc08e3668e27eb5812c2ad6b61f77a8fd601124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 041/116] fix: compact a multivariate polynomial without terms

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 0ba2b56..a18c8fb 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -307,6 +307,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From d75824061f4e689d21d96ba4a6f9051a8163ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 042/116] fix: verify sumcheck messages of constant polynomials

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h
index 3d1f2ff..113e8f8 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h
@@ -93,7 +93,8 @@ class SumcheckVerifier {
       CHECK_EQ(evaluations.size(), max_evaluations_ + 1);
 
       const F& p0 = evaluations[0];
-      const F& p1 = evaluations[1];
+      // A constant polynomial is represented by a single evaluation.
+      const F& p1 = max_evaluations_ == 0 ? p0 : evaluations[1];
 
       F sum = p0 + p1;
 
-- 
2.43.0


From 5a9d755cb9d92af366422e4c417d29d012d35c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 043/116] fix: compare the evaluations of sumcheck proving keys

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From 736a078e619aa72d4335a5afd670e745c39abd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:15 +0000
Subject: [PATCH 044/116] fix: size of the product of a non-square matrix and a
 vector

---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 36295a33becc2e4b1ca56664ea0c808aa9de47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:15 +0000
Subject: [PATCH 045/116] fix: number of columns of sparse matrices with empty
 rows

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..61271c5 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -247,6 +248,7 @@ class CSRSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
+    if (elements_.empty()) return 0;
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
-- 
2.43.0


From ad39ead12bf8623757164e30c7f3fdc86cd5c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 046/116] fix: return no extended packed powers when none are
 requested

---
 tachyon/math/finite_fields/extension_field_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/math/finite_fields/extension_field_base.h b/tachyon/math/finite_fields/extension_field_base.h
index b3c06bd..50177cb 100644
--- a/tachyon/math/finite_fields/extension_field_base.h
+++ b/tachyon/math/finite_fields/extension_field_base.h
@@ -69,6 +69,8 @@ class ExtensionFieldBase {
     using PackedField = typename PackedFieldTraits<BaseField>::PackedField;
     constexpr uint32_t kDegree = T::ExtensionDegree();
 
+    if (size == 0) return {};
+
     // if |PackedField::N| = 8,
     // |first_n_powers| = [ 1, b, b², b³,..., b⁶, b⁷ ], where b is an extension
     // field of |base|.
-- 
2.43.0


From df43ee10a46820cc2d12fa0f92ac5a99ed119896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 047/116] fix: scan both GLV half scalars from the same bit
 position

GLV::Mul walked the limbs of k1 and k2 with two iterators that start at
the top of each value's own limbs, so the halves were misaligned whenever
they have a different number of limbs, and k2 was ignored when k1 is zero.
---
 tachyon/math/elliptic_curves/msm/glv.h | 35 +++++++++++++-------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..92a5598 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,7 +6,10 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
-#include "tachyon/math/base/bit_iterator.h"
+#include <stddef.h>
+
+#include <algorithm>
+
 #include "tachyon/math/base/gmp/bit_traits.h"
 #include "tachyon/math/base/gmp/signed_value.h"
 #include "tachyon/math/elliptic_curves/semigroups.h"
@@ -84,36 +87,32 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
-    auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
+    // NOTE: |k1| and |k2| can differ in the number of bits, so they must be
+    // scanned from the same bit position.
+    const mpz_class& k1 = result.k1.abs_value;
+    const mpz_class& k2 = result.k2.abs_value;
+    size_t num_bits = std::max(BitTraits<mpz_class>::GetNumBits(k1),
+                               BitTraits<mpz_class>::GetNumBits(k2));
 
     RetPoint ret = RetPoint::Zero();
     bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
-    while (k1_it != k1_end) {
-      if (skip_zeros && !(*k1_it) && !(*k2_it)) {
-        skip_zeros = false;
-        ++k1_it;
-        ++k2_it;
-        continue;
-      }
+    for (size_t i = num_bits; i-- > 0;) {
+      bool k1_bit = BitTraits<mpz_class>::TestBit(k1, i);
+      bool k2_bit = BitTraits<mpz_class>::TestBit(k2, i);
+      if (skip_zeros && !k1_bit && !k2_bit) continue;
       skip_zeros = false;
       ret.DoubleInPlace();
-      if ((*k1_it)) {
-        if (*(k2_it)) {
+      if (k1_bit) {
+        if (k2_bit) {
           ret += b1b2;
         } else {
           ret += b1;
         }
       } else {
-        if (*(k2_it)) {
+        if (k2_bit) {
           ret += b2;
         }
       }
-      ++k1_it;
-      ++k2_it;
     }
     return ret;
   }
-- 
2.43.0


From 7ed2eb7310c2905ade6bfaddd1f3c191a8c43666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 048/116] fix: Support BN curves with a negative x in the curve
 generator

---
 tachyon/math/elliptic_curves/bn/generator/generator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/elliptic_curves/bn/generator/generator.cc b/tachyon/math/elliptic_curves/bn/generator/generator.cc
index d25745d..2138900 100644
--- a/tachyon/math/elliptic_curves/bn/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/bn/generator/generator.cc
@@ -19,7 +19,9 @@ std::vector<int8_t> ComputeAteLoopCount(const mpz_class& six_x_plus_2) {
 }
 
 std::vector<int8_t> ComputeAteLoopCount(const mpz_class& x) {
-  mpz_class six_x_plus_2 = mpz_class(6) * x + mpz_class(2);
+  // NOTE: |x| can be negative. The sign is applied with |kXIsNegative|.
+  mpz_class six_x_plus_2 =
+      math::gmp::GetAbs(mpz_class(6) * x + mpz_class(2));
   size_t limb_size = math::gmp::GetLimbSize(six_x_plus_2);
   switch (limb_size) {
     case 1:
@@ -74,12 +76,12 @@ int GenerationConfig::GenerateConfigHdr() const {
   mpz_class x_mpz = math::gmp::FromDecString(x);
   replace_map["%{x_is_negative}"] =
       base::BoolToString(math::gmp::IsNegative(x_mpz));
+  std::vector<int8_t> ate_loop_count = ComputeAteLoopCount(x_mpz);
   x_mpz = math::gmp::GetAbs(x_mpz);
   replace_map["%{x}"] = math::MpzClassToString(x_mpz);
   replace_map["%{x_size}"] =
       base::NumberToString(math::gmp::GetLimbSize(x_mpz));
 
-  std::vector<int8_t> ate_loop_count = ComputeAteLoopCount(x_mpz);
   replace_map["%{ate_loop_count}"] = absl::StrJoin(ate_loop_count, ", ");
 
   replace_map["%{twist_mul_by_q_x_init_code}"] =
-- 
2.43.0


From 55ae974641ae6598b588a65d2f1b94feb865765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 049/116] fix: Skip leading zeros of x when preparing G2 of
 BLS12 curves

---
 tachyon/math/elliptic_curves/bls12/g2_prepared.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/bls12/g2_prepared.h b/tachyon/math/elliptic_curves/bls12/g2_prepared.h
index 207f3e9..874aa2a 100644
--- a/tachyon/math/elliptic_curves/bls12/g2_prepared.h
+++ b/tachyon/math/elliptic_curves/bls12/g2_prepared.h
@@ -45,7 +45,7 @@ class G2Prepared : public G2PreparedBase<BLS12CurveConfig> {
       G2Projective<Config> r(q.x(), q.y(), Fp2::One());
       auto it = BitIteratorBE<BigInt<Config::kXLimbNums>>::begin(
           &Config::kX,
-          /*skip_leading_zeros=*/false);
+          /*skip_leading_zeros=*/true);
       ++it;
       auto end = BitIteratorBE<BigInt<Config::kXLimbNums>>::end(&Config::kX);
       while (it != end) {
-- 
2.43.0


From 62e7737824d81355932ba6fc7f402c4c60012d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 050/116] fix: Support shrinking in ParallelizeResize with a
 value

---
 tachyon/base/parallelize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/parallelize.h b/tachyon/base/parallelize.h
index 281898d..2be208d 100644
--- a/tachyon/base/parallelize.h
+++ b/tachyon/base/parallelize.h
@@ -311,6 +311,7 @@ void ParallelizeResize(Container& container, size_t size,
   if (container.capacity() > size) {
     size_t old_size = container.size();
     container.resize(size);
+    if (size <= old_size) return;
     auto init_span = absl::MakeSpan(container).last(size - old_size);
     Parallelize(
         init_span,
-- 
2.43.0


From 097c3f7f490be89fa42c0e7f8026366366b15430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 051/116] fix: Make ReadManyAt and WriteManyAt advance past
 each value

---
 tachyon/base/buffer/buffer.h           | 2 +-
 tachyon/base/buffer/read_only_buffer.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..6579f3e 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -128,7 +128,7 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteManyAt(size_t buffer_offset, const T& value,
                                  const Args&... args) {
     if (!WriteAt(buffer_offset, value)) return false;
-    return WriteManyAt(buffer_offset, args...);
+    return WriteMany(args...);
   }
 
   [[nodiscard]] virtual bool Grow(size_t size) { return false; }
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..6e4e5ad 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -199,7 +199,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
     return ReadMany(std::forward<Args>(args)...);
   }
 
-  template <typename T, size_t N>
+  template <typename T>
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value) const {
     return ReadAt(buffer_offset, std::forward<T>(value));
   }
@@ -208,7 +208,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value,
                                 Args&&... args) const {
     if (!ReadAt(buffer_offset, std::forward<T>(value))) return false;
-    return ReadManyAt(buffer_offset, std::forward<Args>(args)...);
+    return ReadMany(std::forward<Args>(args)...);
   }
 
  protected:
-- 
2.43.0


From e0c2850fde0e729b845cab884f6d20c620a4e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:14 +0000
Subject: [PATCH 052/116] fix: Keep the bits of floating point numbers written
 with an endian

---
 tachyon/base/buffer/buffer.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 6579f3e..cafdbe5 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -1,6 +1,8 @@
 #ifndef TACHYON_BASE_BUFFER_BUFFER_H_
 #define TACHYON_BASE_BUFFER_BUFFER_H_
 
+#include <string.h>
+
 #include "tachyon/base/buffer/read_only_buffer.h"
 
 namespace tachyon::base {
@@ -84,11 +86,14 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
             std::enable_if_t<internal::IsBuiltinSerializable<T>::value && \
                              (sizeof(T) == bytes)>* = nullptr>            \
   [[nodiscard]] bool WriteAt(size_t buffer_offset, T value) {             \
+    /* Keeps the bits of |value|, which can be a floating point number. */ \
+    type bits_value;                                                      \
+    memcpy(&bits_value, &value, bytes);                                   \
     switch (endian_) {                                                    \
       case Endian::kBig:                                                  \
-        return Write##bits##BEAt(buffer_offset, value);                   \
+        return Write##bits##BEAt(buffer_offset, bits_value);              \
       case Endian::kLittle:                                               \
-        return Write##bits##LEAt(buffer_offset, value);                   \
+        return Write##bits##LEAt(buffer_offset, bits_value);              \
       case Endian::kNative:                                               \
         return WriteAt(buffer_offset,                                     \
                        reinterpret_cast<const uint8_t*>(&value), bytes);  \
-- 
2.43.0


From dc1095bc99da11494584801696834a4e477ae47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:14 +0000
Subject: [PATCH 053/116] fix: Keep endian and small string data when moving
 buffers

---
 tachyon/base/buffer/read_only_buffer.h |  4 +++-
 tachyon/base/buffer/string_buffer.h    | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 6e4e5ad..3f25a1e 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -45,10 +45,12 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   ReadOnlyBuffer(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer& operator=(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer(ReadOnlyBuffer&& other)
-      : buffer_(std::exchange(other.buffer_, nullptr)),
+      : endian_(other.endian_),
+        buffer_(std::exchange(other.buffer_, nullptr)),
         buffer_offset_(std::exchange(other.buffer_offset_, 0)),
         buffer_len_(std::exchange(other.buffer_len_, 0)) {}
   ReadOnlyBuffer& operator=(ReadOnlyBuffer&& other) {
+    endian_ = other.endian_;
     buffer_ = std::exchange(other.buffer_, nullptr);
     buffer_offset_ = std::exchange(other.buffer_offset_, 0);
     buffer_len_ = std::exchange(other.buffer_len_, 0);
diff --git a/tachyon/base/buffer/string_buffer.h b/tachyon/base/buffer/string_buffer.h
index e26b543..c1fc573 100644
--- a/tachyon/base/buffer/string_buffer.h
+++ b/tachyon/base/buffer/string_buffer.h
@@ -15,10 +15,13 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
   StringBuffer& operator=(const StringBuffer& other) = delete;
   StringBuffer(StringBuffer&& other)
       : Buffer(std::move(other)),
-        owned_buffer_(std::move(other.owned_buffer_)) {}
+        owned_buffer_(std::move(other.owned_buffer_)) {
+    UpdateBuffer();
+  }
   StringBuffer& operator=(StringBuffer&& other) {
     Buffer::operator=(std::move(other));
     owned_buffer_ = std::move(other.owned_buffer_);
+    UpdateBuffer();
     return *this;
   }
   ~StringBuffer() override = default;
@@ -29,12 +32,18 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
 
   [[nodiscard]] bool Grow(size_t size) override {
     owned_buffer_.resize(size);
-    buffer_ = owned_buffer_.data();
-    buffer_len_ = owned_buffer_.size();
+    UpdateBuffer();
     return true;
   }
 
  protected:
+  // NOTE: A small string is stored inside of |owned_buffer_|, so that its data
+  // doesn't stay at the same address when it is moved.
+  void UpdateBuffer() {
+    buffer_ = owned_buffer_.data();
+    buffer_len_ = owned_buffer_.size();
+  }
+
   std::string owned_buffer_;
 };
 
-- 
2.43.0


From 62c956e1f90b26e5c2e2e2870f49a691e4acedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:14 +0000
Subject: [PATCH 054/116] fix: Check overflow of the size in ReadPtrAt

---
 tachyon/base/buffer/read_only_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 3f25a1e..e9dfbff 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -139,7 +139,8 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
+    size_t size;
+    if (!base::CheckMul(sizeof(T), ptr_num).AssignIfValid(&size)) return false;
     base::CheckedNumeric<size_t> len = buffer_offset;
     size_t size_needed;
     if (!(len + size).AssignIfValid(&size_needed)) return false;
-- 
2.43.0


From 5e7e7159ecaee0084c46590876d645dadae4368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:14 +0000
Subject: [PATCH 055/116] fix: Serialize every byte of wide strings

---
 tachyon/base/buffer/copyable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..18ef5f6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,7 +67,7 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -75,11 +75,12 @@ class Copyable<std::basic_string<CharTy>> {
     size_t size;
     if (!buffer.Read(&size)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
-- 
2.43.0


From 4c850c24783735b76647e0e4ad9d72ccf77c76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:22 +0000
Subject: [PATCH 056/116] fix: Reject the size of a container larger than the
 buffer

---
 tachyon/base/buffer/copyable.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 18ef5f6..afa6618 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_BASE_BUFFER_COPYABLE_H_
 #define TACHYON_BASE_BUFFER_COPYABLE_H_
 
+#include <algorithm>
 #include <array>
 #include <numeric>
 #include <string>
@@ -74,6 +75,9 @@ class Copyable<std::basic_string<CharTy>> {
                        std::basic_string<CharTy>* value) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    // Don't allocate more than what can be read.
+    size_t remaining = buffer.buffer_len() - buffer.buffer_offset();
+    if (size > remaining / sizeof(CharTy)) return false;
     value->resize(size);
     return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
                        size * sizeof(CharTy));
@@ -148,9 +152,12 @@ class Copyable<std::vector<T>> {
   static bool ReadFrom(const ReadOnlyBuffer& buffer, std::vector<T>* values) {
     size_t size;
     if (!buffer.Read(&size)) return false;
-    values->resize(size);
-    for (T& value : (*values)) {
-      if (!buffer.Read(&value)) return false;
+    // Don't allocate more than what can be read.
+    size_t remaining = buffer.buffer_len() - buffer.buffer_offset();
+    values->clear();
+    values->reserve(std::min(size, remaining));
+    for (size_t i = 0; i < size; ++i) {
+      if (!buffer.Read(&values->emplace_back())) return false;
     }
     return true;
   }
-- 
2.43.0


From f69be66d376eee8abf797158090d97b3c1ca1d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 057/116] fix: Reject the size of a matrix larger than the
 buffer

---
 tachyon/math/matrix/matrix_types.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tachyon/math/matrix/matrix_types.h b/tachyon/math/matrix/matrix_types.h
index 20f468a..8e18411 100644
--- a/tachyon/math/matrix/matrix_types.h
+++ b/tachyon/math/matrix/matrix_types.h
@@ -71,6 +71,11 @@ class Copyable<Eigen::Matrix<Field, Rows, Cols, Options, MaxRows, MaxCols>> {
     Eigen::Index rows, cols;
     Matrix matrix_tmp;
     if (!buffer.ReadMany(&rows, &cols)) return false;
+    if (rows < 0 || cols < 0) return false;
+    // Don't allocate more than what can be read.
+    Eigen::Index remaining = static_cast<Eigen::Index>(buffer.buffer_len() -
+                                                       buffer.buffer_offset());
+    if (cols != 0 && rows > remaining / cols) return false;
     if (Rows != Eigen::Dynamic && Cols != Eigen::Dynamic) {
       if (rows != Rows || cols != Cols) return false;
     } else if (Rows != Eigen::Dynamic) {
@@ -132,6 +137,12 @@ class Copyable<Eigen::DiagonalMatrix<Field, Size, MaxSize>> {
     Eigen::Index size;
     DiagonalVector vector_tmp;
     if (!buffer.ReadMany(&size)) return false;
+    if (size < 0) return false;
+    // Don't allocate more than what can be read.
+    if (static_cast<size_t>(size) >
+        buffer.buffer_len() - buffer.buffer_offset()) {
+      return false;
+    }
     if (Size != Eigen::Dynamic) {
       if (size != Size) return false;
     } else {
-- 
2.43.0


From c5c79fdf6656c92080e137b33426a74bf2ae68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 058/116] fix: Reject malformed polynomials and MDS matrices
 when reading

---
 tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h     | 1 +
 .../polynomials/multivariate/multilinear_dense_evaluations.h  | 3 +++
 .../polynomials/univariate/univariate_dense_coefficients.h    | 1 +
 tachyon/math/polynomials/univariate/univariate_evaluations.h  | 1 +
 .../polynomials/univariate/univariate_sparse_coefficients.h   | 4 ++++
 5 files changed, 10 insertions(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h b/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h
index 46dec70..b92c986 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h
@@ -123,6 +123,7 @@ class Copyable<crypto::SparseMDSMatrix<F>> {
     if (!buffer.ReadMany(&row, &col_hat)) {
       return false;
     }
+    if (row.size() != col_hat.size() + 1) return false;
 
     *matrix = {std::move(row), std::move(col_hat)};
     return true;
diff --git a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
index fda7c47..5d179ea 100644
--- a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
+++ b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
@@ -229,6 +229,9 @@ class Copyable<math::MultilinearDenseEvaluations<F, MaxDegree>> {
                        math::MultilinearDenseEvaluations<F, MaxDegree>* evals) {
     std::vector<F> evaluations;
     if (!buffer.Read(&evaluations)) return false;
+    if (base::bits::SafeLog2Ceiling(evaluations.size()) > MaxDegree) {
+      return false;
+    }
     *evals =
         math::MultilinearDenseEvaluations<F, MaxDegree>(std::move(evaluations));
     return true;
diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0c79a9a..10b7e39 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -319,6 +319,7 @@ class Copyable<math::UnivariateDenseCoefficients<F, MaxDegree>> {
       math::UnivariateDenseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<F> raw_coeff;
     if (!buffer.Read(&raw_coeff)) return false;
+    if (!raw_coeff.empty() && raw_coeff.size() - 1 > MaxDegree) return false;
     *coeffs =
         math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(raw_coeff));
     return true;
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluations.h b/tachyon/math/polynomials/univariate/univariate_evaluations.h
index 6955448..e99aa77 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluations.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluations.h
@@ -299,6 +299,7 @@ class Copyable<math::UnivariateEvaluations<F, MaxDegree>> {
                        math::UnivariateEvaluations<F, MaxDegree>* evals) {
     std::vector<F> evals_vec;
     if (!buffer.Read(&evals_vec)) return false;
+    if (!evals_vec.empty() && evals_vec.size() - 1 > MaxDegree) return false;
     *evals = math::UnivariateEvaluations<F, MaxDegree>(evals_vec);
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 364c6d7..84f2613 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -356,6 +356,10 @@ class Copyable<math::UnivariateSparseCoefficients<F, MaxDegree>> {
       math::UnivariateSparseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!buffer.Read(&terms)) return false;
+    for (size_t i = 1; i < terms.size(); ++i) {
+      if (terms[i - 1].degree >= terms[i].degree) return false;
+    }
+    if (!terms.empty() && terms.back().degree > MaxDegree) return false;
     *coeffs = math::UnivariateSparseCoefficients<F, MaxDegree>(terms);
     return true;
   }
-- 
2.43.0


From 83f92d0b6534dc6ae39efea00d7be7086c344641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 059/116] fix: Reject prime field elements not less than the
 modulus

---
 tachyon/math/finite_fields/prime_field_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 1995b6c..a1e23bb 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -215,6 +215,7 @@ class Copyable<
   static bool ReadFrom(const ReadOnlyBuffer& buffer, T* prime_field) {
     value_type v;
     if (!buffer.Read(&v)) return false;
+    if (v >= value_type(T::Config::kModulus)) return false;
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *prime_field = T::FromMontgomery(v);
-- 
2.43.0


From d9c8ac45de597a0d036692da28353e60cdd94503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 060/116] fix: Serialize internal shifts of Poseidon2Config

---
 .../hashes/sponge/poseidon2/poseidon2_config.h      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..512f7b9 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -166,25 +166,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
     *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    config->internal_shifts = std::move(internal_shifts);
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From 42d6dba52cb7c119bcd01f1228f58dfb980a343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 061/116] fix: Initialize unused round constants of Poseidon2

---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 512f7b9..9f53b6d 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -40,6 +40,7 @@ void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
     if (i < partial_rounds_start || i >= partial_rounds_end) {
       ark.row(i) = lfsr.GetFieldElementsRejectionSampling(config.state_len);
     } else {
+      ark.row(i).setZero();
       ark.row(i)[0] = lfsr.GetFieldElementsRejectionSampling(1)[0];
     }
   }
-- 
2.43.0


From 18a38fd1c605c20e460429c6fcec1b9217d26431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 062/116] fix: Keep strings with embedded null characters in
 JSON

---
 tachyon/base/json/rapidjson_util.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 17d3384..c275aec 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -194,7 +194,7 @@ class RapidJsonValueConverter<std::string> {
       *error = RapidJsonMismatchedTypeError(key, "string", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = std::string(json_value.GetString(), json_value.GetStringLength());
     return true;
   }
 };
@@ -213,7 +213,8 @@ class RapidJsonValueConverter<std::string_view> {
       *error = RapidJsonMismatchedTypeError(key, "string_view", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value =
+        std::string_view(json_value.GetString(), json_value.GetStringLength());
     return true;
   }
 };
@@ -430,7 +431,7 @@ Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
 operator<<(Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
                writer,
            std::string_view value) {
-  writer.String(value.data());
+  writer.String(value.data(), static_cast<SizeType>(value.length()));
   return writer;
 }
 
-- 
2.43.0


From 4bb42f3abc36e502d5e97a1f281f03fcd83ac85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 063/116] fix: Look up JSON members by the whole key in objects
 only

---
 tachyon/base/json/rapidjson_util.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index c275aec..6a87f6c 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -345,7 +345,12 @@ void AddJsonElement(rapidjson::Value& json_value, std::string_view key,
 template <typename T>
 bool ParseJsonElement(const rapidjson::Value& json_value, std::string_view key,
                       T* value, std::string* error) {
-  auto it = json_value.FindMember(key.data());
+  if (!json_value.IsObject()) {
+    *error = RapidJsonMismatchedTypeError(key, "object", json_value);
+    return false;
+  }
+  auto it = json_value.FindMember(
+      rapidjson::Value(rapidjson::StringRef(key.data(), key.length())));
   if (it == json_value.MemberEnd()) {
     *error = absl::Substitute("\"$0\" key is not found", key);
     return false;
-- 
2.43.0


From 7802767e5ee09dc660217005d43b678a012e67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 064/116] fix: Parse JSON numbers in full precision and
 non-object roots

---
 tachyon/base/json/json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 82a3388..e6e9cfc 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -17,7 +17,8 @@ namespace tachyon::base {
 template <typename T>
 bool ParseJson(std::string_view content, T* value, std::string* error) {
   rapidjson::Document document;
-  document.Parse(content.data(), content.length());
+  document.Parse<rapidjson::kParseFullPrecisionFlag>(content.data(),
+                                                     content.length());
   if (document.HasParseError()) {
     *error =
         absl::Substitute("Failed to parse with error \"$0\" at offset $1",
@@ -25,7 +26,7 @@ bool ParseJson(std::string_view content, T* value, std::string* error) {
                          document.GetErrorOffset());
     return false;
   }
-  return RapidJsonValueConverter<T>::To(document.GetObject(), "", value, error);
+  return RapidJsonValueConverter<T>::To(document, "", value, error);
 }
 
 // Load from file and parse json string and populate |value| on success.
-- 
2.43.0


From 3da4b395a842c8ca296be6bf568260e4c24ca6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 065/116] fix: Name the key in the JSON array length error

---
 tachyon/base/json/rapidjson_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 6a87f6c..ae33a18 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -260,7 +260,7 @@ class RapidJsonValueConverter<std::array<T, N>> {
       return false;
     }
     if (N != json_value.Size()) {
-      *error = absl::Substitute("The length of json($0) is not $1",
+      *error = absl::Substitute("The length of \"$0\"($1) is not $2", key,
                                 json_value.Size(), N);
       return false;
     }
-- 
2.43.0


From 8396433849d42946ea8c1ebacaae1e32c3d8a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 066/116] fix: Report hexadecimal parse errors of BigInt in
 JSON

---
 tachyon/math/base/big_int.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index fb3643b..d5dfb86 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1220,7 +1220,11 @@ class RapidJsonValueConverter<math::BigInt<N>> {
       return false;
     std::optional<math::BigInt<N>> tmp =
         math::BigInt<N>::FromHexString(value_str);
-    if (!tmp.has_value()) return false;
+    if (!tmp.has_value()) {
+      *error = absl::Substitute(
+          "\"$0\" is not a hexadecimal string of at most $1 bits", key, N * 64);
+      return false;
+    }
     *value = std::move(tmp).value();
     return true;
   }
-- 
2.43.0


From 1957768bd12f445129420584a6442177e467d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 067/116] fix: Reject prime field elements not less than the
 modulus in JSON

---
 tachyon/math/finite_fields/prime_field_base.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index a1e23bb..66c3a0b 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -277,6 +277,15 @@ class RapidJsonValueConverter<
     if (!RapidJsonValueConverter<value_type>::To(json_value, key, &v, error))
       return false;
 
+    if (v >= value_type(T::Config::kModulus)) {
+      if constexpr (T::Config::kModulusBits <= 32) {
+        *error = RapidJsonOutOfRangeError(key, v);
+      } else {
+        *error = RapidJsonOutOfRangeError(key, v.ToHexString());
+      }
+      return false;
+    }
+
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *value = T::FromMontgomery(v);
-- 
2.43.0


From 8ed29ca93420b1fb6973a88f2ded61c2610ba41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:42 +0000
Subject: [PATCH 068/116] fix: Check degrees of polynomials read from JSON

---
 .../univariate/univariate_dense_coefficients.h       |  5 +++++
 .../polynomials/univariate/univariate_evaluations.h  |  5 +++++
 .../univariate/univariate_sparse_coefficients.h      | 12 ++++++++++++
 3 files changed, 22 insertions(+)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 10b7e39..7b929de 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -349,6 +349,11 @@ class RapidJsonValueConverter<math::UnivariateDenseCoefficients<F, MaxDegree>> {
     std::vector<F> coeffs;
     if (!ParseJsonElement(json_value, "coefficients", &coeffs, error))
       return false;
+    if (!coeffs.empty() && coeffs.size() - 1 > MaxDegree) {
+      *error = absl::Substitute("the degree of \"$0\" is greater than $1",
+                                "coefficients", MaxDegree);
+      return false;
+    }
     *value = math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(coeffs));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluations.h b/tachyon/math/polynomials/univariate/univariate_evaluations.h
index e99aa77..1665500 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluations.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluations.h
@@ -328,6 +328,11 @@ class RapidJsonValueConverter<math::UnivariateEvaluations<F, MaxDegree>> {
     std::vector<F> evals;
     if (!ParseJsonElement(json_value, "evaluations", &evals, error))
       return false;
+    if (!evals.empty() && evals.size() - 1 > MaxDegree) {
+      *error = absl::Substitute("the degree of \"$0\" is greater than $1",
+                                "evaluations", MaxDegree);
+      return false;
+    }
     *value = math::UnivariateEvaluations<F, MaxDegree>(std::move(evals));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 84f2613..d146449 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -413,6 +413,18 @@ class RapidJsonValueConverter<
                  std::string* error) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!ParseJsonElement(json_value, "terms", &terms, error)) return false;
+    for (size_t i = 1; i < terms.size(); ++i) {
+      if (terms[i - 1].degree >= terms[i].degree) {
+        *error = absl::Substitute(
+            "\"$0\" are not in ascending order of degree", "terms");
+        return false;
+      }
+    }
+    if (!terms.empty() && terms.back().degree > MaxDegree) {
+      *error = absl::Substitute("the degree of \"$0\" is greater than $1",
+                                "terms", MaxDegree);
+      return false;
+    }
     *value = math::UnivariateSparseCoefficients<F, MaxDegree>(std::move(terms));
     return true;
   }
-- 
2.43.0


From 1b59dfb71029bdff8f8c5f8884245d828f193a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:07 +0000
Subject: [PATCH 069/116] fix: Write 64-bit integers to rapidjson writers
 without truncation

---
 tachyon/base/json/rapidjson_util.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index ae33a18..f96c089 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -401,7 +401,11 @@ Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
 operator<<(Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
                writer,
            T value) {
-  writer.Int(value);
+  if constexpr (sizeof(T) > sizeof(int)) {
+    writer.Int64(value);
+  } else {
+    writer.Int(value);
+  }
   return writer;
 }
 
@@ -415,7 +419,11 @@ Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
 operator<<(Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
                writer,
            T value) {
-  writer.Uint(value);
+  if constexpr (sizeof(T) > sizeof(unsigned)) {
+    writer.Uint64(value);
+  } else {
+    writer.Uint(value);
+  }
   return writer;
 }
 
-- 
2.43.0


From 915e258a2d876c7d28265bf8680cc68807a91a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 070/116] fix: Report a missing value of the last flag

---
 tachyon/base/flag/flag_parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 19c76f2..c80890d 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -120,6 +120,7 @@ bool FlagParserBase::Context::ConsumeEqualOrProceed(std::string_view* arg) {
   if (ConsumePrefix(arg, "=")) return true;
   if (!arg->empty()) return false;
   Proceed();
+  if (!HasArg()) return false;
   *arg = current();
   return true;
 }
-- 
2.43.0


From 1e8c91f373cda2eae203bc2bc72fd9b6c90557e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 071/116] fix: Set concatenated flags only if all of them are
 known

---
 tachyon/base/flag/flag_parser.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index c80890d..537a902 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -3,7 +3,6 @@
 #include <iostream>
 #include <limits>
 #include <string>
-#include <tuple>
 #include <utility>
 
 namespace tachyon::base {
@@ -285,27 +284,35 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
     } else {
       std::string_view new_arg = arg;
       if (ConsumePrefix(&new_arg, "-")) {
-        if ((ContainsOnlyAlpha(new_arg))) {
+        if (!new_arg.empty() && ContainsOnlyAlpha(new_arg)) {
           // Flags can be passed like '-ab' if '-a' and '-b' are valid short
           // names and don't need values. For this special case, we have to
           // treat differently.
-          bool all_parsed =
-              std::all_of(new_arg.begin(), new_arg.end(), [this](char c) {
+          std::vector<FlagBase*> short_flags;
+          bool all_found = std::all_of(
+              new_arg.begin(), new_arg.end(), [this, &short_flags](char c) {
                 for (auto& flag : flags_) {
                   if (flag->is_positional()) continue;
                   if (flag->NeedsValue()) continue;
                   if (flag->short_name().length() == 2 &&
                       c == flag->short_name()[1]) {
-                    bool parsed = flag->ParseValue("", nullptr);
-                    std::ignore = parsed;
-                    DCHECK(parsed);
+                    short_flags.push_back(flag.get());
                     return true;
                   }
                 }
 
                 return false;
               });
-          if (all_parsed) {
+          if (all_found) {
+            for (FlagBase* flag : short_flags) {
+              std::string reason;
+              if (!flag->ParseValue("", &reason)) {
+                *error = absl::Substitute(
+                    "\"$0\" is failed to parse: (reason: $1).",
+                    flag->display_name(), reason.empty() ? "unknown" : reason);
+                return false;
+              }
+            }
             ctx.Proceed();
             continue;
           }
-- 
2.43.0


From d805a4730463773aeb611e0e4b897fed833ddd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 072/116] fix: Reject values given to flags that do not take
 one

---
 tachyon/base/flag/flag_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 537a902..6fe53e7 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -347,6 +347,12 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
               target_flag->display_name());
           return false;
         }
+        if (!target_flag->NeedsValue() && !arg.empty()) {
+          *error = absl::Substitute(
+              "\"$0\" is failed to parse: (reason: it doesn't take a value).",
+              target_flag->display_name());
+          return false;
+        }
         parsed = target_flag->ParseValue(arg, &reason);
       }
     } else {
-- 
2.43.0


From 4011ac09c114bb327c69b31fd140981efbe679fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 073/116] fix: Enforce required flags before -- and subcommands

---
 tachyon/base/flag/flag_parser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 6fe53e7..6c36df2 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -248,7 +248,9 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
           ctx.forward_argv->emplace_back(ctx.argv[i]);
         }
       }
-      return true;
+      // There is nothing left to parse, neither for parent parsers.
+      ctx.current_idx = ctx.argc;
+      break;
     }
 
     if (arg == "--help" || arg == "-h") {
@@ -336,7 +338,9 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
         SubParser* sub_parser = target_flag->ToSubParser();
         if (sub_parser->is_set_) *sub_parser->is_set_ = true;
         ctx.Proceed();
-        return target_flag->ToSubParser()->Parse(ctx, error);
+        if (!sub_parser->Parse(ctx, error)) return false;
+        // |sub_parser| consumes all the remaining arguments.
+        break;
       } else if (target_flag->is_positional()) {
         parsed = target_flag->ParseValue(arg, &reason);
         positional_parsed++;
-- 
2.43.0


From 124783550f7c67fba0a6cf456c4f0142ffb7dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 074/116] fix: Report failures of ParseKnown and validate after
 it

---
 tachyon/base/flag/flag_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 6c36df2..c1262f0 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -487,7 +487,7 @@ bool FlagParser::ParseKnownWithForward(int* argc, char** argv,
   Context ctx(this, 1, *argc, argv);
   ctx.unknown_argc = argc;
   ctx.forward_argv = forward;
-  if (!FlagParserBase::Parse(ctx, error) && Validate(error)) return false;
+  if (!(FlagParserBase::Parse(ctx, error) && Validate(error))) return false;
   ctx.FillUnknownArgs();
   return true;
 }
-- 
2.43.0


From 65d1f8776e7642f36168b18d09d5fcf2f37b215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:04 +0000
Subject: [PATCH 075/116] fix: Match short flag names with whole arguments

---
 tachyon/base/flag/flag.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/flag/flag.cc b/tachyon/base/flag/flag.cc
index 7dc7b09..41508bc 100644
--- a/tachyon/base/flag/flag.cc
+++ b/tachyon/base/flag/flag.cc
@@ -78,6 +78,7 @@ bool FlagBase::ConsumeNamePrefix(FlagParserBase& parser,
       }
     }
   }
+  input = *arg;
   if (!short_name_.empty()) {
     if (ConsumePrefix(&input, short_name_)) {
       if (input.empty() || input[0] == '=') {
-- 
2.43.0


From 5945d633328da4357d1a77e6b08a7d51c66a2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 076/116] fix: Build binary Merkle trees from single leaf
 subtrees

A single leaf, either as the whole tree or as a parallel chunk, was paired with
the node after it, which read and wrote outside the tree.
---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..679bc24 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -143,13 +143,15 @@ class BinaryMerkleTree final
   }
 
   void BuildTreeFromLeaves(base::Range<size_t> range) const {
-    while (range.GetSize() > 0) {
+    // NOTE: A range with a single node is the root of the subtree being built,
+    // which has nothing above it to compute.
+    while (range.GetSize() > 1) {
       for (size_t i = range.from; i < range.to; i += 2) {
         storage_->SetHash(i >> 1,
                           hasher_->ComputeParentHash(storage_->GetHash(i),
                                                      storage_->GetHash(i + 1)));
       }
-      range = base::Range<size_t>(range.from >> 1, (range.to >> 1) - 1);
+      range = base::Range<size_t>(range.from >> 1, range.to >> 1);
     }
   }
 
-- 
2.43.0


From 17c9ee482791a2219ba582cbe4736c65215ce0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:07 +0000
Subject: [PATCH 077/116] fix: Reject openings of binary Merkle tree leaves out
 of range

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 679bc24..9640814 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -89,6 +89,10 @@ class BinaryMerkleTree final
   [[nodiscard]] bool DoCreateOpeningProof(size_t index,
                                           BinaryMerkleProof<Hash>* proof) {
     size_t size = storage_->GetSize();
+    if (index >= (size + 1) >> 1) {
+      LOG(ERROR) << "Leaf index is out of range";
+      return false;
+    }
     index = (size >> 1) + index;
     proof->paths.resize(base::bits::Log2Floor(size));
     size_t i = 0;
-- 
2.43.0


From 4b7f15a5a465ffefd5c869eaa95626cf24ba8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:49 +0000
Subject: [PATCH 078/116] fix: Reject openings of field Merkle tree rows out of
 range

---
 .../field_merkle_tree/field_merkle_tree_mmcs.h        | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 20829be..5fe5b00 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -139,6 +139,17 @@ class FieldMerkleTreeMMCS final
     size_t max_row_size = this->GetMaxRowSize(prover_data);
     uint32_t log_max_row_size = base::bits::Log2Ceiling(max_row_size);
 
+    for (const Eigen::Map<const math::RowMajorMatrix<F>>& matrix :
+         prover_data.leaves()) {
+      size_t row_size = static_cast<size_t>(matrix.rows());
+      uint32_t bits_reduced =
+          log_max_row_size - base::bits::Log2Ceiling(row_size);
+      if (index >> bits_reduced >= row_size) {
+        LOG(ERROR) << "Row index is out of range";
+        return false;
+      }
+    }
+
     // TODO(chokobole): Is it able to be parallelized?
     *openings = base::Map(
         prover_data.leaves(),
-- 
2.43.0


From 53fe1a306eb5b48cd21d3a744d589771b2701937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:49 +0000
Subject: [PATCH 079/116] fix: Reject field Merkle tree proofs of a wrong shape

An index beyond the tree verified like the index without its high bits, and
dimensions which do not match the length of the proof were accepted.
---
 .../merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 5fe5b00..34f0c30 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -197,6 +197,13 @@ class FieldMerkleTreeMMCS final
 
     size_t next_layer =
         absl::bit_ceil(remaining_dimensions_list.front().dimensions.height);
+    // The path from the leaf at |index| to the root must have exactly as many
+    // siblings as the tree of the given dimensions has layers below the root.
+    if (index >= next_layer ||
+        proof.size() != static_cast<size_t>(
+                            base::bits::Log2Ceiling(next_layer))) {
+      return false;
+    }
     size_t next_layer_size = CountLayers(next_layer, remaining_dimensions_list);
     Digest root = hasher_.Hash(GetOpenedValuesAsPrimeFieldVectors(
         opened_values, remaining_dimensions_list.subspan(0, next_layer_size)));
-- 
2.43.0


From 3b8b23a5cf9a6cb499868e00b1b2457cecad5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:47 +0000
Subject: [PATCH 080/116] fix: Size Poseidon parameters by the whole width of
 the state

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h     | 2 +-
 .../hashes/sponge/poseidon/poseidon_config_entry_base.h     | 4 ++--
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h   | 6 ++++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
index 2996fd7..0ccc66b 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
@@ -100,7 +100,7 @@ struct PoseidonConfig : public PoseidonConfigBase<Params> {
                                      Params::kFullRounds,
                                      Params::kPartialRounds, skip_matrices);
     PoseidonConfig ret = config_entry.ToPoseidonConfig<Params>();
-    FindPoseidonARKAndMDS<F>(config_entry.ToPoseidonGrainLFSRConfig<F>(),
+    FindPoseidonARKAndMDS<F>(config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity),
                              skip_matrices, ret.ark, ret.mds);
     OptimizeARK<Params::kFullRounds, Params::kPartialRounds>(ret.mds, ret.ark);
     ComputeSparseMatrices<Params::kPartialRounds>(ret.mds, ret.pre_sparse_mds,
diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
index 84249a6..4bdea95 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
@@ -37,12 +37,12 @@ struct TACHYON_EXPORT PoseidonConfigEntryBase {
         partial_rounds(partial_rounds) {}
 
   template <typename F>
-  PoseidonGrainLFSRConfig ToPoseidonGrainLFSRConfig() const {
+  PoseidonGrainLFSRConfig ToPoseidonGrainLFSRConfig(size_t capacity) const {
     using PrimeField = math::MaybeUnpack<F>;
 
     PoseidonGrainLFSRConfig config;
     config.prime_num_bits = PrimeField::kModulusBits;
-    config.state_len = rate + 1;
+    config.state_len = rate + capacity;
     config.num_full_rounds = full_rounds;
     config.num_partial_rounds = partial_rounds;
     return config;
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 9f53b6d..7f0a32e 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -101,7 +101,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
         ret.internal_diagonal_minus_one[i] = internal_diagonal_minus_one[i];
       }
     }
-    FindPoseidon2ARK(config_entry.ToPoseidonGrainLFSRConfig<F>(), ret.ark);
+    FindPoseidon2ARK(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity), ret.ark);
     return ret;
   }
 
@@ -111,7 +112,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
                                       Params::kFullRounds,
                                       Params::kPartialRounds);
     math::Matrix<F> ark;
-    FindPoseidon2ARK(config_entry.ToPoseidonGrainLFSRConfig<F>(), ark);
+    FindPoseidon2ARK(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity), ark);
     return Create(config_entry, internal_shifts, std::move(ark));
   }
 
-- 
2.43.0


From 63de6960a6405b15cbf86a314ca86cbc8f27b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:47 +0000
Subject: [PATCH 081/116] fix: Leave the sponge state alone when nothing is
 absorbed

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..f4dd944 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -35,6 +35,8 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
   bool Absorb(SpongeState<Params>& state, absl::Span<const F> input) const {
     const Derived& derived = static_cast<const Derived&>(*this);
 
+    if (input.empty()) return true;
+
     switch (state.mode.type) {
       case DuplexSpongeMode::Type::kAbsorbing: {
         size_t absorb_index = state.mode.next_index;
-- 
2.43.0


From 2202a8e30a3bf635ff0eda18d741f7bf27596c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 082/116] fix: Permute whenever a squeeze goes beyond the rate

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index f4dd944..5c77b16 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -229,9 +229,8 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      // There are more elements to squeeze than what the rate has left.
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From 8a97f9a53c2424d2e04e3d3956af6b57af205daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 083/116] fix: Reject negative integers when serializing to
 prime fields

---
 tachyon/crypto/hashes/prime_field_serializable.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/crypto/hashes/prime_field_serializable.h b/tachyon/crypto/hashes/prime_field_serializable.h
index 16b8c41..6cfdfb0 100644
--- a/tachyon/crypto/hashes/prime_field_serializable.h
+++ b/tachyon/crypto/hashes/prime_field_serializable.h
@@ -27,6 +27,9 @@ class PrimeFieldSerializable<T, std::enable_if_t<std::is_integral_v<T>>> {
   template <typename PrimeField>
   constexpr static bool ToPrimeField(const T& value,
                                      std::vector<PrimeField>* fields) {
+    if constexpr (std::is_signed_v<T>) {
+      if (value < 0) return false;
+    }
     if constexpr (PrimeField::Config::kModulusBits <= 32) {
       if (value >= PrimeField::Config::kModulus) return false;
     } else {
-- 
2.43.0


From dd54f40d5aebcb2468908252d3fffaebe02df043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 084/116] fix: Use the 24 wide BabyBear internal diagonal

---
 .../param_traits/poseidon2_baby_bear.h        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
index 372fe66..09e25c3 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
@@ -37,14 +37,18 @@ struct Poseidon2ParamsTraits<math::BabyBear, 23, 7> {
   constexpr static std::array<math::BabyBear, 24>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::BabyBear{0x0a632d94}, math::BabyBear{0x6db657b7},
-        math::BabyBear{0x56fbdc9e}, math::BabyBear{0x052b3d8a},
-        math::BabyBear{0x33745201}, math::BabyBear{0x5c03108c},
-        math::BabyBear{0x0beba37b}, math::BabyBear{0x258c2e8b},
-        math::BabyBear{0x12029f39}, math::BabyBear{0x694909ce},
-        math::BabyBear{0x6d231724}, math::BabyBear{0x21c3b222},
-        math::BabyBear{0x3c0904a5}, math::BabyBear{0x01d6acda},
-        math::BabyBear{0x27705c83}, math::BabyBear{0x5231c802},
+        math::BabyBear{0x409133f0}, math::BabyBear{0x1667a8a1},
+        math::BabyBear{0x06a6c7b6}, math::BabyBear{0x6f53160e},
+        math::BabyBear{0x273b11d1}, math::BabyBear{0x03176c5d},
+        math::BabyBear{0x72f9bbf9}, math::BabyBear{0x73ceba91},
+        math::BabyBear{0x5cdef81d}, math::BabyBear{0x01393285},
+        math::BabyBear{0x46daee06}, math::BabyBear{0x065d7ba6},
+        math::BabyBear{0x52d72d6f}, math::BabyBear{0x05dd05e0},
+        math::BabyBear{0x3bab4b63}, math::BabyBear{0x6ada3842},
+        math::BabyBear{0x2fc5fbec}, math::BabyBear{0x770d61b0},
+        math::BabyBear{0x5715aae9}, math::BabyBear{0x03ef0e90},
+        math::BabyBear{0x75b6c770}, math::BabyBear{0x242adf5f},
+        math::BabyBear{0x00d0ca4c}, math::BabyBear{0x36c0e388},
     };
   }
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
-- 
2.43.0


From dd82d8b744b0d76a1dfc952c70935f78623e1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 085/116] fix: Use an injective S-box for Mersenne31

---
 .../sponge/poseidon2/param_traits/poseidon2_mersenne31.h      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h
index 96a86d4..6fc20b0 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h
@@ -11,14 +11,14 @@ namespace tachyon::crypto {
 // This is taken and modified from
 // https://github.com/Plonky3/Plonky3/blob/fde81db/mersenne-31/src/poseidon2.rs.
 template <>
-struct Poseidon2ParamsTraits<math::Mersenne31, 15, 7> {
+struct Poseidon2ParamsTraits<math::Mersenne31, 15, 5> {
   constexpr static std::array<uint8_t, 15> GetPoseidon2InternalShiftArray() {
     return {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16};
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Mersenne31, 23, 7> {
+struct Poseidon2ParamsTraits<math::Mersenne31, 23, 5> {
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
     return {
         0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  10, 11,
-- 
2.43.0


From 764afaf54fb8ef8fd2ac727f452856e8fc5d2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:26 +0000
Subject: [PATCH 086/116] fix: Make the BLS12-381 and Pallas Poseidon2
 parameters usable

---
 .../sponge/poseidon2/param_traits/BUILD.bazel |  2 +
 .../param_traits/poseidon2_bls12_381.h        | 33 +++++++-------
 .../poseidon2/param_traits/poseidon2_pallas.h | 43 ++++++++++---------
 3 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/BUILD.bazel b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/BUILD.bazel
index d0d47e8..064d648 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/BUILD.bazel
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/BUILD.bazel
@@ -15,6 +15,7 @@ tachyon_cc_library(
     name = "poseidon2_bls12_381",
     hdrs = ["poseidon2_bls12_381.h"],
     deps = [
+        "//tachyon/base:optional",
         "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_param_traits_forward",
         "//tachyon/math/elliptic_curves/bls12/bls12_381:fr",
     ],
@@ -60,6 +61,7 @@ tachyon_cc_library(
     name = "poseidon2_pallas",
     hdrs = ["poseidon2_pallas.h"],
     deps = [
+        "//tachyon/base:optional",
         "//tachyon/crypto/hashes/sponge/poseidon2:poseidon2_param_traits_forward",
         "//tachyon/math/elliptic_curves/pasta/pallas:fr",
     ],
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
index 7d91c1d..ef5f8c8 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
@@ -3,8 +3,9 @@
 
 #include <array>
 
+#include "tachyon/base/optional.h"
 #include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_param_traits_forward.h"
-#include "tachyon/math/elliptic_curves/bls12/bls12_318/fr.h"
+#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
 
 namespace tachyon::crypto {
 
@@ -35,33 +36,33 @@ struct Poseidon2ParamsTraits<math::bls12_381::Fr, 2, 5> {
 
 template <>
 struct Poseidon2ParamsTraits<math::bls12_381::Fr, 3, 5> {
-  constexpr static std::array<math::bls12_381::Fr, 4>
+  static std::array<math::bls12_381::Fr, 4>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
-        math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
-        math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
-        math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
+        unwrap(math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787")),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::bls12_381::Fr, 4, 5> {
-  constexpr static std::array<math::bls12_381::Fr, 5>
+struct Poseidon2ParamsTraits<math::bls12_381::Fr, 7, 5> {
+  static std::array<math::bls12_381::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
-        math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
-        math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
-        math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
-        math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
-        math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
-        math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
-        math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
+        unwrap(math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b")),
+        unwrap(math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623")),
         // clang-format on
     };
   }
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
index ab8ab65..33e3e36 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
@@ -3,6 +3,7 @@
 
 #include <array>
 
+#include "tachyon/base/optional.h"
 #include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_param_traits_forward.h"
 #include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
 
@@ -11,46 +12,46 @@ namespace tachyon::crypto {
 // This is taken and modified from
 // https://github.com/HorizenLabs/poseidon2/blob/bb476b9/plain_implementations/src/poseidon2/poseidon2_instance_pallas.rs.
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 2, 5> {
-  constexpr static std::array<math::Pallas::Fr, 3>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 2, 5> {
+  constexpr static std::array<math::pallas::Fr, 3>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(2),
+        math::pallas::Fr(1),
+        math::pallas::Fr(1),
+        math::pallas::Fr(2),
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 3, 5> {
-  constexpr static std::array<math::Pallas::Fr, 4>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 3, 5> {
+  static std::array<math::pallas::Fr, 4>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
-        math::Pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
-        math::Pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
-        math::Pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
+        unwrap(math::pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51")),
+        unwrap(math::pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21")),
+        unwrap(math::pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c")),
+        unwrap(math::pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757")),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 7, 5> {
-  constexpr static std::array<math::Pallas::Fr, 8>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 7, 5> {
+  static std::array<math::pallas::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
-        math::Pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
-        math::Pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
-        math::Pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
-        math::Pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
-        math::Pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
-        math::Pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
-        math::Pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
+        unwrap(math::pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067")),
+        unwrap(math::pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859")),
+        unwrap(math::pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45")),
+        unwrap(math::pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100")),
+        unwrap(math::pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921")),
+        unwrap(math::pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551")),
+        unwrap(math::pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c")),
+        unwrap(math::pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d")),
         // clang-format on
     };
   }
-- 
2.43.0


From da2471b1c2516890ab380dfa3df19ea1fcdc98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:38 +0000
Subject: [PATCH 087/116] fix: Seed XORShiftRNG with zeros as rand_xorshift
 does

---
 tachyon/crypto/random/xor_shift/xor_shift_rng.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/random/xor_shift/xor_shift_rng.h b/tachyon/crypto/random/xor_shift/xor_shift_rng.h
index c11a2eb..12754b6 100644
--- a/tachyon/crypto/random/xor_shift/xor_shift_rng.h
+++ b/tachyon/crypto/random/xor_shift/xor_shift_rng.h
@@ -48,6 +48,11 @@ class TACHYON_EXPORT XORShiftRNG final : public RNG {
     memcpy(&y_, &seed[4], sizeof(uint32_t));
     memcpy(&z_, &seed[8], sizeof(uint32_t));
     memcpy(&w_, &seed[12], sizeof(uint32_t));
+    // An all zero state would generate nothing but zeros. See
+    // https://github.com/rust-random/rngs/blob/master/rand_xorshift/src/lib.rs.
+    if ((x_ | y_ | z_ | w_) == 0) {
+      x_ = y_ = z_ = w_ = kDefaultWord;
+    }
     return true;
   }
 
@@ -81,10 +86,12 @@ class TACHYON_EXPORT XORShiftRNG final : public RNG {
   XORShiftRNG(uint32_t x, uint32_t y, uint32_t z, uint32_t w)
       : x_(x), y_(y), z_(z), w_(w) {}
 
-  uint32_t x_ = 195911405;  // 0xBAD_5EED
-  uint32_t y_ = 195911405;  // 0xBAD_5EED
-  uint32_t z_ = 195911405;  // 0xBAD_5EED
-  uint32_t w_ = 195911405;  // 0xBAD_5EED
+  constexpr static uint32_t kDefaultWord = 195911405;  // 0xBAD_5EED
+
+  uint32_t x_ = kDefaultWord;
+  uint32_t y_ = kDefaultWord;
+  uint32_t z_ = kDefaultWord;
+  uint32_t w_ = kDefaultWord;
 };
 
 }  // namespace tachyon::crypto
-- 
2.43.0


From 92c5b90d7ad2f5ba851f4c7d85faf823517c856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:38 +0000
Subject: [PATCH 088/116] fix: Restart the stream when ChaCha20RNG is seeded
 again

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 044293c..f369298 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -59,6 +59,12 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     for (size_t i = 0; i < 8; ++i) {
       input_[i + 4] = absl::little_endian::Load32(&seed[4 * i]);
     }
+    // Start the stream of |seed| from its beginning.
+    input_[12] = 0;
+    input_[13] = 0;
+    input_[14] = 0;
+    input_[15] = 0;
+    index_ = kMaxIndex;
     return true;
   }
 
@@ -92,12 +98,6 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
 
     // seed
     CHECK(SetSeed(absl::Span<const uint8_t>(seed, kSeedSize)));
-
-    // counter
-    input_[12] = 0;
-    input_[13] = 0;
-    input_[14] = 0;
-    input_[15] = 0;
   }
 
   ChaCha20RNG(size_t index, const uint8_t input[kInputSize],
-- 
2.43.0


From 7bef364dafd35dbfffaa730ceff53cb6264bc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:38 +0000
Subject: [PATCH 089/116] fix: Reject ChaCha20RNG states beyond the block

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index f369298..377f639 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -75,6 +75,7 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     uint8_t output[kOutputSize];
     base::EndianAutoReset auto_reset(buffer, base::Endian::kLittle);
     if (!buffer.ReadMany(&index, input, output)) return false;
+    if (index > kMaxIndex) return false;
     index_ = index;
     memcpy(input_, input, kInputSize);
     memcpy(output_, output, kOutputSize);
-- 
2.43.0


From c82030531982095451b163889d8dac16750f7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 090/116] fix: Compute Lagrange selectors on cosets larger than
 the trace domain

---
 .../commitments/fri/two_adic_multiplicative_coset.h  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 976e352..c1cf787 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -87,26 +87,30 @@ class TwoAdicMultiplicativeCoset {
 
     CHECK_EQ(domain_->offset(), F::One());
     CHECK_NE(coset_shift, F::One());
-    CHECK_GE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
+    CHECK_LE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
     uint32_t rate_bits =
         coset.domain()->log_size_of_group() - domain_->log_size_of_group();
     F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());
+    // xⁿ cycles through s^n * 1, s^n * h, s^n * h², ... where h generates the
+    // subgroup of order 2^rate_bits.
+    F h = coset.domain()->group_gen().ExpPowOfTwo(domain_->log_size_of_group());
 
     // Evals of Z_H(X) = Xⁿ - 1
     size_t evals_size = size_t{1} << rate_bits;
     std::vector<F> evals(evals_size);
     std::vector<F> inv_denoms_inv_zeroifier(evals_size);
     base::Parallelize(
-        evals_size, [this, &s_pow_n, &evals, &inv_denoms_inv_zeroifier](
+        evals_size, [&s_pow_n, &h, &evals, &inv_denoms_inv_zeroifier](
                         size_t len, size_t chunk_offset, size_t chunk_size) {
           size_t start = chunk_offset * chunk_size;
-          F eval = s_pow_n * domain_->group_gen().Pow(start);
+          F eval = s_pow_n * h.Pow(start);
           for (size_t i = start; i < start + len; ++i) {
             evals[i] = eval - F::One();
             inv_denoms_inv_zeroifier[i] = evals[i];
+            eval *= h;
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
-              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], chunk_size);
+              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
           CHECK(F::BatchInverseInPlaceSerial(inv_denoms_inv_zeroifier_chunk));
         });
 
-- 
2.43.0


From 33e04ca0f4f1c2370b0632d157fa1dd29ad42005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:35 +0000
Subject: [PATCH 091/116] fix: Bound the degree of a selector combination by
 its members

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..9c168d3 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -220,7 +220,7 @@ class SelectorCompressor {
         // Can the new selector join the combination? Reminder: we use
         // |selector.max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From 0cb0425ff72de4dbb49f09c181b0a97d240e9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:35 +0000
Subject: [PATCH 092/116] fix: Include the scaled expression in its identifier

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..fdf7256 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,8 +50,11 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        ss_ << "(";
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
+        ss_ << ")";
         return;
       case ExpressionType::kFixed: {
         const FixedExpression<F>* fixed = input->ToFixed();
-- 
2.43.0


From f7559200d52242a2c5bd5cf9be14bf9308e8749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 093/116] fix: Chunk lookup inputs only with inputs of the same
 table

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..06be726 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -303,6 +303,9 @@ class ConstraintSystem {
     size_t minimum_degree = minimum_degree_.value();
 
     for (const auto& [_, lookup_tracker] : lookups_map_) {
+      // Only the arguments from here on look up the table of this tracker.
+      size_t first_lookup_argument = lookups_.size();
+
       std::vector<std::unique_ptr<Expression<F>>> cloned_input =
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
@@ -316,7 +319,8 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first_lookup_argument; i < lookups_.size(); ++i) {
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           // Try to fit input into one of the |lookup_arguments|.
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
-- 
2.43.0


From 0dc97206f9b415016872938e5b4c42d5c2a1aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 094/116] fix: Separate the identifiers of table expressions

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 06be726..f02255c 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -795,7 +795,7 @@ class ConstraintSystem {
       std::vector<std::unique_ptr<Expression<F>>>&& table_expressions) {
     std::stringstream table_expressions_ss;
     for (const std::unique_ptr<Expression<F>>& expr : table_expressions) {
-      table_expressions_ss << GetIdentifier(expr.get());
+      table_expressions_ss << GetIdentifier(expr.get()) << ";";
     }
 
     std::string table_expressions_identifier = table_expressions_ss.str();
-- 
2.43.0


From 79658050019504e990a4e2501982301805d52009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 095/116] fix: Keep the cells a gate queries through its
 expressions

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index f02255c..cdc28d6 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -455,10 +455,6 @@ class ConstraintSystem {
   void CreateGate(std::string_view name, ConstrainCallback constrain) {
     VirtualCells cells(this);
     std::vector<Constraint<F>> constraints = std::move(constrain).Run(cells);
-    std::vector<Selector> queried_selectors =
-        std::move(cells).TakeQueriedSelectors();
-    std::vector<VirtualCell> queried_cells =
-        std::move(cells).TakeQueriedCells();
 
     std::vector<std::string> constraint_names;
     constraint_names.reserve(constraints.size());
@@ -471,6 +467,10 @@ class ConstraintSystem {
     }
     CHECK(!polys.empty()) << "Gates must contain at least one constraint.";
 
+    std::vector<Selector> queried_selectors =
+        std::move(cells).TakeQueriedSelectors();
+    std::vector<VirtualCell> queried_cells =
+        std::move(cells).TakeQueriedCells();
     gates_.emplace_back(name, std::move(constraint_names), std::move(polys),
                         std::move(queried_selectors), std::move(queried_cells));
   }
-- 
2.43.0


From 1a0b030c980e89993cb02b5adf8dbe7a234bd1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 096/116] fix: Query the cells of lookup and shuffle
 expressions

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index cdc28d6..fa77665 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -232,6 +232,8 @@ class ConstraintSystem {
           CHECK(!ContainsSimpleSelector(pair.input().get()))
               << "expression containing simple selector "
                  "supplied to lookup argument";
+          QueryCells(pair.input().get(), cells);
+          QueryCells(pair.table().get(), cells);
         }
         lookups_.emplace_back(name, std::move(pairs));
         break;
@@ -247,6 +249,8 @@ class ConstraintSystem {
           CHECK(!ContainsSimpleSelector(pair.input().get()))
               << "expression containing simple selector "
                  "supplied to lookup argument";
+          QueryCells(pair.input().get(), cells);
+          QueryCells(pair.table().get(), cells);
 
           input_expressions.push_back(std::move(pair).TakeInput());
           table_expressions.push_back(std::move(pair).TakeTable());
@@ -359,6 +363,8 @@ class ConstraintSystem {
     shuffle_expressions.reserve(pairs.size());
 
     for (shuffle::Pair<std::unique_ptr<Expression<F>>>& pair : pairs) {
+      QueryCells(pair.input().get(), cells);
+      QueryCells(pair.shuffle().get(), cells);
       input_expressions.push_back(std::move(pair).TakeInput());
       shuffle_expressions.push_back(std::move(pair).TakeShuffle());
     }
-- 
2.43.0


From a78b4ed02cfe7b52bb75851831ce117e31e24f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 097/116] fix: Reject simple selectors in lookup table
 expressions

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index fa77665..bfd640b 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -232,6 +232,9 @@ class ConstraintSystem {
           CHECK(!ContainsSimpleSelector(pair.input().get()))
               << "expression containing simple selector "
                  "supplied to lookup argument";
+          CHECK(!ContainsSimpleSelector(pair.table().get()))
+              << "expression containing simple selector "
+                 "supplied to lookup argument";
           QueryCells(pair.input().get(), cells);
           QueryCells(pair.table().get(), cells);
         }
@@ -249,6 +252,9 @@ class ConstraintSystem {
           CHECK(!ContainsSimpleSelector(pair.input().get()))
               << "expression containing simple selector "
                  "supplied to lookup argument";
+          CHECK(!ContainsSimpleSelector(pair.table().get()))
+              << "expression containing simple selector "
+                 "supplied to lookup argument";
           QueryCells(pair.input().get(), cells);
           QueryCells(pair.table().get(), cells);
 
-- 
2.43.0


From 3e53b510289a222e2c84755d64d052e09895d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:31 +0000
Subject: [PATCH 098/116] fix: Recompute the degree and blinding factors after
 configuring more

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index bfd640b..2050d6c 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -148,6 +148,7 @@ class ConstraintSystem {
     } else {
       minimum_degree_ = degree;
     }
+    cached_degree_.reset();
   }
 
   size_t GetNumSelectors() const {
@@ -175,6 +176,7 @@ class ConstraintSystem {
   // |callback| returns a map between the input expressions and the table
   // columns they need to match.
   void Lookup(std::string_view name, LookupCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>, LookupTableColumn> pairs =
         std::move(callback).Run(cells);
@@ -222,6 +224,7 @@ class ConstraintSystem {
   // |callback| returns a map between the input expressions and the table
   // expressions they need to match.
   void LookupAny(std::string_view name, LookupAnyCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
@@ -358,6 +361,7 @@ class ConstraintSystem {
 
   // Add a shuffle argument for some input expressions and shuffle expressions.
   size_t Shuffle(std::string_view name, ShuffleCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     shuffle::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
@@ -398,6 +402,7 @@ class ConstraintSystem {
     // Make a new query
     advice_queries_.emplace_back(at, column);
     ++num_advice_queries_[column.index()];
+    cached_blinding_factors_.reset();
     return advice_queries_.size() - 1;
   }
 
@@ -465,6 +470,7 @@ class ConstraintSystem {
   // A gate is required to contain polynomial constraints. This method will
   // crash if |constrain| returns an empty iterator.
   void CreateGate(std::string_view name, ConstrainCallback constrain) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     std::vector<Constraint<F>> constraints = std::move(constrain).Run(cells);
 
-- 
2.43.0


From d3efa6ec1f0d2e61c542a7bc89a00286ff12e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:08 +0000
Subject: [PATCH 099/116] fix: Reject copies of the row beyond the last one

---
 tachyon/zk/plonk/permutation/permutation_assembly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/permutation/permutation_assembly.h b/tachyon/zk/plonk/permutation/permutation_assembly.h
index 6fa67d0..8bf0f27 100644
--- a/tachyon/zk/plonk/permutation/permutation_assembly.h
+++ b/tachyon/zk/plonk/permutation/permutation_assembly.h
@@ -59,8 +59,8 @@ class TACHYON_EXPORT PermutationAssembly {
 
   void Copy(const AnyColumnKey& left_column, RowIndex left_row,
             const AnyColumnKey& right_column, RowIndex right_row) {
-    CHECK_LE(left_row, rows_);
-    CHECK_LE(right_row, rows_);
+    CHECK_LT(left_row, rows_);
+    CHECK_LT(right_row, rows_);
 
     // Get indices of each column.
     size_t left_col_idx = GetColumnIndex(left_column);
-- 
2.43.0


From 786a1d0d4b7a70fcc05dcb6a2f541ed994e3a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:08 +0000
Subject: [PATCH 100/116] fix: List the base of a cycle once

---
 tachyon/zk/plonk/permutation/cycle_store.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/permutation/cycle_store.cc b/tachyon/zk/plonk/permutation/cycle_store.cc
index ee72132..bbb8417 100644
--- a/tachyon/zk/plonk/permutation/cycle_store.cc
+++ b/tachyon/zk/plonk/permutation/cycle_store.cc
@@ -42,10 +42,10 @@ std::vector<Label> CycleStore::GetAllLabels(const Label& label) const {
   ret.push_back(l);
   while (true) {
     l = mapping_[l];
-    ret.push_back(l);
     if (l == base) {
       break;
     }
+    ret.push_back(l);
   }
   return ret;
 }
-- 
2.43.0


From f03c3b8fe16a0e10dbc1692a83ed121d846a87e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:35 +0000
Subject: [PATCH 101/116] fix: Let the C structs alias the native types they
 mirror

---
 tachyon/c/export.h                                 |  8 ++++++++
 .../c/math/elliptic_curves/generator/point.h.tpl   | 14 +++++++-------
 .../generator/ext_field_generator/ext_field.h.tpl  |  2 +-
 .../prime_field_generator/prime_field.h.tpl        |  4 ++--
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/tachyon/c/export.h b/tachyon/c/export.h
index 3c8c448..1d6d67e 100644
--- a/tachyon/c/export.h
+++ b/tachyon/c/export.h
@@ -22,4 +22,12 @@
 #define TACHYON_C_EXPORT
 #endif  // defined(TACHYON_C_SHARED_LIB_BUILD)
 
+// Accesses through the annotated type may alias objects of any other type. The
+// C structs are reinterpreted as the native types they mirror, and vice versa.
+#if defined(__GNUC__) || defined(__clang__)
+#define TACHYON_C_MAY_ALIAS __attribute__((__may_alias__))
+#else
+#define TACHYON_C_MAY_ALIAS
+#endif
+
 #endif  // TACHYON_C_EXPORT_H_
diff --git a/tachyon/c/math/elliptic_curves/generator/point.h.tpl b/tachyon/c/math/elliptic_curves/generator/point.h.tpl
index 0bdd045..424bb09 100644
--- a/tachyon/c/math/elliptic_curves/generator/point.h.tpl
+++ b/tachyon/c/math/elliptic_curves/generator/point.h.tpl
@@ -19,7 +19,7 @@
  *
  * @example affine_point.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_affine {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_affine {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
 };
@@ -33,7 +33,7 @@ struct tachyon_%{type}_%{g1_or_g2}_affine {
  *
  * @example projective_point.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_projective {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_projective {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
@@ -47,7 +47,7 @@ struct tachyon_%{type}_%{g1_or_g2}_projective {
  * used for internal calculations to speed up the arithmetic on elliptic curves.
  * @example jacobian_point.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_jacobian {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_jacobian {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
@@ -61,7 +61,7 @@ struct tachyon_%{type}_%{g1_or_g2}_jacobian {
  * and storing z^2 and z^3 along with the standard coordinates.
  * @example point_xyzz.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_xyzz {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_xyzz {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} zz;
@@ -75,7 +75,7 @@ struct tachyon_%{type}_%{g1_or_g2}_xyzz {
  * This structure can be used for operations where only x and y coordinates are required,
  * and the point is known not to be at infinity.
  */
-struct tachyon_%{type}_%{g1_or_g2}_point2 {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_point2 {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
 };
@@ -87,7 +87,7 @@ struct tachyon_%{type}_%{g1_or_g2}_point2 {
  * This structure is a general representation that can be used in various contexts where
  * a third coordinate is necessary for the calculations.
  */
-struct tachyon_%{type}_%{g1_or_g2}_point3 {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_point3 {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
@@ -100,7 +100,7 @@ struct tachyon_%{type}_%{g1_or_g2}_point3 {
  * This structure is designed for specific algorithms that require an extra coordinate for
  * efficient computation, such as certain multi-scalar multiplication techniques.
  */
-struct tachyon_%{type}_%{g1_or_g2}_point4 {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_point4 {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
diff --git a/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl b/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl
index ff71165..0a86c0c 100644
--- a/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl
+++ b/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl
@@ -22,7 +22,7 @@
  * This structure models an element in %{display_name}, which is constructed over the base field %{base_field_display_name}.
  * It is used for cryptographic operations that require arithmetic in an extended finite field.
  */
-struct tachyon_%{class_name} {
+struct TACHYON_C_MAY_ALIAS tachyon_%{class_name} {
   tachyon_%{base_field_class_name} c0;
   tachyon_%{base_field_class_name} c1;
 %{if IsCubicExtension}
diff --git a/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl b/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl
index b0587c7..3ae4efc 100644
--- a/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl
+++ b/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl
@@ -33,7 +33,7 @@
  * This structure is used to represent an element in the finite field %{display_name},
  * of the %{curve} curve. It stores the element as an array of 64-bit limbs.
  */
-struct tachyon_%{class_name} {
+struct TACHYON_C_MAY_ALIAS tachyon_%{class_name} {
   uint64_t limbs[%{limb_nums}];
 };
 %{endif IsECPrimeField}
@@ -45,7 +45,7 @@ struct tachyon_%{class_name} {
  * This structure is used to represent an element in the finite field %{display_name},
  * It stores the element as a 32-bit value.
  */
-struct tachyon_%{class_name} {
+struct TACHYON_C_MAY_ALIAS tachyon_%{class_name} {
   uint32_t value;
 };
 %{endif IsSmallPrimeField}
-- 
2.43.0


From fd7fb93e96dfdf2e51402509e5a9bf6987077bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:43 +0000
Subject: [PATCH 102/116] fix: Declare the stream operator of G1Point3

---
 tachyon/cc/math/elliptic_curves/generator/g1.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl b/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl
index 758340f..4d4c078 100644
--- a/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl
+++ b/tachyon/cc/math/elliptic_curves/generator/g1.h.tpl
@@ -465,7 +465,7 @@ class TACHYON_CC_EXPORT G1Point3 {
   Fq z_;
 };
 
-TACHYON_CC_EXPORT std::ostream& operator<<(std::ostream& os, const G1Point2& value);
+TACHYON_CC_EXPORT std::ostream& operator<<(std::ostream& os, const G1Point3& value);
 
 class TACHYON_CC_EXPORT G1Point4 {
  public:
-- 
2.43.0


From 8d69565e86115103c89a6c45f428accb0518bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:18 +0000
Subject: [PATCH 103/116] fix: Keep the empty path when stripping separators

---
 tachyon/base/files/file_path.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index a056934..330b896 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -297,7 +297,7 @@ FilePath FilePath::StripTrailingSeparators() const {
 void FilePath::StripTrailingSeparatorsInternal() {
   size_t pos = path_.find_last_not_of(kSeparators);
   if (pos == std::string::npos) {
-    path_.resize(1);
+    if (!path_.empty()) path_.resize(1);
   } else {
     path_.resize(pos + 1);
   }
-- 
2.43.0


From d2dd31384e39cd01c3f60267127e2ad778341fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:18 +0000
Subject: [PATCH 104/116] fix: Look for parent references in components only

---
 tachyon/base/files/file_path.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index 330b896..25844ad 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -304,7 +304,10 @@ void FilePath::StripTrailingSeparatorsInternal() {
 }
 
 bool FilePath::ReferencesParent() const {
-  return path_.find(kParentDirectory) != std::string::npos;
+  for (const std::string& component : GetComponents()) {
+    if (component == kParentDirectory) return true;
+  }
+  return false;
 }
 
 std::ostream& operator<<(std::ostream& out, const FilePath& file_path) {
-- 
2.43.0


From 58946e773ead64871067f0aa30bf9619d8a49d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:18 +0000
Subject: [PATCH 105/116] fix: Return the extension that RemoveExtension
 removes

---
 tachyon/base/files/file_path.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index 25844ad..1e06ebf 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -188,11 +188,9 @@ FilePath FilePath::BaseName() const {
 
 std::string FilePath::Extension() const {
   FilePath base(BaseName());
-  std::string_view p = base.value();
-  size_t last_separator =
-      p.find_last_of(kExtensionSeparator, std::string::npos);
-  if (last_separator == std::string::npos) return EmptyString();
-  return std::string(p.substr(last_separator, p.length() - last_separator));
+  const std::string::size_type dot = ExtensionSeparatorPosition(base.path_);
+  if (dot == std::string::npos) return EmptyString();
+  return base.path_.substr(dot, std::string::npos);
 }
 
 std::string FilePath::FinalExtension() const {
-- 
2.43.0


From b4d9c36bbd98cf54d6fa516b565c97916ae8d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:18 +0000
Subject: [PATCH 106/116] fix: Report unreadable files as unequal

---
 tachyon/base/files/file_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util.cc b/tachyon/base/files/file_util.cc
index 89205f2..19b63bb 100644
--- a/tachyon/base/files/file_util.cc
+++ b/tachyon/base/files/file_util.cc
@@ -244,7 +244,8 @@ bool ContentsEqual(const FilePath& filename1, const FilePath& filename2) {
     file1.read(buffer1, BUFFER_SIZE);
     file2.read(buffer2, BUFFER_SIZE);
 
-    if ((file1.eof() != file2.eof()) ||
+    if (file1.bad() || file2.bad() ||
+        (file1.eof() != file2.eof()) ||
         (file1.gcount() != file2.gcount()) ||
         (memcmp(buffer1, buffer2, static_cast<size_t>(file1.gcount())))) {
       file1.close();
-- 
2.43.0


From 81e23e662f47fa67a970dbcd49ec2d841ab48c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:18 +0000
Subject: [PATCH 107/116] fix: Create directories given by relative paths

---
 tachyon/base/files/file_util_posix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 4e1be38..d7e84dc 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -780,7 +780,8 @@ bool CreateDirectoryAndGetError(const FilePath& full_path,
   FilePath last_path = full_path;
   subpaths.push_back(full_path);
   for (FilePath path = full_path.DirName();
-       path.value() != last_path.value(); path = path.DirName()) {
+       path.value() != last_path.value() && !path.empty();
+       path = path.DirName()) {
     subpaths.push_back(path);
     last_path = path;
   }
-- 
2.43.0


From dc839173febb30f2ba4b940281f915fc18cf7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:18 +0000
Subject: [PATCH 108/116] fix: Copy directories to relative paths

---
 tachyon/base/files/file_util_posix.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index d7e84dc..6189b9e 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -150,7 +150,10 @@ bool DoCopyDirectory(const FilePath& from_path,
   if (PathExists(real_to_path))
     real_to_path = MakeAbsoluteFilePath(real_to_path);
   else
-    real_to_path = MakeAbsoluteFilePath(real_to_path.DirName());
+    real_to_path = MakeAbsoluteFilePath(
+        real_to_path.DirName().empty()
+            ? FilePath(FilePath::kCurrentDirectory)
+            : real_to_path.DirName());
   if (real_to_path.empty())
     return false;
 
-- 
2.43.0


From 022f2af663e77633dddfa0591e83dbefb60aacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:40 +0000
Subject: [PATCH 109/116] fix: Drop the previous mapping when loading a file
 again

---
 tachyon/base/files/bin_file.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tachyon/base/files/bin_file.cc b/tachyon/base/files/bin_file.cc
index 7e116a6..22415c9 100644
--- a/tachyon/base/files/bin_file.cc
+++ b/tachyon/base/files/bin_file.cc
@@ -17,6 +17,7 @@ bool BinFile::Load(const base::FilePath& path, bool use_mmap) {
                           base::MemoryMappedFile::Access::READ_WRITE_COPY))
       return false;
     map_ = std::move(map);
+    vec_.clear();
     return true;
   } else {
     std::optional<std::vector<uint8_t>> vec = base::ReadFileToBytes(path);
@@ -25,6 +26,7 @@ bool BinFile::Load(const base::FilePath& path, bool use_mmap) {
       return false;
     }
     vec_ = std::move(vec).value();
+    map_.reset();
     return true;
   }
 }
-- 
2.43.0


From 5a6d8d2355f3b10787cd3ef64598963ccd4d19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 110/116] fix: Skip the zero variable when making a row of an
 R1CS matrix

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..2e58d88 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,8 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      // NOTE: |Variable::Zero()| contributes nothing and has no column.
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From 8bde3629b177381be0826b125eb204023b6cb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 111/116] fix: Check that the QAP domain has room for the
 instance variables

---
 .../r1cs/constraint_system/quadratic_arithmetic_program.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h b/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h
index a35758f..9be6897 100644
--- a/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h
+++ b/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h
@@ -50,7 +50,8 @@ class QuadraticArithmeticProgram {
                                              const ConstraintSystem<F>& cs,
                                              const F& x) {
     TRACE_EVENT("ProofGeneration", "QAP::InstanceMap");
-    CHECK_GE(domain->size(), cs.num_constraints());
+    CHECK_GE(domain->size(),
+             cs.num_constraints() + cs.num_instance_variables());
     std::optional<ConstraintMatrices<F>> matrices = cs.ToMatrices();
     // |num_constraint| = n
     size_t num_constraints = cs.num_constraints();
@@ -133,7 +134,8 @@ class QuadraticArithmeticProgram {
     using Evals = typename Domain::Evals;
     using DensePoly = typename Domain::DensePoly;
 
-    CHECK_GE(domain->size(), matrices.num_constraints);
+    CHECK_GE(domain->size(),
+             matrices.num_constraints + matrices.num_instance_variables);
 
     std::vector<F> a(domain->size());
     std::vector<F> b(domain->size());
-- 
2.43.0


From a02994e51951735f338f824a09baf485ba235e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:01 +0000
Subject: [PATCH 112/116] fix: Sha256Reader accepted points that are not on the
 curve

---
 tachyon/zk/plonk/halo2/sha256_transcript.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/sha256_transcript.h b/tachyon/zk/plonk/halo2/sha256_transcript.h
index 0e4ad45..32b2f88 100644
--- a/tachyon/zk/plonk/halo2/sha256_transcript.h
+++ b/tachyon/zk/plonk/halo2/sha256_transcript.h
@@ -126,7 +126,16 @@ class Sha256Reader : public crypto::TranscriptReader<AffinePoint>,
     math::BigInt<4> x;
     math::BigInt<4> y;
     if (!this->buffer_.ReadMany(&x, &y)) return false;
-    *point = {BaseField(std::move(x)), BaseField(std::move(y))};
+    if (x.IsZero() && y.IsZero()) {
+      *point = AffinePoint::Zero();
+      return true;
+    }
+    if (x >= BaseField::Config::kModulus || y >= BaseField::Config::kModulus) {
+      return false;
+    }
+    AffinePoint candidate(BaseField(std::move(x)), BaseField(std::move(y)));
+    if (!candidate.IsOnCurve()) return false;
+    *point = std::move(candidate);
     return true;
   }
 
-- 
2.43.0


From 2b82c8704c69e19981f1c5288413c20a95b60e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:20 +0000
Subject: [PATCH 113/116] fix: splitting into a field without Montgomery form
 truncated the digit instead of reducing it

---
 tachyon/crypto/challenger/multi_field32_conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/challenger/multi_field32_conversions.h b/tachyon/crypto/challenger/multi_field32_conversions.h
index 9a3e44a..ca58cb3 100644
--- a/tachyon/crypto/challenger/multi_field32_conversions.h
+++ b/tachyon/crypto/challenger/multi_field32_conversions.h
@@ -61,7 +61,7 @@ std::array<SmallF, N> Split(const BigF& value) {
     if constexpr (SmallF::Config::kUseMontgomery) {
       ret[i] = SmallF::FromMontgomery(SmallF::Config::ToMontgomery(digit));
     } else {
-      ret[i] = SmallF(digit);
+      ret[i] = SmallF(static_cast<uint32_t>(digit % SmallF::Config::kModulus));
     }
     value_bigint >>= 64;
   }
-- 
2.43.0


From 5704b05fda8248e30b723b1924bcca608e2beb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:58 +0000
Subject: [PATCH 114/116] fix: check the shape of a FRI proof before verifying
 it

The verifier indexed rounds, matrices, points, rows and folding steps of the
proof without comparing their numbers: missing ones were read out of bounds,
surplus ones were ignored.
---
 tachyon/crypto/commitments/fri/two_adic_fri.h | 54 +++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/two_adic_fri.h b/tachyon/crypto/commitments/fri/two_adic_fri.h
index 96fb772..718bfc6 100644
--- a/tachyon/crypto/commitments/fri/two_adic_fri.h
+++ b/tachyon/crypto/commitments/fri/two_adic_fri.h
@@ -232,6 +232,11 @@ class TwoAdicFRI {
     // Batch combination challenge
     const ExtF alpha = challenger.template SampleExtElement<ExtF>();
     VLOG(2) << "FRI(alpha): " << alpha.ToHexString(true);
+    if (!ValidateShape(commits_by_round, domains_by_round, points_by_round,
+                       opened_values_by_round, proof)) {
+      LOG(ERROR) << "proof has an unexpected shape";
+      return false;
+    }
     uint32_t log_global_max_num_rows =
         proof.commit_phase_commits.size() + config_.log_blowup;
     return fri::Verify(
@@ -327,6 +332,55 @@ class TwoAdicFRI {
   friend class c::crypto::TwoAdicFRIImpl<ExtF, InputMMCS, ChallengeMMCS,
                                          Challenger>;
 
+  // Checks that the sizes of everything the verifier iterates over agree with
+  // each other.
+  bool ValidateShape(const std::vector<Commitment>& commits_by_round,
+                     const std::vector<std::vector<Domain>>& domains_by_round,
+                     const OpeningPoints& points_by_round,
+                     const OpenedValues& opened_values_by_round,
+                     const FRIProof& proof) const {
+    size_t num_rounds = commits_by_round.size();
+    if (domains_by_round.size() != num_rounds ||
+        points_by_round.size() != num_rounds ||
+        opened_values_by_round.size() != num_rounds) {
+      return false;
+    }
+    size_t log_global_max_num_rows =
+        proof.commit_phase_commits.size() + config_.log_blowup;
+    if (log_global_max_num_rows > F::Config::kTwoAdicity) return false;
+    for (size_t round = 0; round < num_rounds; ++round) {
+      const std::vector<Domain>& domains = domains_by_round[round];
+      const OpeningPointsForRound& points = points_by_round[round];
+      const OpenedValuesForRound& opened_values = opened_values_by_round[round];
+      if (points.size() != domains.size() ||
+          opened_values.size() != domains.size()) {
+        return false;
+      }
+      for (size_t i = 0; i < domains.size(); ++i) {
+        if (opened_values[i].size() != points[i].size()) return false;
+        if (domains[i].domain()->log_size_of_group() + config_.log_blowup >
+            log_global_max_num_rows) {
+          return false;
+        }
+      }
+    }
+    for (const auto& query_proof : proof.query_proofs) {
+      const InputProof& input_proof = query_proof.input_proof;
+      if (input_proof.size() != num_rounds) return false;
+      for (size_t round = 0; round < num_rounds; ++round) {
+        if (input_proof[round].opened_values.size() !=
+            domains_by_round[round].size()) {
+          return false;
+        }
+      }
+      if (query_proof.commit_phase_openings.size() !=
+          proof.commit_phase_commits.size()) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   static absl::flat_hash_map<ExtF, std::vector<ExtF>>
   ComputeInverseDenominators(
       const std::vector<absl::Span<
-- 
2.43.0


From 4d114d2f1e64f513c14646135b513167fd184aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:02 +0000
Subject: [PATCH 115/116] fix: recompute the Lagrange basis in KZG::Downsize

The Lagrange powers of the large domain were truncated, so commitments to
evaluations over the small domain did not match those to coefficients.
---
 tachyon/crypto/commitments/kzg/BUILD.bazel |  2 ++
 tachyon/crypto/commitments/kzg/kzg.h       | 37 ++++++++++++++++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/BUILD.bazel b/tachyon/crypto/commitments/kzg/BUILD.bazel
index f8ce940..b35c397 100644
--- a/tachyon/crypto/commitments/kzg/BUILD.bazel
+++ b/tachyon/crypto/commitments/kzg/BUILD.bazel
@@ -23,7 +23,9 @@ tachyon_cc_library(
     name = "kzg",
     hdrs = ["kzg.h"],
     deps = [
+        "//tachyon/base:bits",
         "//tachyon/base:logging",
+        "//tachyon/base:openmp_util",
         "//tachyon/base/buffer:copyable",
         "//tachyon/base/containers:container_util",
         "//tachyon/crypto/commitments:batch_commitment_state",
diff --git a/tachyon/crypto/commitments/kzg/kzg.h b/tachyon/crypto/commitments/kzg/kzg.h
index 5260115..a58f85b 100644
--- a/tachyon/crypto/commitments/kzg/kzg.h
+++ b/tachyon/crypto/commitments/kzg/kzg.h
@@ -15,8 +15,10 @@
 #include <utility>
 #include <vector>
 
+#include "tachyon/base/bits.h"
 #include "tachyon/base/buffer/copyable.h"
 #include "tachyon/base/logging.h"
+#include "tachyon/base/openmp_util.h"
 #include "tachyon/crypto/commitments/batch_commitment_state.h"
 #include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
 #include "tachyon/math/geometry/point_conversions.h"
@@ -210,12 +212,41 @@ class KZG {
     return true;
   }
 
-  // Return false if |n| >= |N()|.
+  // Return false if |n| >= |N()| or |n| is not a power of two.
   [[nodiscard]] bool Downsize(size_t n) {
-    if (n >= N()) return false;
+    using Domain = math::UnivariateEvaluationDomain<Field, kMaxDegree>;
+    using JacobianPoint = math::JacobianPoint<Curve>;
+
+    if (n >= N() || !base::bits::IsPowerOfTwo(n)) return false;
     g1_powers_of_tau_.resize(n);
+
+    // The Lagrange basis belongs to the domain, so it has to be computed again
+    // for the smaller one. [Lᵢ(τ)]₁ = 1/n * Σⱼ ω⁻ⁱʲ[τʲ]₁ is the inverse FFT of
+    // [τ⁰g₁, τ¹g₁, ... , τⁿ⁻¹g₁].
+    std::unique_ptr<Domain> domain = Domain::Create(n);
+    uint32_t log_n = base::bits::CheckedLog2(n);
+    std::vector<JacobianPoint> lagrange(n);
+    for (size_t i = 0; i < n; ++i) {
+      lagrange[base::bits::ReverseBitsLen(i, log_n)] =
+          g1_powers_of_tau_[i].ToJacobian();
+    }
+    for (size_t half = 1; half < n; half *= 2) {
+      Field root = domain->group_gen_inv().Pow(n / (2 * half));
+      std::vector<Field> twiddles = Field::GetSuccessivePowers(half, root);
+      OMP_PARALLEL_FOR(size_t k = 0; k < n / 2; ++k) {
+        size_t j = k % half;
+        JacobianPoint& lo = lagrange[(k / half) * 2 * half + j];
+        JacobianPoint& hi = lagrange[(k / half) * 2 * half + j + half];
+        JacobianPoint t = hi * twiddles[j];
+        hi = lo - t;
+        lo += t;
+      }
+    }
+    OMP_PARALLEL_FOR(size_t i = 0; i < n; ++i) {
+      lagrange[i] *= domain->size_inv();
+    }
     g1_powers_of_tau_lagrange_.resize(n);
-    return true;
+    return JacobianPoint::BatchNormalize(lagrange, &g1_powers_of_tau_lagrange_);
   }
 
   template <typename ScalarContainer>
-- 
2.43.0


From 77998bee4218a20d4aab80802a43cec156b230d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:51 +0000
Subject: [PATCH 116/116] fix: prepare the right G2 points of GWC and SHPlonk
 made from parameters

The constructor taking [tau]_2 prepared [1]_2 and -[tau]_2 where the pairing
check expects [tau]_2 and -[1]_2, so schemes that were loaded refused every
honest proof.
---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0

