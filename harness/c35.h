#ifndef MC_C35_H_
#define MC_C35_H_
#include <cstring>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "tachyon/math/finite_fields/finite_field_traits.h"
#include "tachyon/math/geometry/point_conversions.h"

// The exported names of one field, under a common interface.
#define C35_FIELD(NAME, NATIVE)                                                                     \
  struct Api_##NAME {                                                                               \
    using C = tachyon_##NAME; using N = NATIVE;                                                     \
    static const char* name() { return #NAME; }                                                     \
    static C zero() { return tachyon_##NAME##_zero(); } static C one() { return tachyon_##NAME##_one(); }             \
    static C minus_one() { return tachyon_##NAME##_minus_one(); } static C random() { return tachyon_##NAME##_random(); } \
    static C add(const C* a, const C* b) { return tachyon_##NAME##_add(a, b); } static C sub(const C* a, const C* b) { return tachyon_##NAME##_sub(a, b); } \
    static C mul(const C* a, const C* b) { return tachyon_##NAME##_mul(a, b); } static C div(const C* a, const C* b) { return tachyon_##NAME##_div(a, b); } \
    static C neg(const C* a) { return tachyon_##NAME##_neg(a); } static C dbl(const C* a) { return tachyon_##NAME##_dbl(a); } \
    static C sqr(const C* a) { return tachyon_##NAME##_sqr(a); } static C inv(const C* a) { return tachyon_##NAME##_inv(a); } \
    static bool eq(const C* a, const C* b) { return tachyon_##NAME##_eq(a, b); } static bool ne(const C* a, const C* b) { return tachyon_##NAME##_ne(a, b); } \
    static bool gt(const C* a, const C* b) { return tachyon_##NAME##_gt(a, b); } static bool ge(const C* a, const C* b) { return tachyon_##NAME##_ge(a, b); } \
    static bool lt(const C* a, const C* b) { return tachyon_##NAME##_lt(a, b); } static bool le(const C* a, const C* b) { return tachyon_##NAME##_le(a, b); } \
  };

#define C35_KIND(CURVE, KIND, SUM)                                                                  \
  struct KIND {                                                                                     \
    using C = tachyon_##CURVE##_##KIND; using S = tachyon_##CURVE##_##SUM;                          \
    static C zero() { return tachyon_##CURVE##_##KIND##_zero(); } static C generator() { return tachyon_##CURVE##_##KIND##_generator(); } static C random() { return tachyon_##CURVE##_##KIND##_random(); } \
    static S add(const C* a, const C* b) { return tachyon_##CURVE##_##KIND##_add(a, b); } static S sub(const C* a, const C* b) { return tachyon_##CURVE##_##KIND##_sub(a, b); } \
    static C neg(const C* a) { return tachyon_##CURVE##_##KIND##_neg(a); } static S dbl(const C* a) { return tachyon_##CURVE##_##KIND##_dbl(a); } \
    static bool eq(const C* a, const C* b) { return tachyon_##CURVE##_##KIND##_eq(a, b); } static bool ne(const C* a, const C* b) { return tachyon_##CURVE##_##KIND##_ne(a, b); } \
  };
#define C35_MIXED(CURVE, KIND)                                                                      \
  struct KIND##_mixed {                                                                             \
    using C = tachyon_##CURVE##_##KIND; using A = tachyon_##CURVE##_affine;                         \
    static C add(const C* a, const A* b) { return tachyon_##CURVE##_##KIND##_add_mixed(a, b); } static C sub(const C* a, const A* b) { return tachyon_##CURVE##_##KIND##_sub_mixed(a, b); } \
  };
#define C35_CURVE(CURVE)                                                                            \
  struct Api_##CURVE {                                                                              \
    static const char* name() { return #CURVE; } static void init() { tachyon_##CURVE##_init(); }   \
    C35_KIND(CURVE, affine, jacobian) C35_KIND(CURVE, projective, projective) C35_KIND(CURVE, jacobian, jacobian) C35_KIND(CURVE, xyzz, xyzz) \
    C35_MIXED(CURVE, projective) C35_MIXED(CURVE, jacobian) C35_MIXED(CURVE, xyzz)                  \
  };

namespace c35 {
using namespace tachyon;
template <typename N, typename C> N To(const C& c) { static_assert(sizeof(N) == sizeof(C)); N n; memcpy(static_cast<void*>(&n), &c, sizeof(N)); return n; }
template <typename C, typename N> C From(const N& n) { static_assert(sizeof(N) == sizeof(C)); C c; memcpy(&c, static_cast<const void*>(&n), sizeof(N)); return c; }
inline std::string S(bool b) { return b ? "true" : "false"; }
inline uint32_t S(uint32_t v) { return v; }
// Values built from all choices of small base coefficients.
template <typename N>
std::vector<N> Values(size_t limit) {
  std::vector<N> out;
  if constexpr (math::FiniteFieldTraits<N>::kIsPrimeField) {
    for (uint32_t i = 0; i < 6; ++i) { out.push_back(N(i)); out.push_back(-N(i)); }
    N h = *N(2).Inverse(), x = N(3); out.push_back(h); out.push_back(-h); for (int i = 0; i < 9; ++i) x.SquareInPlace(); for (int i = 0; i < 8; ++i) { out.push_back(x); x = x.Square() + N(1); }
  } else {
    using B = typename N::BaseField; std::vector<B> b = Values<B>(N::ExtensionDegree() > 2 ? 4 : 6);
    mc::tuples(int(N::Config::kDegreeOverBaseField), int(b.size()), [&](const std::vector<int>& v) {
      if constexpr (N::Config::kDegreeOverBaseField == 2) out.push_back(N(b[size_t(v[0])], b[size_t(v[1])]));
      else if constexpr (N::Config::kDegreeOverBaseField == 3) out.push_back(N(b[size_t(v[0])], b[size_t(v[1])], b[size_t(v[2])]));
      else out.push_back(N(b[size_t(v[0])], b[size_t(v[1])], b[size_t(v[2])], b[size_t(v[3])]));
    });
  }
  if (out.size() > limit) { std::vector<N> some; for (size_t i = 0; i < limit; ++i) some.push_back(out[i * out.size() / limit]); some.push_back(out.back()); out = some; }
  return out;
}
// Points k * G, with several representatives of each class.
template <typename P> std::vector<std::pair<P, int>> Points(int n) {
  using Curve = typename P::Curve; using Aff = math::AffinePoint<Curve>; using B = typename P::BaseField;
  std::vector<std::pair<P, int>> out; math::JacobianPoint<Curve> acc = math::JacobianPoint<Curve>::Zero();
  for (int k = 0; k <= n; ++k) { for (int s : {1, -1}) { math::JacobianPoint<Curve> q = s > 0 ? acc : -acc; if (s < 0 && k == 0) continue; Aff a = q.ToAffine();
      if constexpr (std::is_same_v<P, Aff>) out.emplace_back(a, s * k); else { P p = math::ConvertPoint<P>(a); out.emplace_back(p, s * k); B z = B::One().Double() + B::One(), z2 = z.Square();
        if constexpr (std::is_same_v<P, math::ProjectivePoint<Curve>>) out.emplace_back(P(p.x() * z, p.y() * z, p.z() * z), s * k); else if constexpr (std::is_same_v<P, math::JacobianPoint<Curve>>) out.emplace_back(P(p.x() * z2, p.y() * z2 * z, p.z() * z), s * k); else out.emplace_back(P(p.x() * z2, p.y() * z2 * z, p.zz() * z2, p.zzz() * z2 * z), s * k); } }
    acc += Aff::Generator(); }
  return out;
}
}  // namespace c35
#endif
