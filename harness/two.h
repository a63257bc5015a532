// A stand-in for the packed form of a small field (two lanes).
#ifndef MC_TWO_H_
#define MC_TWO_H_
#include "tachyon/math/finite_fields/packed_field_traits_forward.h"
namespace tachyon::math {
template <typename F> struct Two {
  static constexpr size_t N = 2;
  F a, b;
  static Two Broadcast(const F& f) { return {f, f}; }
  Two& operator*=(const Two& o) { a *= o.a; b *= o.b; return *this; }
  Two& operator+=(const Two& o) { a += o.a; b += o.b; return *this; }
  Two operator-(const Two& o) const { return {a - o.a, b - o.b}; }
};
}  // namespace tachyon::math
#define MC_TWO(f) namespace tachyon::math { template <> struct PackedFieldTraits<f, void> { using PackedField = Two<f>; }; }
#endif
