// Helpers shared by the field harnesses: raw-representation oracle for prime
// fields, independent of the library's own conversions.
#ifndef MC_MCFIELD_H_
#define MC_MCFIELD_H_
#include <gmpxx.h>

#include <algorithm>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

#include "mc/mc.h"
#include "tachyon/math/base/big_int.h"

namespace tachyon::math::mcf {
using tachyon::math::BigInt;

template <size_t N> mpz_class ZB(const BigInt<N>& a) {
  mpz_class r; mpz_import(r.get_mpz_t(), N, -1, 8, 0, 0, a.limbs); return r;
}
template <size_t N> BigInt<N> BZ(const mpz_class& z) {
  BigInt<N> r(0); size_t c; mpz_export(r.limbs, &c, -1, 8, 0, 0, z.get_mpz_t()); return r;
}

template <typename F> constexpr bool kSmall = F::Config::kModulusBits <= 32;

template <typename F> struct Ora {  // arithmetic on the raw representation
  using V = std::conditional_t<kSmall<F>, uint32_t, BigInt<F::kLimbNums>>;
  mpz_class p, R, Rinv; uint64_t ps = 0, rinvs = 1, rs = 1;
  Ora() {
    if constexpr (kSmall<F>) { p = (unsigned long)F::Config::kModulus; ps = F::Config::kModulus; }
    else p = ZB(F::Config::kModulus);
    R = 1;
    if (!kSmall<F> || F::Config::kUseMontgomery) R <<= kSmall<F> ? 32 : 64 * F::kLimbNums;
    R %= p;
    if (p == 1) R = 0;
    mpz_invert(Rinv.get_mpz_t(), R.get_mpz_t(), p.get_mpz_t());
    if (kSmall<F>) { rinvs = Rinv.get_ui(); rs = R.get_ui(); }
  }
  // raw element
  F el(const mpz_class& raw) const {
    if constexpr (kSmall<F>) {
      if constexpr (F::Config::kUseMontgomery) return F::FromMontgomery((uint32_t)raw.get_ui());
      else return F((uint32_t)raw.get_ui());
    } else return F::FromMontgomery(BZ<F::kLimbNums>(raw));
  }
  F canon(const mpz_class& z) const { mpz_class t = z % p; if (t < 0) t += p; t = t * R % p; return el(t); }
  mpz_class raw(const F& a) const {
    if constexpr (kSmall<F>) return mpz_class((unsigned long)a.value());
    else return ZB(a.value());
  }
  mpz_class z(const F& a) const { return raw(a) * Rinv % p; }  // denoted value
  bool is(const F& a, const mpz_class& r) const {
    if constexpr (kSmall<F>) return a.value() == r.get_ui();
    else {
      uint64_t t[F::kLimbNums] = {0}; size_t c = 0;
      mpz_export(t, &c, -1, 8, 0, 0, r.get_mpz_t());
      for (size_t i = 0; i < F::kLimbNums; ++i) if (a.value().limbs[i] != t[i]) return false;
      return true;
    }
  }
};

// Structured element set: raw patterns and canonical patterns, both exhaustive
// over a limb alphabet that depends on the width.
template <typename F> std::vector<mpz_class> RawSet(const Ora<F>& o, bool big) {
  std::set<mpz_class> s; mpz_class p = o.p, t;
  auto add = [&](mpz_class v) { v %= p; if (v < 0) v += p; s.insert(v); };
  for (int i = 0; i < 4; ++i) { add(i); add(-i); add(p / 2 + i); add(p / 2 - i); add(o.R + i); add(o.R - i); add(-o.R + i); }
  add(o.R * o.R); add(o.R * o.R * o.R); add(o.Rinv); add(o.R * (p / 2)); add(o.R * 2); add(o.R * 3); add(-o.R * 2);
  size_t n = F::kLimbNums;
  for (size_t b = 0; b < F::Config::kModulusBits; b += (n <= 2 || big ? 1 : 16)) { t = 1; t <<= b; add(t); add(t - 1); add(t + 1); add(-t); }
  std::vector<std::vector<uint64_t>> al(n);
  uint64_t M = ~uint64_t{0};
  for (size_t i = 0; i < n; ++i) {
    mpz_class l = p >> (64 * i); uint64_t pl = 0; size_t c; l = l & mpz_class("18446744073709551615"); mpz_export(&pl, &c, -1, 8, 0, 0, l.get_mpz_t());
    al[i] = {0, M};
    if (n <= 6) al[i].push_back(pl);
    if (n <= 4) al[i].push_back(1);
    if (n <= 3) { al[i].push_back(M - 1); al[i].push_back(pl - 1); al[i].push_back(uint64_t{1} << 63); }
    if (n <= 2) { al[i].push_back(pl + 1); al[i].push_back(uint64_t{1} << 32); al[i].push_back((uint64_t{1} << 32) - 1); al[i].push_back((uint64_t{1} << 63) - 1); al[i].push_back(pl >> 1); }
  }
  std::vector<size_t> ix(n, 0);
  for (;;) {
    mpz_class v = 0;
    for (size_t i = n; i-- > 0;) { v <<= 64; mpz_class l; mpz_import(l.get_mpz_t(), 1, -1, 8, 0, 0, &al[i][ix[i]]); v += l; }
    if (v < p) { s.insert(v); if (n <= 4) add(v * o.R); } else if (n <= 4) add(v);
    size_t i = 0; while (i < n && ++ix[i] == al[i].size()) ix[i++] = 0;
    if (i == n) break;
  }
  return {s.begin(), s.end()};
}
}  // namespace tachyon::math::mcf
#endif
