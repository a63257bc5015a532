// C08: square roots, Legendre symbols, subgroup decomposition, roots of unity.
#ifndef MC_C08_ROOTS_H_
#define MC_C08_ROOTS_H_
#include "mc/mcfield.h"
#include "tachyon/math/finite_fields/prime_field_base.h"
#include "tachyon/math/finite_fields/legendre_symbol.h"

namespace {
using namespace tachyon::math::mcf;
using tachyon::math::LegendreSymbol; using tachyon::math::PrimeFieldFactors;

template <typename F> void Root(mc::Ctx& c, const Ora<F>& o, const mpz_class& zc, bool sqrt = true) {
  F a = o.canon(zc), r = F::One(), r0 = r;
  auto d = [&] { return "a=" + zc.get_str() + " p=" + o.p.get_str(); };
  if (c.want_sample()) c.sample("square root of " + d());
  int l = zc == 0 ? 0 : o.p == 2 ? 1 : mpz_legendre(zc.get_mpz_t(), o.p.get_mpz_t());
  mc::at("legendre", zc.get_ui());
  MC_CHECK(c, (int)a.Legendre() == l, "legendre", d() << " gives " << (int)a.Legendre());
  if constexpr (F::Config::kModulusModFourIsThree || (F::HasRootOfUnity() && F::Config::kUseMontgomery)) {
    mc::at("sqrt", zc.get_ui());
    bool ok = a.SquareRoot(&r);
    MC_CHECK(c, ok == (l >= 0), "square_root_exists", d() << " returned " << ok);
    if (ok) { mpz_class z = o.z(r); MC_CHECK(c, z < o.p && z * z % o.p == zc, "square_root_value", d() << " root=" << z.get_str()); }
  }
}

// Multiplicative order through the factorization of n.
inline bool HasOrder(const mpz_class& w, const mpz_class& n, const mpz_class& p, const std::vector<unsigned>& primes) {
  mpz_class t; mpz_powm(t.get_mpz_t(), w.get_mpz_t(), n.get_mpz_t(), p.get_mpz_t());
  if (t != 1 % p) return false;
  for (unsigned q : primes) if (n % q == 0) { mpz_class e = n / q; mpz_powm(t.get_mpz_t(), w.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); if (t == 1 % p) return false; }
  return true;
}

template <typename F> void RootsOfUnity(mc::Ctx& c, const Ora<F>& o) {
  if constexpr (F::HasRootOfUnity()) {
    mpz_class pm = o.p - 1; uint32_t s = mpz_scan1(pm.get_mpz_t(), 0); unsigned q = 0, qa = 0;
    MC_CHECK(c, F::Config::kTwoAdicity == s, "two_adicity", o.p.get_str());
    if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) { q = F::Config::kSmallSubgroupBase; qa = F::Config::kSmallSubgroupAdicity; mpz_class t = pm; for (unsigned i = 0; i < qa; ++i) { MC_CHECK(c, t % q == 0, "q_adicity", o.p.get_str()); t /= q; } }
    std::vector<uint64_t> ns; for (uint64_t n = 0; n <= (c.thorough ? 20000 : 3000); ++n) ns.push_back(n);
    for (int i = 0; i < 64; ++i) { ns.push_back(uint64_t{1} << i); ns.push_back((uint64_t{1} << i) + 1); ns.push_back((uint64_t{1} << i) - 1); if (i < 62) ns.push_back(uint64_t{3} << i); }
    ns.push_back(~uint64_t{0});
    if (q) for (unsigned __int128 t = 1; t >> 64 == 0; t *= q) for (unsigned __int128 u = t; u >> 64 == 0; u *= 2) { ns.push_back((uint64_t)u); ns.push_back((uint64_t)u + 1); }
    F prev;
    for (uint64_t n : ns) {
      mpz_class zn; mpz_import(zn.get_mpz_t(), 1, -1, 8, 0, 0, &n);
      unsigned a2 = 0, aq = 0; mpz_class t = zn; if (n) { while (t % 2 == 0) { t /= 2; ++a2; } if (q) while (t % q == 0) { t /= q; ++aq; } }
      bool shape = t == 1;
      mc::at("decompose", n);
      if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
        PrimeFieldFactors f{77, 77, 77, 77}; bool ok = F::Decompose(n, &f);
        mpz_class q1 = 1, t1 = 1; for (unsigned i = 0; i < aq; ++i) q1 *= q; for (unsigned i = 0; i < a2; ++i) t1 *= 2;
        MC_CHECK(c, ok == shape, "decompose", "n=" << n << " q=" << q);
        if (ok && shape) MC_CHECK(c, f.q_adicity == aq && f.two_adicity == a2 && f.q_part == mpz_get_ui(q1.get_mpz_t()) && f.two_part == mpz_get_ui(t1.get_mpz_t()), "decompose_parts", "n=" << n << " q=" << q);
      }
      mc::at("root_of_unity", n);
      bool want = shape && a2 <= s && (!q || aq <= qa);
      F w = o.canon(5 % o.p); bool ok = F::GetRootOfUnity(n, &w);
      MC_CHECK(c, ok == want, "root_of_unity_exists", "n=" << n << " p=" << o.p.get_str() << " returned " << ok);
      if (ok && want) MC_CHECK(c, HasOrder(o.z(w), zn, o.p, {2, q ? q : 2}), "root_of_unity_order", "n=" << n << " w=" << o.z(w).get_str() << " p=" << o.p.get_str());
      c.states(1);
    }
    // w_n for n = 2m squares to w_m: the transforms rely on it
    for (unsigned i = 0; i < s; ++i) { F a, b; MC_CHECK(c, F::GetRootOfUnity(uint64_t{1} << i, &a) && (i >= 63 || (F::GetRootOfUnity(uint64_t{2} << i, &b) && o.raw(b.Square()) == o.raw(a))), "root_of_unity_compatible", "n=2^" << i << " p=" << o.p.get_str()); }
    // the generator lies outside every proper 2-power (and q-power) subgroup
    F g; if constexpr (kSmall<F>) { if constexpr (F::Config::kUseMontgomery) g = F::FromMontgomery(F::Config::kSubgroupGenerator); else g = F(F::Config::kSubgroupGenerator); } else g = F::FromMontgomery(F::Config::kSubgroupGenerator);
    mpz_class gz = o.z(g), e = pm / 2, t; mpz_powm(t.get_mpz_t(), gz.get_mpz_t(), e.get_mpz_t(), o.p.get_mpz_t());
    MC_CHECK(c, t == o.p - 1, "subgroup_generator", "generator " << gz.get_str() << " is a square, p=" << o.p.get_str());
    if (q) { e = pm / q; mpz_powm(t.get_mpz_t(), gz.get_mpz_t(), e.get_mpz_t(), o.p.get_mpz_t()); MC_CHECK(c, t != 1, "subgroup_generator_q", "p=" << o.p.get_str()); }
    // every element of every 2-power coset layer: g^(t*j) * x^(2^s)
    mpz_class tr = pm >> s; 
    for (unsigned k = 0; k <= s; ++k) for (int j = 1; j < (c.thorough ? 512 : 64); j += 2) for (int x = 1; x <= 3; ++x) {
      mpz_class ex = tr * j, w, y; ex <<= (s - k); mpz_powm(w.get_mpz_t(), gz.get_mpz_t(), ex.get_mpz_t(), o.p.get_mpz_t());
      mpz_class tw = mpz_class(1) << s; mpz_powm(y.get_mpz_t(), mpz_class(x).get_mpz_t(), tw.get_mpz_t(), o.p.get_mpz_t());
      Root<F>(c, o, w * y % o.p); c.states(1);
    }
    c.trace(s + 1);
  }
}

template <typename F> void All(mc::Ctx& c) {
  F::Init(); Ora<F> o;
  if (c.shard == 0) RootsOfUnity<F>(c, o);
  uint64_t n = o.ps < 100000 ? o.ps : 0;
  for (uint64_t i = 0; i < n; ++i) if (c.mine(i)) { Root<F>(c, o, mpz_class((unsigned long)i)); c.states(1); }
  if (!n) { uint64_t k = 0; for (const mpz_class& r : RawSet<F>(o, false)) if (c.mine(k++)) { mpz_class z = r * o.Rinv % o.p; Root<F>(c, o, z); Root<F>(c, o, z * z % o.p); c.states(2); }
    uint64_t m = c.thorough ? 400000 : 20000; for (uint64_t i = 0; i < m; ++i) if (c.mine(i)) { Root<F>(c, o, mpz_class((unsigned long)i)); c.states(1); } }
}
}  // namespace
#endif
