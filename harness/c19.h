// Reference definitions for the algebraic hashes of C19.
#ifndef MC_C19_H_
#define MC_C19_H_
#include <set>
#include <vector>

#include "mc/mc.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
namespace c19 {
using namespace tachyon; using namespace tachyon::crypto;
// The Grain LFSR in self-shrinking mode, from the description in the Poseidon paper.
struct Grain {
  std::vector<bool> b; size_t at = 0;
  Grain(bool inv, int n, int t, int rf, int rp) {
    auto put = [&](uint64_t v, int k) { for (int i = k - 1; i >= 0; --i) b.push_back(v >> i & 1); };
    put(1, 2); put(inv, 4); put(n, 12); put(t, 12); put(rf, 10); put(rp, 10); for (int i = 0; i < 30; ++i) b.push_back(true);
    for (int i = 0; i < 160; ++i) raw();
  }
  bool raw() { size_t k = b.size() - 80; bool v = b[k + 62] ^ b[k + 51] ^ b[k + 38] ^ b[k + 23] ^ b[k + 13] ^ b[k]; b.push_back(v); return v; }
  bool bit() { while (!raw()) raw(); return raw(); }
  std::vector<bool> bits(int n) { std::vector<bool> v; for (int i = 0; i < n; ++i) v.push_back(bit()); return v; }  // most significant first
};
// Horner; reduces on the way. `below` tells whether the integer is below the modulus.
template <typename F> F FromBits(const std::vector<bool>& v, bool* below) {
  using B = typename F::BigIntTy; F x = F::Zero(); for (bool b : v) { x = x + x; if (b) x += F::One(); }
  // compare with the modulus bit by bit
  *below = false; std::vector<bool> m; B q(F::Config::kModulus); for (int i = int(v.size()) - 1; i >= 0; --i) m.push_back(q[i / 64] >> (i % 64) & 1);
  for (size_t i = 0; i < v.size(); ++i) if (v[i] != m[i]) { *below = m[i]; break; }
  return x;
}
template <typename F> F Sample(Grain& g) { for (;;) { bool ok; F x = FromBits<F>(g.bits(F::Config::kModulusBits), &ok); if (ok) return x; } }
template <typename F> F SampleMod(Grain& g) { bool ok; return FromBits<F>(g.bits(F::Config::kModulusBits), &ok); }
template <typename F> using Mx = std::vector<std::vector<F>>;
template <typename F> F Pow(F x, uint64_t e) { F r = F::One(); while (e--) r = r * x; return r; }
template <typename F> void Mul(const Mx<F>& m, std::vector<F>& v) { std::vector<F> r(v.size(), F::Zero()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) r[i] += m[i][j] * v[j]; v = r; }
template <typename F> struct RefPoseidon {
  Mx<F> ark, mds; int alpha, rf, rp; size_t skip = 0;
  // Picks the first matrix with distinct points and no zero sum, starting at `skip`.
  RefPoseidon(int t, int alpha, int rf, int rp, size_t first_skip) : alpha(alpha), rf(rf), rp(rp) {
    for (skip = first_skip;; ++skip) {
      Grain g(false, F::Config::kModulusBits, t, rf, rp); ark.clear(); mds.clear();
      for (int r = 0; r < rf + rp; ++r) { ark.emplace_back(); for (int i = 0; i < t; ++i) ark.back().push_back(Sample<F>(g)); }
      for (size_t s = 0; s < skip; ++s) for (int i = 0; i < 2 * t; ++i) SampleMod<F>(g);
      std::vector<F> xs, ys; for (int i = 0; i < t; ++i) xs.push_back(SampleMod<F>(g)); for (int i = 0; i < t; ++i) ys.push_back(SampleMod<F>(g));
      bool good = true; for (int i = 0; i < t; ++i) for (int j = 0; j < t; ++j) good &= (i == j || (xs[i] != xs[j] && ys[i] != ys[j])) && !(xs[i] + ys[j]).IsZero();
      if (!good) continue;
      for (auto& x : xs) { mds.emplace_back(); for (auto& y : ys) mds.back().push_back(*(x + y).Inverse()); }
      return;
    }
  }
  void Permute(std::vector<F>& s) const {
    for (int r = 0; r < rf + rp; ++r) {
      for (size_t i = 0; i < s.size(); ++i) s[i] += ark[r][i];
      bool full = r < rf / 2 || r >= rf / 2 + rp;
      for (size_t i = 0; i < (full ? s.size() : 1); ++i) s[i] = Pow(s[i], alpha);
      Mul(mds, s);
    }
  }
};
template <typename F> struct RefPoseidon2 {
  Mx<F> ark, ext, in; int alpha, rf, rp;
  RefPoseidon2(int t, int alpha, int rf, int rp, bool plonky3_ext, const std::vector<F>& diag_minus_one, F scale) : alpha(alpha), rf(rf), rp(rp) {
    Grain g(false, F::Config::kModulusBits, t, rf, rp);
    for (int r = 0; r < rf + rp; ++r) { bool full = r < rf / 2 || r >= rf / 2 + rp; ark.emplace_back(t, F::Zero()); for (int i = 0; i < (full ? t : 1); ++i) ark.back()[i] = Sample<F>(g); }
    static const int H[4][4] = {{5, 7, 1, 3}, {4, 6, 1, 1}, {1, 3, 5, 7}, {1, 1, 4, 6}}, P[4][4] = {{2, 3, 1, 1}, {1, 2, 3, 1}, {1, 1, 2, 3}, {3, 1, 1, 2}};
    auto small = [](int n) { F r = F::Zero(); while (n--) r += F::One(); return r; };
    ext.assign(t, std::vector<F>(t)); in = ext;
    for (int i = 0; i < t; ++i) for (int j = 0; j < t; ++j) {
      if (t < 4) ext[i][j] = small(i == j ? 2 : 1); else { int m = plonky3_ext ? P[i % 4][j % 4] : H[i % 4][j % 4]; ext[i][j] = small(t > 4 && i / 4 == j / 4 ? 2 * m : m); }
      in[i][j] = scale * (i == j ? F::One() + diag_minus_one[i] : F::One());
    }
  }
  void Permute(std::vector<F>& s) const {
    Mul(ext, s);
    for (int r = 0; r < rf + rp; ++r) {
      for (size_t i = 0; i < s.size(); ++i) s[i] += ark[r][i];
      bool full = r < rf / 2 || r >= rf / 2 + rp;
      for (size_t i = 0; i < (full ? s.size() : 1); ++i) s[i] = Pow(s[i], alpha);
      Mul(full ? ext : in, s);
    }
  }
};
template <typename F> bool Invertible(Mx<F> m) {
  for (size_t k = 0; k < m.size(); ++k) { size_t p = k; while (p < m.size() && m[p][k].IsZero()) ++p; if (p == m.size()) return false; std::swap(m[p], m[k]); F inv = *m[k][k].Inverse(); for (size_t r = k + 1; r < m.size(); ++r) { F f = m[r][k] * inv; for (size_t c = k; c < m.size(); ++c) m[r][c] = m[r][c] - f * m[k][c]; } }
  return true;
}
// x -> x^alpha is a bijection iff no nontrivial alpha-th root of unity exists; alpha is a small prime.
template <typename F> bool SBoxInjective(uint32_t alpha) { using B = typename F::BigIntTy; B m(F::Config::kModulus); uint64_t r = 0; for (size_t i = B::kLimbNums; i-- > 0;) for (int b = 63; b >= 0; --b) r = (r * 2 + (m[i] >> b & 1)) % alpha; return r != 1; }
// Interesting states of width t.
template <typename F> std::vector<std::vector<F>> States(int t) {
  std::vector<std::vector<F>> v; F z = F::Zero(), o = F::One(), m = -F::One(); F g = o; for (int i = 0; i < 40; ++i) g = g * g + F(uint32_t(3 + i));
  v.emplace_back(t, z); v.emplace_back(t, o); v.emplace_back(t, m); v.emplace_back(t, g);
  for (int i = 0; i < t; ++i) for (F x : {o, m, g}) { v.emplace_back(t, z); v.back()[i] = x; v.emplace_back(t, m); v.back()[i] = x; if (i + 1 < t) { v.emplace_back(t, z); v.back()[i] = x; v.back()[i + 1] = m; } v.emplace_back(t, z); v.back()[0] = m; v.back()[i] = x; }
  v.emplace_back(); for (int i = 0; i < t; ++i) { v.back().push_back(g); g = g * g + o; }
  return v;
}
template <typename F> std::string Show(const std::vector<F>& v) { std::string s; for (auto& x : v) s += x.ToString() + ","; return s.size() > 150 ? s.substr(0, 150) + "..." : s; }
// Compares a sponge's permutation with a reference on all states (small spaces) or on the interesting ones.
template <typename S, typename Ref> void Compare(mc::Ctx& c, const std::string& name, const S& sponge, const Ref& ref, uint64_t space_limit, bool injective) {
  using P = typename S::Params; using F = typename P::Field; const int t = P::kWidth;
  mc::at_s("permutation", name.c_str());
  auto one = [&](const std::vector<F>& s) { SpongeState<P> st; for (int i = 0; i < t; ++i) st[i] = s[i]; std::vector<F> r = s; ref.Permute(r); sponge.Permute(st); c.step();
    bool ok = true; for (int i = 0; i < t; ++i) ok &= st[i] == r[i]; MC_CHECK(c, ok, "permutation", name << " of " << Show(s) << ": " << st.ToString() << " instead of " << Show(r)); return st; };
  double space = 1; uint64_t p = 0; if (F::Config::kModulusBits <= 20) { using B = typename F::BigIntTy; p = B(F::Config::kModulus)[0]; for (int i = 0; i < t; ++i) space *= double(p); }
  if (p && space <= double(space_limit)) {
    std::vector<bool> hit(size_t(space), false); uint64_t hits = 0;
    for (uint64_t k = 0; k < uint64_t(space); ++k) { std::vector<F> s; uint64_t x = k; for (int i = 0; i < t; ++i) { s.push_back(F(uint32_t(x % p))); x /= p; } auto st = one(s); uint64_t y = 0; for (int i = t; i-- > 0;) { uint64_t e = 0; for (F a = F::Zero(); a != st[i] && e < p; a += F::One()) ++e; y = y * p + e; } if (y < hit.size() && !hit[y]) { hit[y] = true; ++hits; } }
    if (injective) MC_CHECK(c, hits == uint64_t(space), "injective", name << ": " << hits << " images of " << uint64_t(space)); c.states(uint64_t(space));
  } else { auto v = States<F>(t); for (auto& s : v) one(s); c.states(v.size()); }
  c.trace(); if (c.want_sample()) c.sample(name);
}
}  // namespace c19
#endif
