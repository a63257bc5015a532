// Schoolbook oracle for extension towers: structure constants over Fp built
// from the declared non-residues; scalars are machine integers or GMP.
#ifndef MC_EXTORA_H_
#define MC_EXTORA_H_
#include "mc/mcfield.h"

namespace tachyon::math::mcf {

template <typename P, bool Small = kSmall<P>> struct Sc;
template <typename P> struct Sc<P, true> {
  using S = uint64_t; Ora<P> o; S p; std::vector<P> tab;
  Sc() { p = o.ps; if (p < 70000) for (S i = 0; i < p; ++i) tab.push_back(o.canon(mpz_class((unsigned long)i))); }
  S norm(const mpz_class& z) const { mpz_class t = z % o.p; if (t < 0) t += o.p; return t.get_ui(); }
  S add(S a, S b) const { return (a + b) % p; }
  S sub(S a, S b) const { return (a + p - b) % p; }
  S mul(S a, S b) const { return a * b % p; }
  S from(const P& a) const { return (uint64_t)a.value() * o.rinvs % p; }
  P to(S s) const { return tab.empty() ? o.canon(mpz_class((unsigned long)s)) : tab[s]; }
  bool same(const P& a, S s) const { return (uint64_t)a.value() < p && from(a) == s; }
  std::string str(S s) const { return std::to_string(s); }
};
template <typename P> struct Sc<P, false> {
  using S = mpz_class; Ora<P> o; S p;
  Sc() { p = o.p; }
  S norm(const mpz_class& z) const { mpz_class t = z % p; if (t < 0) t += p; return t; }
  S add(const S& a, const S& b) const { S r = a + b; if (r >= p) r -= p; return r; }
  S sub(const S& a, const S& b) const { S r = a - b; if (r < 0) r += p; return r; }
  S mul(const S& a, const S& b) const { return a * b % p; }
  S from(const P& a) const { return o.z(a); }
  P to(const S& s) const { return o.canon(s); }
  bool same(const P& a, const S& s) const { return o.is(a, s * o.R % p); }
  std::string str(const S& s) const { return s.get_str(16); }
};

template <typename C, typename = void> struct HasDeg : std::false_type {};
template <typename C> struct HasDeg<C, std::void_t<decltype(C::kDegreeOverBaseField)>> : std::true_type {};
template <typename T> struct IsPrimeF { static constexpr bool v = !HasDeg<typename T::Config>::value; };

template <typename F, typename G> void EachBase(F& f, size_t& i, G g) {
  if constexpr (IsPrimeF<std::remove_const_t<F>>::v) { g(f, i++); }
  else for (size_t k = 0; k < F::Config::kDegreeOverBaseField; ++k) EachBase(f[k], i, g);
}

template <typename F> struct ExtOra {
  using P = typename F::BasePrimeField; using S = typename Sc<P>::S; using El = std::vector<S>;
  static constexpr size_t n = F::kDegreeOverBasePrimeField;
  Sc<P> sc;
  struct Term { int k; S c; };
  std::vector<std::vector<std::vector<Term>>> T;
  mpz_class p, q;
  std::vector<El> frob[2 * n + 3];  // images of the basis

  using Tab = std::vector<std::vector<El>>;
  template <typename K> Tab table() const {
    if constexpr (IsPrimeF<K>::v) { return {{{S(1)}}}; }
    else {
      Tab b = table<typename K::BaseField>(); size_t m = b.size(), d = K::Config::kDegreeOverBaseField;
      El nr = flat(K::Config::kNonResidue);
      Tab t(d * m, std::vector<El>(d * m, El(d * m, S(0))));
      for (size_t i = 0; i < d * m; ++i) for (size_t j = 0; j < d * m; ++j) {
        El v = b[i % m][j % m]; size_t e = i / m + j / m;
        if (e >= d) {
          El w(m, S(0));
          for (size_t x = 0; x < m; ++x) for (size_t y = 0; y < m; ++y) { S s = sc.mul(v[x], nr[y]); for (size_t z = 0; z < m; ++z) w[z] = sc.add(w[z], sc.mul(s, b[x][y][z])); }
          v = w; e -= d;
        }
        for (size_t z = 0; z < m; ++z) t[i][j][e * m + z] = v[z];
      }
      return t;
    }
  }
  template <typename K> El flat(const K& a) const { El r; size_t i = 0; EachBase(a, i, [&](const P& x, size_t) { r.push_back(sc.from(x)); }); return r; }
  F make(const El& v) const { F f = F::Zero(); size_t i = 0; EachBase(f, i, [&](P& x, size_t k) { x = sc.to(v[k]); }); return f; }
  bool same(const F& a, const El& v) const { bool ok = true; size_t i = 0; EachBase(a, i, [&](const P& x, size_t k) { ok = ok && sc.same(x, v[k]); }); return ok; }

  ExtOra() {
    p = sc.o.p; mpz_pow_ui(q.get_mpz_t(), p.get_mpz_t(), n);
    Tab t = table<F>();
    T.resize(n);
    for (size_t i = 0; i < n; ++i) { T[i].resize(n); for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) if (t[i][j][k] != 0) T[i][j].push_back({(int)k, t[i][j][k]}); }
    frob[0].resize(n);
    for (size_t k = 0; k < n; ++k) frob[0][k] = unit(k);
    for (size_t e = 1; e < 2 * n + 3; ++e) { frob[e].resize(n); for (size_t k = 0; k < n; ++k) frob[e][k] = pow(frob[e - 1][k], p); }
  }
  El zero() const { return El(n, S(0)); }
  El unit(size_t k) const { El r = zero(); r[k] = 1; return r; }
  El one() const { return unit(0); }
  El add(const El& a, const El& b) const { El r(n); for (size_t i = 0; i < n; ++i) r[i] = sc.add(a[i], b[i]); return r; }
  El sub(const El& a, const El& b) const { El r(n); for (size_t i = 0; i < n; ++i) r[i] = sc.sub(a[i], b[i]); return r; }
  El neg(const El& a) const { return sub(zero(), a); }
  El scale(const El& a, const S& s) const { El r(n); for (size_t i = 0; i < n; ++i) r[i] = sc.mul(a[i], s); return r; }
  El mul(const El& a, const El& b) const {
    El r = zero();
    for (size_t i = 0; i < n; ++i) if (a[i] != 0) for (size_t j = 0; j < n; ++j) if (b[j] != 0) {
      S s = sc.mul(a[i], b[j]);
      for (const Term& t : T[i][j]) r[t.k] = sc.add(r[t.k], t.c == 1 ? s : sc.mul(s, t.c));
    }
    return r;
  }
  El pow(const El& a, const mpz_class& e) const {
    El r = one();
    for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); }
    return r;
  }
  El frobenius(const El& a, size_t e) const { El r = zero(); for (size_t k = 0; k < n; ++k) if (a[k] != 0) r = add(r, scale(frob[e][k], a[k])); return r; }
  bool is_zero(const El& a) const { for (const S& s : a) if (s != 0) return false; return true; }
  std::string str(const El& a) const { std::string r = "("; for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + sc.str(a[i]); return r + ")"; }
};

}  // namespace tachyon::math::mcf
#endif
