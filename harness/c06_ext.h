// C06: extension fields against schoolbook arithmetic in the declared tower.
#ifndef MC_C06_EXT_H_
#define MC_C06_EXT_H_
#include "mc/extora.h"

namespace {
using namespace tachyon::math::mcf;

template <typename F> struct Elems {
  using O = ExtOra<F>; using El = typename O::El; using S = typename O::S;
  std::vector<El> v;
  Elems(const O& o, double cap) {
    size_t n = O::n; std::set<std::string> seen;
    auto add = [&](const El& e) { if (seen.insert(o.str(e)).second) v.push_back(e); };
    std::vector<S> alpha;
    double pd = o.p.get_d(); size_t k = 0;
    while (k + 1 <= pd && k < 70000 && std::pow(double(k + 1), double(n)) <= cap) ++k;
    mpz_class pr[] = {0, 1, -1, 2, -2, o.p / 2, o.p / 2 + 1, 3, -3};
    std::set<std::string> as;
    auto aadd = [&](const mpz_class& z) { S s = o.sc.norm(z); if (alpha.size() < k && as.insert(o.sc.str(s)).second) alpha.push_back(s); };
    for (auto& z : pr) aadd(z);
    for (size_t i = 0; alpha.size() < k && i < 1000000; ++i) aadd(mpz_class((unsigned long)i));
    if (k >= 2) mc::tuples(n, alpha.size(), [&](const std::vector<int>& t) { El e; for (int i : t) e.push_back(alpha[i]); v.push_back(e); });
    if (k >= pd) return;
    for (auto& e : v) seen.insert(o.str(e));
    S sp[] = {o.sc.norm(1), o.sc.norm(-1), o.sc.norm(2), o.sc.norm(o.p / 2)};
    add(o.zero());
    for (size_t i = 0; i < n; ++i) for (auto& s : sp) add(o.scale(o.unit(i), s));
    if (n <= 6 || cap > 150) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) for (int s = 0; s < 2; ++s) for (int u = 0; u < 2; ++u) { El e = o.zero(); e[i] = sp[s]; e[j] = sp[u]; add(e); }
    El g(n), m(n, o.sc.norm(-1)); for (size_t i = 0; i < n; ++i) g[i] = o.sc.norm(mpz_class(i * i + 3 * i + 1));
    add(m); El w = g;
    for (int i = 0; i < 24; ++i) { add(w); w = o.mul(w, g); w = o.add(w, m); }
  }
};


template <typename F>
void Unary(mc::Ctx& c, const ExtOra<F>& o, const typename ExtOra<F>::El& v, bool deep) {
  using BF = typename F::BaseField;
  size_t n = o.n;
  F a = o.make(v), t;
  auto d = [&] { return "a=" + o.str(v) + " p=" + o.p.get_str(); };
  if (c.want_sample()) c.sample("unary ops on " + d());
  mc::at("unary", n);
  auto e = o.add(v, v);
  MC_CHECK(c, o.same(a.Double(), e), "double", d());
  t = a; t.DoubleInPlace(); MC_CHECK(c, o.same(t, e), "double_in_place", d());
  t = a; t += t; MC_CHECK(c, o.same(t, e), "add_alias", d());
  e = o.mul(v, v);
  MC_CHECK(c, o.same(a.Square(), e), "square", d());
  t = a; t.SquareInPlace(); MC_CHECK(c, o.same(t, e), "square_in_place", d());
  t = a; t *= t; MC_CHECK(c, o.same(t, e), "mul_alias", d());
  t = a; t -= t; MC_CHECK(c, o.same(t, o.zero()), "sub_alias", d());
  e = o.neg(v);
  MC_CHECK(c, o.same(-a, e), "negate", d());
  t = a; t.NegateInPlace(); MC_CHECK(c, o.same(t, e), "negate_in_place", d());
  bool z = o.is_zero(v);
  std::optional<F> inv = a.Inverse();
  t = a; bool ok = t.InverseInPlace().has_value();
  if (z) {
    MC_CHECK(c, !inv.has_value() && !ok, "inverse_of_zero", d());
    MC_CHECK(c, !(F::One() / a).has_value(), "div_by_zero", d());
  } else {
    MC_CHECK(c, inv.has_value() && o.mul(o.flat(*inv), v) == o.one() && o.same(*inv, o.flat(*inv)), "inverse", d());
    MC_CHECK(c, ok && o.same(t, o.flat(*inv)), "inverse_in_place", d());
    std::optional<F> q = a / a; MC_CHECK(c, q.has_value() && o.same(*q, o.one()), "div_self", d());
  }
  MC_CHECK(c, a.IsZero() == z && a.IsOne() == (v == o.one()) && a.IsMinusOne() == (v == o.neg(o.one())), "predicates", d());
  size_t i = 0; std::array<BF, F::Config::kDegreeOverBaseField> bs = a.ToBaseFields();
  bool bok = true; for (const BF& b : bs) { bok = bok && b == a[i]; ++i; }
  i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) bok = bok && *it == a[i];
  MC_CHECK(c, bok && i == F::Config::kDegreeOverBaseField, "to_base_fields", d());
  std::vector<typename F::BasePrimeField> pf; for (auto& s : v) pf.push_back(o.sc.to(s));
  MC_CHECK(c, o.same(F::FromBasePrimeFields(pf), v), "from_base_prime_fields", d());
  mc::at("frobenius", n);
  for (size_t x = 0; x <= 2 * n; ++x) {
    if (!deep && x > n) break;
    t = a; t.FrobeniusMapInPlace(x);
    MC_CHECK(c, o.same(t, o.frobenius(v, x)), "frobenius", d() << " exponent=" << x);
  }
  mc::at("norm", n);
  size_t bd = BF::ExtensionDegree();
  e = v; for (size_t x = bd; x < n; x += bd) e = o.mul(e, o.frobenius(v, x));
  {
    BF nm = a.Norm(); F l = F::Zero(); l[0] = nm;
    MC_CHECK(c, o.same(l, e), "norm", d());
  }
  // the declared non-residue: x^d = non-residue
  if constexpr (F::Config::kDegreeOverBaseField == 2) {
    t = a.Conjugate(); e = o.frobenius(v, n / 2);
    MC_CHECK(c, o.same(t, e), "conjugate", d());
    t = a; t.ConjugateInPlace(); MC_CHECK(c, o.same(t, e), "conjugate_in_place", d());
  }
  { F l = F::Zero(); l[0] = F::Config::MulByNonResidue(a[F::Config::kDegreeOverBaseField - 1]);
    auto w = o.zero(); size_t top = n - bd; for (size_t k = 0; k < bd; ++k) w[top + k] = v[top + k];
    MC_CHECK(c, o.same(l, o.mul(w, o.unit(bd))), "mul_by_non_residue", d()); }
  if (!deep) return;
  for (unsigned x : {0u, 1u, 2u, 3u, 5u, 6u, 11u, 31u, 255u}) {
    e = o.pow(v, x);
    MC_CHECK(c, o.same(a.Pow(tachyon::math::BigInt<1>(x)), e), "pow", d() << " e=" << x);
    t = a.Pow(tachyon::math::BigInt<2>(x)); MC_CHECK(c, o.same(t, e), "pow2", d() << " e=" << x);
  }
}

// Members of the cyclotomic subgroup: y = x^((q-1)/Phi).
template <typename F> void Cyclo(mc::Ctx& c, const ExtOra<F>& o, const typename ExtOra<F>::El& v) {
  size_t n = o.n;
  if (o.is_zero(v)) return;
  auto y = v;
  auto invv = o.pow(v, o.q - 2);
  if constexpr (F::Config::kDegreeOverBaseField == 2) {
    y = o.mul(o.frobenius(v, n / 2), invv);               // x^(p^(n/2) - 1)
    if (n == 12) y = o.mul(o.frobenius(y, 2), y);         // ^(p^2 + 1)
    if (n == 6) y = o.mul(o.frobenius(y, 1), y);          // ^(p + 1)
  }
  F a = o.make(y), t; auto d = [&] { return "a=" + o.str(y) + " p=" + o.p.get_str(); };
  if (!c.state(mc::hash_bytes(d().data(), d().size(), n))) return;
  mc::at("cyclotomic", n);
  auto e = o.mul(y, y);
  MC_CHECK(c, o.same(a.CyclotomicSquare(), e), "cyclotomic_square", d());
  t = a; t.CyclotomicSquareInPlace(); MC_CHECK(c, o.same(t, e), "cyclotomic_square_in_place", d());
  auto inv = a.CyclotomicInverse();
  MC_CHECK(c, inv.has_value() && o.mul(o.flat(*inv), y) == o.one(), "cyclotomic_inverse", d());
  t = a; bool ok = t.CyclotomicInverseInPlace().has_value(); MC_CHECK(c, ok && o.mul(o.flat(t), y) == o.one(), "cyclotomic_inverse_in_place", d());
  for (uint64_t x : {uint64_t{0}, uint64_t{1}, uint64_t{2}, uint64_t{3}, uint64_t{7}, uint64_t{10}, uint64_t{59}, uint64_t{0xd201000000010000}, ~uint64_t{0}}) {
    mpz_class z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &x);
    e = o.pow(y, z);
    MC_CHECK(c, o.same(a.CyclotomicPow(tachyon::math::BigInt<1>(x)), e), "cyclotomic_pow", d() << " e=" << x);
    { uint64_t ls[2] = {x, 1}; t = a; t.CyclotomicPowInPlace(tachyon::math::BigInt<2>(ls)); } z += mpz_class(1) << 64;
    MC_CHECK(c, o.same(t, o.pow(y, z)), "cyclotomic_pow_in_place", d() << " e=2^64+" << x);
  }
}

template <typename F>
void Binary(mc::Ctx& c, const ExtOra<F>& o, const F& a, const F& b, const typename ExtOra<F>::El& v, const typename ExtOra<F>::El& w) {
  using BF = typename F::BaseField;
  size_t n = o.n, bd = BF::ExtensionDegree();
  auto d = [&] { return "a=" + o.str(v) + " b=" + o.str(w) + " p=" + o.p.get_str(); };
  F t;
  auto e = o.add(v, w);
  MC_CHECK(c, o.same(a + b, e), "add", d());
  t = a; t += b; MC_CHECK(c, o.same(t, e), "add_in_place", d());
  e = o.sub(v, w);
  MC_CHECK(c, o.same(a - b, e), "sub", d());
  t = a; t -= b; MC_CHECK(c, o.same(t, e), "sub_in_place", d());
  auto m = o.mul(v, w);
  MC_CHECK(c, o.same(a * b, m), "mul", d());
  t = a; t *= b; MC_CHECK(c, o.same(t, m), "mul_in_place", d());
  MC_CHECK(c, (a == b) == (v == w) && (a != b) == (v != w), "equality", d());
  // order: lexicographic from the highest coefficient
  int cmp = 0; for (size_t i = n; i-- > 0 && !cmp;) cmp = v[i] < w[i] ? -1 : v[i] > w[i] ? 1 : 0;
  MC_CHECK(c, (a < b) == (cmp < 0) && (a > b) == (cmp > 0) && (a <= b) == (cmp <= 0) && (a >= b) == (cmp >= 0), "order", d());
  // multiplication by a base field element (the low coefficient of b)
  auto wl = o.zero(); for (size_t k = 0; k < bd; ++k) wl[k] = w[k];
  e = o.mul(v, wl);
  MC_CHECK(c, o.same(a * b[0], e), "mul_base", d());
  t = a; t *= b[0]; MC_CHECK(c, o.same(t, e), "mul_base_in_place", d());
  if constexpr (F::kDegreeOverBasePrimeField == 12) {
    auto slot = [&](int i, int k) { for (int x = 0; x < 2; ++x) wl[2 * i + x] = w[2 * k + x]; };
    wl = o.zero(); slot(0, 0); slot(3, 1); slot(4, 2); t = a; t.MulInPlaceBy034(b[0][0], b[0][1], b[0][2]);
    MC_CHECK(c, o.same(t, o.mul(v, wl)), "mul_by_034", d());
    wl = o.zero(); slot(0, 0); slot(1, 1); slot(4, 2); t = a; t.MulInPlaceBy014(b[0][0], b[0][1], b[0][2]);
    MC_CHECK(c, o.same(t, o.mul(v, wl)), "mul_by_014", d());
  } else if constexpr (F::kDegreeOverBasePrimeField == 6 && F::Config::kDegreeOverBaseField == 2) {
    wl = o.zero(); wl[0] = w[0]; wl[3] = w[1]; wl[4] = w[2]; t = a; t.MulInPlaceBy034(b[0][0], b[0][1], b[0][2]);
    MC_CHECK(c, o.same(t, o.mul(v, wl)), "mul_by_034", d());
    wl = o.zero(); wl[0] = w[0]; wl[1] = w[1]; wl[4] = w[2]; t = a; t.MulInPlaceBy014(b[0][0], b[0][1], b[0][2]);
    MC_CHECK(c, o.same(t, o.mul(v, wl)), "mul_by_014", d());
  } else if constexpr (F::kDegreeOverBasePrimeField == 6 && F::Config::kDegreeOverBaseField == 3) {
    wl = o.zero(); wl[0] = w[0]; wl[1] = w[1]; wl[2] = w[2]; wl[3] = w[3]; t = a; t.MulInPlaceBy01(b[0], b[1]);
    MC_CHECK(c, o.same(t, o.mul(v, wl)), "mul_by_01", d());
    wl = o.zero(); wl[2] = w[0]; wl[3] = w[1]; t = a; t.MulInPlaceBy1(b[0]);
    MC_CHECK(c, o.same(t, o.mul(v, wl)), "mul_by_1", d());
  }
}

template <typename F> void Tower(mc::Ctx& c, double ucap, double pcap, int cyc) {
  F::Init();
  ExtOra<F> o; using El = typename ExtOra<F>::El; size_t n = o.n;
  // field: the declared polynomial is irreducible. The Frobenius fixes exactly Fp.
  {
    size_t d = F::Config::kDegreeOverBaseField; El nr = o.zero(); size_t bd = n / d;
    El u = o.unit(bd); nr = o.pow(u, d);
    mpz_class qb; mpz_pow_ui(qb.get_mpz_t(), o.p.get_mpz_t(), bd);
    for (unsigned f : {2u, 3u}) if (d % f == 0) MC_CHECK(c, o.pow(nr, (qb - 1) / f) != o.one(), "non_residue", "not a field: x^" << d << " - " << o.str(nr) << " p=" << o.p.get_str());
    MC_CHECK(c, o.same(F::Zero(), o.zero()) && o.same(F::One(), o.one()) && o.same(F::MinusOne(), o.neg(o.one())) && F::ExtensionDegree() == n, "constants", "");
    auto two = o.add(o.one(), o.one());
    MC_CHECK(c, o.mul(o.flat(F::TwoInv()), two) == o.one(), "two_inv", "");
  }
  double m = c.thorough ? 8 : 1;
  { Elems<F> es(o, ucap * m); bool deep = es.v.size() < 3000;
    for (size_t i = 0; i < es.v.size(); ++i) if (c.mine(i)) { c.states(1); Unary<F>(c, o, es.v[i], deep || i % 8 == 0); if (cyc && i % cyc == 0) Cyclo<F>(c, o, es.v[i]); } }
  Elems<F> es(o, pcap * (c.thorough ? 3 : 1));
  std::vector<F> fs; for (auto& e : es.v) fs.push_back(o.make(e));
  for (size_t i = 0; i < fs.size(); ++i) if (c.mine(i)) {
    mc::at("binary row", i, n);
    for (size_t j = 0; j < fs.size(); ++j) Binary<F>(c, o, fs[i], fs[j], es.v[i], es.v[j]);
    c.states(fs.size()); c.trace();
    // sums of products
    if (i % 4 == 0) for (size_t len = 1; len <= 4; ++len) {
      std::vector<F> l, r; El s = o.zero();
      for (size_t k = 0; k < len; ++k) { size_t x = (i * 7 + k * 13) % fs.size(), y = (i * 5 + k * 29 + 1) % fs.size(); l.push_back(fs[x]); r.push_back(fs[y]); s = o.add(s, o.mul(es.v[x], es.v[y])); }
      MC_CHECK(c, o.same(F::SumOfProductsSerial(l, r), s) && o.same(F::SumOfProducts(l, r), s), "sum_of_products", "row " << i << " len " << len);
    }
  }
}
}  // namespace
#endif
