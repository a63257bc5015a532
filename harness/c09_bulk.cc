// C09: bulk algebra helpers against the element-wise definition, for every
// team size of the (deterministic) OpenMP runtime or without OpenMP.
#include "mc/c06_ext.h"
#include "mc/ext/m13_2.h"
#include "mc/fields/l127.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m17.h"
#include "mc/fields/m7.h"
#include "mc/fields/p13.h"
#include "mc/mcfield.h"
#include "tachyon/math/base/rational_field.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using tachyon::base::bits::ReverseBitsLen;

#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 5, 7, 8, 16};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif

template <typename F> std::vector<F> Pool(int n) {  // n distinct elements, [0] = 0, [1] = 1
  std::vector<F> v;
  if constexpr (ExtensionFieldTraits<F>::kDegreeOverBasePrimeField == 1) { F x = F::Zero(); for (int i = 0; i < n; ++i) { v.push_back(x); x += F::One(); } }
  else { for (int i = 0; i < n; ++i) { typename F::BaseField a = F::BaseField::Zero(), b = a; for (int j = 0; j < i % 3; ++j) b += F::BaseField::One(); for (int j = 0; j < (i + 1) / 2; ++j) a += F::BaseField::One(); v.push_back(i == 0 ? F::Zero() : i == 1 ? F::One() : F(a, b)); } }
  return v;
}
template <typename F> std::vector<F> Spread(size_t n, size_t salt) {  // long vectors without structure
  std::vector<F> v; F g = Pool<F>(4)[2], x = g; for (size_t i = 0; i < salt; ++i) x *= g;
  for (size_t i = 0; i < n; ++i) { v.push_back(x); x = x * g + (i % 3 ? F::One() : g); }
  return v;
}

template <typename F> std::string Show(const std::vector<F>& v) { std::string s = "["; for (auto& x : v) s += x.ToString() + " "; return s + "]"; }

template <typename F> void Inverse(mc::Ctx& c, const std::vector<F>& v, const F& coeff, int team) {
  size_t n = v.size();
  std::vector<F> want(n);
  for (size_t i = 0; i < n; ++i) want[i] = v[i].IsZero() ? F::Zero() : *v[i].Inverse() * coeff;
  auto d = [&] { return "n=" + std::to_string(n) + " team=" + std::to_string(team) + " coeff=" + coeff.ToString() + " v=" + Show(v).substr(0, 300); };
  c.trace();
  if (c.want_sample()) c.sample("batch inverse " + d());
  mc::at("batch_inverse", n, team);
  { std::vector<F> o(n, coeff); bool ok = F::BatchInverse(v, &o, coeff); MC_CHECK(c, ok && o == want, "batch_inverse", d() << " gives " << Show(o)); }
  { std::vector<F> o(n, coeff); bool ok = F::BatchInverseSerial(v, &o, coeff); MC_CHECK(c, ok && o == want, "batch_inverse_serial", d()); }
  { auto o = v; bool ok = F::BatchInverseInPlace(o, coeff); MC_CHECK(c, ok && o == want, "batch_inverse_in_place", d()); }
  { auto o = v; bool ok = F::BatchInverseInPlaceSerial(o, coeff); MC_CHECK(c, ok && o == want, "batch_inverse_in_place_serial", d()); }
  if (coeff.IsOne()) { auto o = v; bool ok = F::BatchInverseInPlace(o); MC_CHECK(c, ok && o == want, "batch_inverse_default_coeff", d()); }
  { std::vector<F> o(n + 1); MC_CHECK(c, !F::BatchInverse(v, &o, coeff) && !F::BatchInverseSerial(v, &o, coeff), "batch_inverse_size", d()); }
}

template <typename F> void Sums(mc::Ctx& c, const std::vector<F>& a, const std::vector<F>& b, int team) {
  F want = F::Zero(); for (size_t i = 0; i < a.size(); ++i) want += a[i] * b[i];
  mc::at("sum_of_products", a.size(), team);
  MC_CHECK(c, F::SumOfProducts(a, b) == want, "sum_of_products", "n=" << a.size() << " team=" << team);
  MC_CHECK(c, F::SumOfProductsSerial(a, b) == want, "sum_of_products_serial", "n=" << a.size());
}

template <typename F> void Linear(mc::Ctx& c, const std::vector<F>& v, const F& r) {
  F fwd = F::Zero(), bwd = F::Zero(), p = F::One();
  for (size_t i = 0; i < v.size(); ++i) { bwd += v[i] * p; fwd += v[v.size() - 1 - i] * p; p *= r; }
  mc::at("linear_combination", v.size());
  MC_CHECK(c, F::template LinearCombination<true>(v, r) == fwd, "linear_combination_forward", "n=" << v.size() << " r=" << r.ToString());
  MC_CHECK(c, F::template LinearCombination<false>(v, r) == bwd, "linear_combination_backward", "n=" << v.size() << " r=" << r.ToString());
  if (!v.empty()) {
    auto o = v; F& x = F::template LinearCombinationInPlace<true>(o, r); MC_CHECK(c, x == fwd, "linear_combination_in_place_forward", "n=" << v.size());
    o = v; F& y = F::template LinearCombinationInPlace<false>(o, r); MC_CHECK(c, y == bwd, "linear_combination_in_place_backward", "n=" << v.size());
  }
}

template <typename F> void Powers(mc::Ctx& c, size_t n, const F& g, const F& k, int team) {
  std::vector<F> want; F x = k; for (size_t i = 0; i < n; ++i) { want.push_back(x); x *= g; }
  auto d = [&] { return "n=" + std::to_string(n) + " g=" + g.ToString() + " c=" + k.ToString() + " team=" + std::to_string(team); };
  c.trace();
  mc::at("successive_powers", n, team);
  MC_CHECK(c, F::GetSuccessivePowers(n, g, k) == want, "successive_powers", d());
  if (k.IsOne()) MC_CHECK(c, F::GetSuccessivePowers(n, g) == want, "successive_powers_default", d());
  if (n && (n & (n - 1)) == 0) {
    uint32_t l = __builtin_ctzll(n); std::vector<F> w(n);
    for (size_t i = 0; i < n; ++i) { size_t r = 0; for (uint32_t b = 0; b < l; ++b) r |= (i >> b & 1) << (l - 1 - b); w[r] = want[i]; }
    mc::at("bit_reversed_powers", n, team);
    MC_CHECK(c, F::GetBitRevIndexSuccessivePowers(n, g, k) == w, "bit_rev_powers", d());
    MC_CHECK(c, F::GetBitRevIndexSuccessivePowersSerial(n, g, k) == w, "bit_rev_powers_serial", d());
  }
  std::vector<F> m; F s = F::Zero(); for (size_t i = 0; i < n; ++i) { m.push_back(s); s += g; }
  mc::at("successive_scalar_muls", n, team);
  MC_CHECK(c, F::GetSuccessiveScalarMuls(n, g) == m, "successive_scalar_muls", d());
}

// All vectors up to length L over a pool of P elements, all coefficients of the pool.
template <typename F> void Exhaust(mc::Ctx& c, int P, int L) {
  auto pool = Pool<F>(P); uint64_t id = 0;
  for (int team : kTeams) { Team(team);
    for (int n = 0; n <= L; ++n) mc::tuples(n, P, [&](const std::vector<int>& t) {
      if (!c.mine(id++)) return;
      std::vector<F> v; uint64_t h = n; for (int i : t) { v.push_back(pool[i]); h = h * P + i; }
      c.state(mc::mix(h, n * 64 + team));
      for (int k = 1; k < P; ++k) { Inverse(c, v, pool[k], team); }
      for (int k = 0; k < P; ++k) Linear(c, v, pool[k]);
      std::vector<F> w(v.rbegin(), v.rend()); for (size_t i = 0; i < w.size(); ++i) w[i] += pool[i % P];
      Sums(c, v, w, team);
    });
  }
}

// Every length up to N x every team; zero at none / one position / all / a pattern.
template <typename F> void Lengths(mc::Ctx& c, int N) {
  auto pool = Pool<F>(5); uint64_t id = 0;
  for (int team : kTeams) { Team(team);
    for (int n = 0; n <= N; ++n) {
      if (!c.mine(id++)) continue;
      auto v = Spread<F>(n, n), w = Spread<F>(n, n + 3);
      c.state(n * 64 + team);
      Sums(c, v, w, team); Linear(c, v, pool[3]);
      for (int k = 0; k < (n ? 5 : 0); ++k) for (int g = 0; g < 5; ++g) Powers(c, n, pool[g], pool[k], team);
      for (int z = -2; z < n; ++z) {
        auto u = v; if (z == -2) for (int i = 0; i < n; i += 2) u[i] = F::Zero(); else if (z >= 0) u[z] = F::Zero();
        Inverse(c, u, pool[z & 1 ? 1 : 3], team); c.state(mc::mix(n * 64 + team, z + 5));
      }
    }
  }
}

template <typename F> void Scalars(mc::Ctx& c, int N) {
  // Pow/ScalarMul: every exponent to N; bulk scalar multiplication over every length
  Ora<F> o; auto pool = Pool<F>(6);
  for (int g = 0; g < 6; ++g) {
    F p = F::One(), s = F::Zero(); std::vector<F> tab; for (F t = pool[g]; tab.size() < 64; t.SquareInPlace()) tab.push_back(t);
    for (int e = 0; e <= N; ++e) {
      c.state(mc::mix(g, e)); mc::at("pow", g, e);
      MC_CHECK(c, pool[g].Pow(BigInt<1>(e)) == p && pool[g].Pow(BigInt<3>(e)) == p && pool[g].Pow(e) == p, "pow", g << "^" << e);
      MC_CHECK(c, F::PowWithTable(tab, BigInt<1>(e)) == p && F::PowWithTable(tab, BigInt<2>(e)) == p, "pow_with_table", g << "^" << e);
      MC_CHECK(c, pool[g].ScalarMul(BigInt<1>(e)) == s && pool[g].ScalarMul(BigInt<2>(e)) == s && pool[g].ScalarMul(e) == s, "scalar_mul", e << "*" << g);
      p *= pool[g]; s += pool[g];
    }
    for (uint32_t k = 0; k < 12; ++k) { F w = pool[g]; for (uint32_t i = 0; i < k; ++i) w *= w; MC_CHECK(c, pool[g].ExpPowOfTwo(k) == w, "exp_pow_of_two", g << " " << k); }
  }
  c.trace();
}
template <typename F, uint32_t... I> void ConstScalars(mc::Ctx& c, std::integer_sequence<uint32_t, I...>) {
  for (auto& g : Pool<F>(6)) {
    mc::at("const_pow");
    auto one = [&](auto k, F pw, F sm) { F p = F::One(), s = F::Zero(); for (uint32_t i = 0; i < k; ++i) { p *= g; s += g; }
      MC_CHECK(c, pw == p, "const_pow", g.ToString() << "^" << k); MC_CHECK(c, sm == s, "const_scalar_mul", k << "*" << g.ToString()); };
    (one(I, g.template ConstPow<I>(), g.template ConstScalarMul<I>()), ...);
  }
}

template <typename F> void Multi(mc::Ctx& c, int N) {
  auto pool = Pool<F>(5);
  for (int team : kTeams) { Team(team);
    for (int n = 0; n <= N; ++n) {
      auto s = Spread<F>(n, 1), b = Spread<F>(n, 5); c.state(mc::mix(n, team)); mc::at("multi_scalar_mul", n, team);
      std::vector<F> o(n), w1(n), w2(n), w3(n);
      for (int i = 0; i < n; ++i) { w1[i] = s[i] * b[i]; w2[i] = s[i] * pool[3]; w3[i] = pool[4] * b[i]; }
      bool ok = F::MultiScalarMul(s, b, &o); MC_CHECK(c, ok == (n > 0) && (!n || o == w1), "msmb", n << " team " << team);
      o.assign(n, F::One()); ok = F::MultiScalarMul(s, pool[3], &o); MC_CHECK(c, ok == (n > 0) && (!n || o == w2), "mssb", n << " team " << team);
      o.assign(n, F::One()); ok = F::MultiScalarMul(pool[4], b, &o); MC_CHECK(c, ok == (n > 0) && (!n || o == w3), "ssmb", n << " team " << team);
      std::vector<F> bad(n + 1); auto longer = b; longer.push_back(F::One());
      MC_CHECK(c, !F::MultiScalarMul(s, b, &bad) && !F::MultiScalarMul(s, longer, &o) && !F::MultiScalarMul(s, pool[3], &bad) && !F::MultiScalarMul(pool[4], b, &bad), "multi_scalar_mul_size", n);
    }
  }
}

template <typename F> void Rational(mc::Ctx& c, int P) {
  using R = RationalField<F>;
  std::vector<std::pair<F, F>> q; auto pool = Pool<F>(P);
  for (auto& n : pool) for (int d = 1; d < P; ++d) q.push_back({n, pool[d]});
  auto val = [](const R& r) { return r.numerator() * *r.denominator().Inverse(); };
  for (size_t i = 0; i < q.size(); ++i) {
    R a(q[i].first, q[i].second); F va = q[i].first * *q[i].second.Inverse(); c.state(i);
    mc::at("rational_unary", i);
    MC_CHECK(c, a.Evaluate() == va, "evaluate", i);
    MC_CHECK(c, a.IsZero() == va.IsZero() && a.IsOne() == va.IsOne() && a.IsMinusOne() == (va == F::MinusOne()), "predicates", i);
    MC_CHECK(c, val(a.Double()) == va + va && val(-a) == F::Zero() - va && val(a.Square()) == va * va, "unary", i);
    R t = a; t.DoubleInPlace(); MC_CHECK(c, val(t) == va + va, "double_in_place", i);
    t = a; t.NegateInPlace(); MC_CHECK(c, val(t) == F::Zero() - va, "negate_in_place", i);
    t = a; t.SquareInPlace(); MC_CHECK(c, val(t) == va * va, "square_in_place", i);
    auto inv = a.Inverse(); MC_CHECK(c, inv.has_value() == !va.IsZero() && (!inv || val(*inv) * va == F::One()), "inverse", i);
    t = a; auto ii = t.InverseInPlace(); MC_CHECK(c, ii.has_value() == !va.IsZero() && (!ii || val(t) * va == F::One()), "inverse_in_place", i);
    t = a; t += t; MC_CHECK(c, val(t) == va + va, "add_self", i);
    t = a; t -= t; MC_CHECK(c, val(t).IsZero(), "sub_self", i);
    t = a; t *= t; MC_CHECK(c, val(t) == va * va, "mul_self", i);
    if (!va.IsZero()) { t = a; (void)(t /= t); MC_CHECK(c, val(t).IsOne(), "div_self", i); }
    for (size_t j = 0; j < q.size(); ++j) {
      R b(q[j].first, q[j].second); F vb = q[j].first * *q[j].second.Inverse(); mc::at("rational_binary", i, j); c.state(mc::mix(i, j));
      MC_CHECK(c, val(a + b) == va + vb && val(a - b) == va - vb && val(a * b) == va * vb, "binary", i << " " << j);
      MC_CHECK(c, (a == b) == (va == vb) && (a != b) == (va != vb), "equality", i << " " << j);
      R t = a; t += b; MC_CHECK(c, val(t) == va + vb, "add_in_place", i << " " << j);
      t = a; t -= b; MC_CHECK(c, val(t) == va - vb, "sub_in_place", i << " " << j);
      t = a; t *= b; MC_CHECK(c, val(t) == va * vb, "mul_in_place", i << " " << j);
      auto dv = a / b; MC_CHECK(c, dv.has_value() == !vb.IsZero() && (!dv || val(*dv) * vb == va), "div", i << " " << j);
      t = a; auto di = (t /= b); MC_CHECK(c, di.has_value() == !vb.IsZero() && (!di || val(t) * vb == va), "div_in_place", i << " " << j);
    }
  }
  for (int team : kTeams) { Team(team);
    for (size_t n = 0; n <= 40; ++n) for (int k = 1; k < 4; ++k) {
      std::vector<R> v; std::vector<F> o(n), w; for (size_t i = 0; i < n; ++i) { auto& x = q[(i * 7 + n) % q.size()]; v.push_back(R(x.first, x.second)); w.push_back(x.first * *x.second.Inverse() * pool[k]); }
      mc::at("batch_evaluate", n, team); bool ok = R::BatchEvaluate(v, &o, pool[k]);
      MC_CHECK(c, ok && o == w, "batch_evaluate", "n=" << n << " team=" << team); c.trace();
      std::vector<F> bad(n + 1); MC_CHECK(c, !R::BatchEvaluate(v, &bad), "batch_evaluate_size", n);
    }
  }
}
}  // namespace

MC_SECTION(exhaust_M7, 8) { Exhaust<M7>(c, 7, 4); }
MC_SECTION(exhaust_P13, 8) { Exhaust<P13>(c, 4, 6); }
MC_SECTION(exhaust_L127, 8) { L127::Init(); Exhaust<L127>(c, 3, 6); }
MC_SECTION(exhaust_M13_2, 8) { M13_2::Init(); Exhaust<M13_2>(c, 4, 4); }
MC_SECTION(lengths_M12289, 8) { Lengths<M12289>(c, 66); }
MC_SECTION(lengths_P13, 8) { Lengths<P13>(c, 40); }
MC_SECTION(lengths_L127, 8) { Lengths<L127>(c, 40); }
MC_SECTION(lengths_M13_2, 8) { M13_2::Init(); Lengths<M13_2>(c, 40); }
MC_SECTION(scalars_M12289, 1) { Scalars<M12289>(c, 5000); ConstScalars<M12289>(c, std::make_integer_sequence<uint32_t, 40>()); }
MC_SECTION(scalars_P13, 1) { Scalars<P13>(c, 5000); ConstScalars<P13>(c, std::make_integer_sequence<uint32_t, 40>()); }
MC_SECTION(scalars_L127, 1) { Scalars<L127>(c, 5000); ConstScalars<L127>(c, std::make_integer_sequence<uint32_t, 40>()); }
MC_SECTION(multi_M12289, 1) { Multi<M12289>(c, 70); }
MC_SECTION(multi_L127, 1) { Multi<L127>(c, 70); }
MC_SECTION(rational_M17, 1) { Rational<M17>(c, 17); }
MC_SECTION(rational_L127, 1) { Rational<L127>(c, 6); }
