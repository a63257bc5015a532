// C15: evaluation domains against direct evaluation at the points
// offset * generator^i, for every team size.
#include "mc/fields/m12289.h"
#include "mc/fields/m17.h"
#include "mc/fields/m193.h"
#include "mc/fields/m257.h"
#include "mc/fields/m5.h"
#include "mc/fields/m97.h"
#include "mc/fields/x128.h"
#include "mc/fields/x33.h"
#include "mc/fields/x41.h"
#include "mc/fields/xgold.h"
#include "mc/mcfield.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;

#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif

}  // namespace
namespace tachyon::math {
// A stand-in for the packed form of a small field (two lanes).
template <typename F> struct Two {
  static constexpr size_t N = 2;
  F a, b;
  static Two Broadcast(const F& f) { return {f, f}; }
  Two& operator*=(const Two& o) { a *= o.a; b *= o.b; return *this; }
  Two& operator+=(const Two& o) { a += o.a; b += o.b; return *this; }
  Two operator-(const Two& o) const { return {a - o.a, b - o.b}; }
};
#define TWO(f) template <> struct PackedFieldTraits<f, void> { using PackedField = Two<f>; };
TWO(M5) TWO(M17) TWO(M97) TWO(M193) TWO(M257) TWO(M12289)
}  // namespace tachyon::math
namespace {
template <typename Dom> struct T {
  using F = typename Dom::Field;
  using Base = UnivariateEvaluationDomain<F, Dom::kMaxDegree>;
  using Evals = typename Dom::Evals;
  using D = typename Dom::DensePoly;
  using DC = typename Base::DenseCoeffs;
  using V = std::vector<F>;

  static F num(uint64_t k) { F r = F::Zero(); F b = F::One(); for (; k; k >>= 1, b += b) if (k & 1) r += b; return r; }
  static V norm(V v) { while (!v.empty() && v.back().IsZero()) v.pop_back(); return v; }
  static D poly(const V& v) { return D(DC(norm(v))); }
  static F eval(const V& a, const F& x) { F r = F::Zero(); for (size_t i = a.size(); i-- > 0;) { r *= x; r += a[i]; } return r; }
  static V spread(size_t n, uint64_t salt) { V v; F x = num(3 + salt); for (size_t i = 0; i < n; ++i) { x = x * x + num(5 * salt + i + 1); v.push_back(x); } if (n && v.back().IsZero()) v.back() = F::One(); return v; }
  static F pw(F b, uint64_t e) { F r = F::One(); for (; e; e >>= 1, b *= b) if (e & 1) r *= b; return r; }

  // The domain is the coset offset * <g> with g of exact order n.
  static V Points(mc::Ctx& c, const Base& d, size_t n, const F& off, const std::string& w) {
    V pts; F x = F::One(); bool distinct = true;
    for (size_t i = 0; i < n; ++i) { pts.push_back(x * off); x *= d.group_gen(); if (i + 1 < n) distinct &= !x.IsOne(); }
    MC_CHECK(c, distinct && x.IsOne(), "generator_order", w);
    MC_CHECK(c, d.size() == n && d.size_as_field_element() == num(n) && (d.size_inv() * num(n)).IsOne() && (d.group_gen() * d.group_gen_inv()).IsOne(), "size", w);
    MC_CHECK(c, d.offset() == off && (d.offset_inv() * off).IsOne() && d.offset_pow_size() == pw(off, n), "offset", w);
    MC_CHECK(c, d.GetElements() == pts, "elements", w);
    for (int64_t i = -(int64_t)n; i <= 2 * (int64_t)n; i += (n > 64 ? 7 : 1)) MC_CHECK(c, d.GetElement(i) == pts[((i % (int64_t)n) + n) % n], "element", w << " i=" << i);
    MC_CHECK(c, Base::GetRootsOfUnity(n, d.group_gen()).size() == n && (off.IsOne() ? Base::GetRootsOfUnity(n, d.group_gen()) == pts : true), "roots_of_unity", w);
    return pts;
  }

  static void Transform(mc::Ctx& c, const Base& d, const V& pts, const V& a, const std::string& w) {
    size_t n = pts.size(); V want; for (auto& x : pts) want.push_back(eval(a, x));
    V na = norm(a); c.trace();
    D p = poly(a); Evals e = d.FFT(p); Evals we{V(want)};
    MC_CHECK(c, e == we && (e.NumElements() == n || na.empty()), "fft", w);
    MC_CHECK(c, p.coefficients().coefficients() == na, "fft_input_unchanged", w);
    { D q = p; Evals e2 = d.FFT(std::move(q)); MC_CHECK(c, e2 == we, "fft_move", w); }
    D back = d.IFFT(we); MC_CHECK(c, back.coefficients().coefficients() == na, "ifft", w);
    MC_CHECK(c, we.evaluations() == want, "ifft_input_unchanged", w);
    { Evals e2 = we; D b2 = d.IFFT(std::move(e2)); MC_CHECK(c, b2.coefficients().coefficients() == na, "ifft_move", w); }
  }
  // evaluation lists shorter than the domain stand for trailing zeros
  static void ShortIfft(mc::Ctx& c, const Base& d, const V& pts, const V& e, const std::string& w) {
    c.trace(); D p = d.IFFT(Evals(V(e))); V a = p.coefficients().coefficients(); bool ok = a.size() <= pts.size() && norm(a) == a;
    for (size_t i = 0; ok && i < pts.size(); ++i) ok = eval(a, pts[i]) == (i < e.size() ? e[i] : F::Zero());
    MC_CHECK(c, ok, "ifft_short", w << " length " << e.size());
  }

  static V Lagrange(const V& pts, const F& t) {
    V r(pts.size()); for (size_t i = 0; i < pts.size(); ++i) { F a = F::One(), b = F::One(); for (size_t j = 0; j < pts.size(); ++j) if (j != i) { a *= t - pts[j]; b *= pts[i] - pts[j]; } r[i] = a * *b.Inverse(); } return r;
  }
  static void Point(mc::Ctx& c, const Base& d, const V& pts, const F& t, bool ranges, const std::string& w0) {
    std::string w = w0 + " tau=" + t.ToString(); c.trace();
    F z = F::One(); for (auto& x : pts) z *= t - x;
    MC_CHECK(c, d.EvaluateVanishingPolynomial(t) == z, "vanishing_at", w);
    MC_CHECK(c, d.GetVanishingPolynomial().Evaluate(t) == z, "vanishing_poly", w);
    V l = Lagrange(pts, t); size_t n = pts.size();
    MC_CHECK(c, d.EvaluateAllLagrangeCoefficients(t) == l, "lagrange_all", w);
    if (ranges) for (size_t a = 0; a < n; ++a) for (size_t b = a; b <= n; ++b) {
      if (n > 16 && (a % 5 || (b % 7 && b != n && b != a + 1))) continue;
      V sub(l.begin() + a, l.begin() + b);
      MC_CHECK(c, d.EvaluatePartialLagrangeCoefficients(t, tachyon::base::Range<size_t>(a, b)) == sub, "lagrange_part", w << " [" << a << "," << b << ")");
      if (b > a) MC_CHECK(c, (d.EvaluatePartialLagrangeCoefficients(t, tachyon::base::Range<size_t, true, true>(a, b - 1)) == sub), "lagrange_part_inclusive", w << " [" << a << "," << b - 1 << "]");
    }
  }
  static void Filter(mc::Ctx& c, const Base& d, const V& pts, const Base& s, const V& sp, const V& taus, const std::string& w) {
    c.trace(); mc::at("filter", pts.size(), sp.size());
    D f = d.GetFilterPolynomial(s);
    for (auto& x : pts) { bool in = std::find(sp.begin(), sp.end(), x) != sp.end(); MC_CHECK(c, f.Evaluate(x) == (in ? F::One() : F::Zero()), "filter_poly", w << " x=" << x.ToString()); }
    MC_CHECK(c, f.coefficients().coefficients().size() <= pts.size(), "filter_degree", w);
    for (auto& t : taus) { auto v = d.EvaluateFilterPolynomial(s, t); MC_CHECK(c, v && *v == f.Evaluate(t), "filter_at", w << " tau=" << t.ToString()); }
  }

  static void One(mc::Ctx& c, const Base& d, size_t n, const F& off, const V& taus, size_t full, int team) {
    std::string w = "n=" + std::to_string(n) + " offset=" + off.ToString() + " team=" + std::to_string(team);
    mc::at("domain", n, team); if (c.want_sample()) c.sample(w);
    V pts = Points(c, d, n, off, w);
    std::set<size_t> lens{1, 2, 3, n / 4, n / 4 + 1, n / 2 - (n > 1), n / 2, n / 2 + 1, n - 1, n};
    for (size_t len = 0; len <= n; ++len) {
      if (n > full && !lens.count(len)) continue;
      mc::at("transform", n, len, team);
      Transform(c, d, pts, spread(len, len), w + " length " + std::to_string(len));
      if (len) ShortIfft(c, d, pts, spread(len, len + 1), w);
    }
    for (size_t k = 0; k < n; k += (n > full ? n / 8 : 1)) { V u(k + 1, F::Zero()); u[k] = num(k + 1); Transform(c, d, pts, u, w + " monomial " + std::to_string(k)); V e(n, F::Zero()); e[k] = F::One(); ShortIfft(c, d, pts, e, w); }
    { V g = spread(n, 9), want; F x = F::One(), k = num(6); for (auto& v : g) { want.push_back(v * x); x *= k; } D p = poly(g); Base::DistributePowers(p, k); MC_CHECK(c, p.coefficients().coefficients() == norm(want), "distribute_powers", w); Evals e{V(g)}; Base::DistributePowers(e, k); MC_CHECK(c, e.evaluations() == want, "distribute_powers_evals", w); }
    for (auto& t : taus) { mc::at("point", n, team); Point(c, d, pts, t, n <= 32 || &t == &taus[0], w); }
  }

  // taus: every value of a small field, or domain points and a few others
  static V Taus(const V& pts, bool all) {
    V r; if (all) { F x = F::Zero(); do { r.push_back(x); x += F::One(); } while (!x.IsZero()); return r; }
    r = {F::Zero(), num(5), -num(7)}; for (size_t i = 0; i < pts.size(); i += (pts.size() > 16 ? pts.size() / 5 : 3)) r.push_back(pts[i]); return r;
  }
  static void Run(mc::Ctx& c, const std::vector<size_t>& sizes, size_t noff, bool all, size_t full) {
    F::Init(); uint64_t id = 0;
    for (int team : kTeams) { Team(team);
      for (size_t n : sizes) {
        auto d = Dom::Create(n); V base; for (F x = F::One(); base.size() < d->size(); x *= d->group_gen()) base.push_back(x);
        for (size_t o = 0; o < noff; ++o) {
          F off = num(o + 1); if (o == 3 && !all) off = d->group_gen() * num(1); if (off.IsZero()) break;
          if (!c.mine(id++)) continue;
          c.state(mc::mix(n * 64 + team, o));
          V pts; for (auto& x : base) pts.push_back(x * off);
          if (o == 0) One(c, *d, d->size(), off, Taus(pts, all), full, team);
          auto cs = d->GetCoset(off); One(c, *cs, d->size(), off, Taus(pts, all), full, team);
          { auto cs2 = cs->GetCoset(off + off); V p2; for (auto& x : base) p2.push_back(x * (off + off)); Points(c, *cs2, d->size(), off + off, "coset of coset"); Transform(c, *cs2, p2, spread(n, 4), "coset of coset n=" + std::to_string(n)); }
          for (size_t m : sizes) { if (d->size() % m) continue; auto sd = Dom::Create(m); if (d->size() % sd->size()) continue;
            for (size_t j = 0; j < d->size() / sd->size(); j += (n > 16 ? 5 : 1)) { F so = pts[j]; auto sc = sd->GetCoset(so); V sp; F x = so; for (size_t i = 0; i < sd->size(); ++i, x *= sd->group_gen()) sp.push_back(x);
              Filter(c, *d->GetCoset(off), pts, *sc, sp, Taus(pts, all && n <= 16), "n=" + std::to_string(n) + " offset=" + off.ToString() + " m=" + std::to_string(m) + " suboffset=" + so.ToString()); } }
        }
      }
    }
  }
};

// Which size Create picks for every number of coefficients.
template <typename F, typename Dom> void Sizes(mc::Ctx& c, size_t N, const std::vector<size_t>& ok) {
  F::Init();
  for (size_t k = 1; k <= N; ++k) {
    if (!c.mine(k)) continue;
    c.state(k); mc::at("create", k);
    size_t want = 0; for (size_t s : ok) if (s >= k && (!want || s < want)) want = s;
    MC_CHECK(c, Dom::IsValidNumCoeffs(k) == (want != 0), "valid_num_coeffs", k);
    if (want) { auto d = Dom::Create(k); MC_CHECK(c, d->size() == want, "create_size", k << " gives " << d->size() << " instead of " << want); }
  }
}

std::vector<size_t> Pow2(size_t m) { std::vector<size_t> v; for (size_t s = 1; s <= m; s *= 2) v.push_back(s); return v; }
std::vector<size_t> Mixed(size_t q, size_t a, size_t t) { std::vector<size_t> v; size_t r = 1; for (size_t i = 0; i <= a; ++i, r *= q) for (size_t s = r, j = 0; j <= t; ++j, s *= 2) v.push_back(s); std::sort(v.begin(), v.end()); return v; }

// Room for the vanishing polynomial of the largest domain
template <typename F> using R2 = Radix2EvaluationDomain<F, 4096>;
template <typename F> using MR = MixedRadixEvaluationDomain<F, 4096>;

MC_SECTION(m17, 8) { T<R2<M17>>::Run(c, Pow2(16), 16, true, 16); }
MC_SECTION(m5, 2) { T<R2<M5>>::Run(c, Pow2(4), 4, true, 4); }
MC_SECTION(m97, 8) { T<R2<M97>>::Run(c, Pow2(32), c.thorough ? 96 : 12, true, 32); }
MC_SECTION(m193, 8) { T<R2<M193>>::Run(c, Pow2(64), c.thorough ? 192 : 4, false, 64); }
MC_SECTION(m257, 8) { T<R2<M257>>::Run(c, Pow2(256), 4, false, 64); }
MC_SECTION(m12289, 8) { T<R2<M12289>>::Run(c, {64, 128, 512}, 2, false, 64); }
MC_SECTION(bls12_381, 8) { T<R2<bls12_381::Fr>>::Run(c, Pow2(32), 4, false, 32); }
MC_SECTION(xgold_radix2, 8) { T<R2<XGold>>::Run(c, Pow2(32), 4, false, 32); }
MC_SECTION(x33_mixed, 8) { T<MR<X33>>::Run(c, Mixed(3, 2, 4), 4, false, 24); }
MC_SECTION(x41_mixed, 8) { T<MR<X41>>::Run(c, Mixed(7, 1, 3), 4, false, 28); }
MC_SECTION(x128_mixed, 8) { T<MR<X128>>::Run(c, Mixed(5, 2, 3), 4, false, 20); }
MC_SECTION(xgold_mixed, 8) { T<MR<XGold>>::Run(c, Mixed(3, 1, 5), 4, false, 24); }
MC_SECTION(sizes, 4) {
  using tachyon::math::MixedRadixEvaluationDomain; using tachyon::math::Radix2EvaluationDomain;
  Sizes<M17, Radix2EvaluationDomain<M17>>(c, 40, Pow2(16)); Sizes<M257, Radix2EvaluationDomain<M257>>(c, 600, Pow2(256));
  Sizes<X33, MixedRadixEvaluationDomain<X33>>(c, 200, Mixed(3, 2, 4)); Sizes<X41, MixedRadixEvaluationDomain<X41>>(c, 80, Mixed(7, 1, 3)); Sizes<X128, MixedRadixEvaluationDomain<X128>>(c, 1700, Mixed(5, 2, 6));
  auto ok = Mixed(3, 2, 4);
  for (size_t k = 1; k <= 144; ++k) if (c.mine(k)) { mc::at("factory", k); auto d = UnivariateEvaluationDomainFactory<X33>::Create(k); MC_CHECK(c, d && d->size() == (k <= 16 ? (size_t)absl::bit_ceil(k) : *std::lower_bound(ok.begin(), ok.end(), k)), "factory_size", k); }
}

// ---- batch (matrix) transforms
template <typename F> struct B {
  using Dom = Radix2EvaluationDomain<F>;
  using M = RowMajorMatrix<F>;
  using V = std::vector<F>;
  static void InitPacked() { using P = typename PackedFieldTraits<F>::PackedField; if constexpr (P::N > 2) P::Init(); }
  static M mat(size_t r, size_t k, uint64_t salt) { M m(r, k); auto v = T<Dom>::spread(r * k, salt); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) m(i, j) = v[i * k + j]; return m; }
  static V col(const M& m, size_t j) { V v; for (Eigen::Index i = 0; i < m.rows(); ++i) v.push_back(m(i, j)); return v; }
  static V pts(size_t n, const F& off) { F g; CHECK(F::GetRootOfUnity(n, &g)); V v; F x = off; for (size_t i = 0; i < n; ++i, x *= g) v.push_back(x); return v; }
  static bool same(const M& got, const M& want) { if (got.rows() != want.rows() || got.cols() != want.cols()) return false; for (Eigen::Index i = 0; i < got.rows(); ++i) for (Eigen::Index j = 0; j < got.cols(); ++j) if (got(i, j) != want(i, j)) return false; return true; }
  static M fft(const M& m, const F& off) { auto p = pts(m.rows(), off); M r(m.rows(), m.cols()); for (Eigen::Index j = 0; j < m.cols(); ++j) { V a = col(m, j); for (size_t i = 0; i < p.size(); ++i) r(i, j) = T<Dom>::eval(a, p[i]); } return r; }
  static M lde(const M& coeffs, size_t bits, const F& shift) { M e = M::Zero(coeffs.rows() << bits, coeffs.cols()); e.topRows(coeffs.rows()) = coeffs; return fft(e, shift); }
  static M rev(const M& m) { M r(m.rows(), m.cols()); size_t l = __builtin_ctzll(m.rows()); for (Eigen::Index i = 0; i < m.rows(); ++i) { size_t k = 0; for (size_t b = 0; b < l; ++b) k |= ((i >> b) & 1) << (l - 1 - b); r.row(k) = m.row(i); } return r; }
  static void Run(mc::Ctx& c, size_t maxlog, size_t maxcols, size_t maxbits) {
    F::Init(); InitPacked(); uint64_t id = 0;
    for (int team : kTeams) { Team(team);
      for (size_t l = 1; l <= maxlog; ++l) for (size_t k = 1; k <= maxcols; ++k) {
        if (!c.mine(id++)) continue;
        if (l > 4 && k > 3 && k % 8 > 1 && k % 8 < 7) continue;
        size_t n = size_t{1} << l; std::string w = "rows=" + std::to_string(n) + " cols=" + std::to_string(k) + " team=" + std::to_string(team);
        c.state(mc::mix(n * 64 + team, k)); c.trace(); if (c.want_sample()) c.sample("batch " + w);
        M a = mat(n, k, n + k), e = fft(a, F::One());
        auto d = Dom::Create(n); NaiveBatchFFT<F> nv;
        mc::at("fft_batch", n, k, team);
        { M m = a; d->FFTBatch(m); MC_CHECK(c, same(m, e), "fft_batch", w); } { M m = a; nv.FFTBatch(m); MC_CHECK(c, same(m, e), "naive_fft_batch", w); }
        { M m = e; d->IFFTBatch(m); MC_CHECK(c, same(m, a), "ifft_batch", w); } { M m = e; nv.IFFTBatch(m); MC_CHECK(c, same(m, a), "naive_ifft_batch", w); }
        for (size_t bits = 0; bits <= maxbits && l + bits <= maxlog + 1; ++bits) for (uint64_t s : {1, 3}) {
          F shift = T<Dom>::num(s); M want = lde(a, bits, shift); M in = e; std::string w2 = w + " bits=" + std::to_string(bits) + " shift=" + std::to_string(s);
          mc::at("lde_batch", n, k, bits, team); c.state(mc::mix(mc::mix(n * 64 + team, k), bits * 8 + s));
          { const M cin = e; M out(n << bits, k); d->CosetLDEBatch(cin, bits, shift, out); MC_CHECK(c, same(out, want), "lde_batch", w2); MC_CHECK(c, same(cin, e), "lde_input_unchanged", w2); }
          { const M cin = e; M out(n << bits, k); d->CosetLDEBatch(cin, bits, shift, out, false); MC_CHECK(c, same(out, rev(want)), "lde_batch_bit_reversed", w2); }
          { M min = e; M out(n << bits, k); d->CosetLDEBatch(std::move(min), bits, shift, out); MC_CHECK(c, same(out, want), "lde_batch_move", w2); }
          { M min = e; M out(n << bits, k); d->CosetLDEBatch(std::move(min), bits, shift, out, false); MC_CHECK(c, same(out, rev(want)), "lde_batch_move_bit_reversed", w2); }
          { const M cin = e; M out(n << bits, k); nv.CosetLDEBatch(cin, bits, shift, out); MC_CHECK(c, same(out, want), "naive_lde_batch", w2); }
        }
      }
    }
  }
  // The twiddle cache: every short history of operations in a fresh process.
  static bool Op(int op, size_t k) {
    size_t n = size_t{1} << (op % 3 + 1); auto d = Dom::Create(n); M a = mat(n, k, n), e = fft(a, F::One()); V v = T<Dom>::spread(n, 2);
    auto p = pts(n, F::One()); typename Dom::Evals ev(V(n, F::Zero())); for (size_t i = 0; i < n; ++i) ev.at(i) = T<Dom>::eval(v, p[i]);
    switch (op / 3) {
      case 0: return d->FFT(T<Dom>::poly(v)) == ev && d->IFFT(ev) == T<Dom>::poly(v);
      case 1: { M m = a; d->FFTBatch(m); M u = m; d->IFFTBatch(u); return same(m, e) && same(u, a); }
      case 2: { M o(2 * n, k); const M in = e; d->CosetLDEBatch(in, 1, T<Dom>::num(3), o); return same(o, lde(a, 1, T<Dom>::num(3))); }
      default: { auto cs = d->GetCoset(T<Dom>::num(3)); auto q = cs->FFT(T<Dom>::poly(v)); auto pc = pts(n, T<Dom>::num(3)); for (size_t i = 0; i < n; ++i) if (q[i] != T<Dom>::eval(v, pc[i])) return false; return true; }
    }
  }
  static void Histories(mc::Ctx& c, int len) {
    F::Init(); InitPacked(); uint64_t id = 0;
    for (int n = 1; n <= len; ++n) mc::tuples(n, 12, [&](const std::vector<int>& t) {
      if (!c.mine(id++)) return;
      c.state(mc::hash_bytes(t.data(), t.size() * 4)); c.trace(); c.step(n); mc::at("twiddle_history", t[0], n > 1 ? t[1] : -1, n > 2 ? t[2] : -1);
      MC_CHECK(c, !mc::dies([&] { for (int o : t) if (!Op(o, 2)) abort(); }), "twiddle_cache", "operations " << mc::vstr(t) << " (kind = op / 3: fft, batch, lde, coset; size = 2^(op % 3 + 1))");
    });
  }
};
MC_SECTION(batch_baby_bear, 8) { B<tachyon::math::BabyBear>::Run(c, c.thorough ? 8 : 6, 18, 3); }
MC_SECTION(batch_koala_bear, 8) { B<tachyon::math::KoalaBear>::Run(c, 6, 10, 2); }
MC_SECTION(batch_m12289, 8) { B<M12289>::Run(c, 5, 5, 3); }
MC_SECTION(twiddle_histories, 8) { Team(2 % (sizeof(kTeams) / 4 + 1)); B<tachyon::math::BabyBear>::Histories(c, c.thorough ? 3 : 2); }
}  // namespace
