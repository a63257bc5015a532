// C18: bulk field operations, polynomials, domains and matrices.
#include <atomic>
#include <set>

#include "absl/synchronization/mutex.h"
#include "mc/c18.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m97.h"
#include "mc/fields/x33.h"
#include "mc/fields/xgold.h"
#include "mc/mcfield.h"
#include "tachyon/base/containers/container_util.h"
#include "tachyon/base/parallelize.h"
#include "tachyon/math/base/rational_field.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

namespace tachyon::math {
// A stand-in for the packed form of a small field (two lanes).
template <typename F> struct Two {
  static constexpr size_t N = 2;
  F a, b;
  static Two Broadcast(const F& f) { return {f, f}; }
  Two& operator*=(const Two& o) { a *= o.a; b *= o.b; return *this; }
  Two& operator+=(const Two& o) { a += o.a; b += o.b; return *this; }
  Two operator-(const Two& o) const { return {a - o.a, b - o.b}; }
};
#define TWO(f) template <> struct PackedFieldTraits<f, void> { using PackedField = Two<f>; };
TWO(mcf::M97) TWO(mcf::M12289)
}  // namespace tachyon::math
namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using c18::Op; using c18::Str;
template <typename F> std::vector<F> Vals(size_t n, uint32_t salt = 1) {
  std::vector<F> v; uint64_t s = salt * 77 + 5;
  for (size_t i = 0; i < n; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; v.push_back(F(uint32_t((s >> 33) % 96 + 1))); }
  return v;
}
template <typename T> std::string TS(const T& t) { return t.ToString(); }
template <typename T> std::string TS(const std::optional<T>& t) { return t ? TS(*t) : "none"; }
template <typename M> std::string MStr(const M& m) { std::string s; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) s += m(i, j).ToString() + ","; return s; }
#define ADD(name, ...) ops.push_back({std::string(tag) + " " + name, [=]() -> std::string { __VA_ARGS__ }})

template <typename F> void FieldOps(std::vector<Op>& ops, const char* tag, std::vector<size_t> sizes) {
  for (size_t n : sizes) {
    const std::string N = " (" + std::to_string(n) + ")";
    auto a = Vals<F>(n), b = Vals<F>(n, 2);
    ADD("SumOfProducts" + N, return F::SumOfProducts(a, b).ToString(););
    ADD("SumOfProductsSerial" + N, return F::SumOfProductsSerial(a, b).ToString(););
    ADD("BatchInverse" + N, std::vector<F> r(n); if (!F::BatchInverse(a, &r, F(3))) return "failed"; return Str(r););
    ADD("BatchInverseInPlace" + N, std::vector<F> r = a; if (!F::BatchInverseInPlace(r)) return "failed"; return Str(r););
    ADD("BatchInverse with zero" + N, std::vector<F> r(n); auto z = a; z[n / 2] = F::Zero(); z[0] = F::Zero(); F::BatchInverse(z, &r); std::string s; for (size_t i = 0; i < n; ++i) s += z[i].IsZero() ? "z" : r[i].ToString() + ","; return s;);
    ADD("GetSuccessivePowers" + N, return Str(F::GetSuccessivePowers(n, F(5), F(2))););
    ADD("GetBitRevIndexSuccessivePowers" + N, size_t m = 1; while (m < n) m *= 2; return Str(F::GetBitRevIndexSuccessivePowers(m, F(5), F(2))););
    ADD("MultiScalarMul" + N, std::vector<F> x(n), y(n), z(n); if (!F::MultiScalarMul(F(7), a, &x) || !F::MultiScalarMul(a, F(7), &y) || !F::MultiScalarMul(a, b, &z)) return "failed"; return Str(x) + Str(y) + Str(z););
    ADD("RationalField::BatchEvaluate" + N, using R = RationalField<F>; std::vector<R> q; for (size_t i = 0; i < n; ++i) q.push_back(R(a[i], b[i])); std::vector<F> r(n); if (!R::BatchEvaluate(q, &r)) return "failed"; return Str(r););
  }
}
// The machinery itself: a race is seen in every schedule, ordered accesses are not.
MC_SECTION(self_test, 1) {
  int x = 0; int y[4] = {}; absl::Mutex mu; std::atomic<int> at{0}; char buf[64] = {}; char src[16] = {};
  omc::set_threads(3); (void)omc::take_races();
  auto races = [&](auto fn) { omc::parallel(3, fn); return omc::take_races().size(); };
  MC_CHECK(c, races([&](int) { ++x; }) > 0, "race-not-seen", "three threads increment one int");
  MC_CHECK(c, races([&](int t) { memcpy(buf + t * 8, src, 16); }) > 0, "race-not-seen", "overlapping copies");
  MC_CHECK(c, races([&](int t) { y[t] = t; }) == 0, "false-race", "disjoint elements");
  MC_CHECK(c, races([&](int) { absl::MutexLock l(&mu); ++x; }) == 0, "false-race", "mutex");
  MC_CHECK(c, races([&](int t) { if (t == 0) { y[0] = 5; at.store(1, std::memory_order_release); } else if (at.load(std::memory_order_acquire)) y[t] = y[0]; }) == 0, "false-race", "release/acquire");
  at = 0;
  MC_CHECK(c, races([&](int t) { if (t == 0) { y[0] = 5; at.store(1, std::memory_order_relaxed); } else if (at.load(std::memory_order_relaxed)) y[t] = y[0]; }) > 0, "race-not-seen", "relaxed publication");
  // a lost update shows up as a result under some schedule
  std::set<int> results; uint64_t n = omc::explore(1, [&](const std::string&) { int v = 0; omc::parallel(2, [&](int) { int k = v; omc::here(); v = k + 1; }); results.insert(v); }); (void)omc::take_races();
  MC_CHECK(c, results == (std::set<int>{1, 2}), "schedules", n << " schedules, " << results.size() << " results");
  c.states(8); c.step(8); c.trace(n);
}
// Several threads use domains (and their shared twiddle cache) at once, from a cold cache.
template <typename Dom> void Shared(mc::Ctx& c, const char* tag, size_t n, uint64_t& id) {
  using F = typename Dom::Field; using P = typename Dom::DensePoly; using DC = typename P::Coefficients; 
  std::vector<std::string> acts = {"FFT", "FFTBatch", "CosetLDE", "coset"};
  auto act = [&](const Dom& d, size_t a) -> std::string {
    if (a == 0) return d.FFT(P(DC(Vals<F>(n)))).ToString();
    if (a == 3) return d.IFFT(d.GetCoset(F(3))->FFT(P(DC(Vals<F>(n / 2))))).ToString();
    RowMajorMatrix<F> m(n, 2); for (size_t i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) m(i, j) = F(uint32_t(i * 7 + j * 3 + 1));
    if (a == 1) { d.FFTBatch(m); return MStr(m); }
    RowMajorMatrix<F> o(n * 2, 2); d.CosetLDEBatch(m, 1, F(5), o); return MStr(o);
  };
  for (size_t shared = 0; shared < 2; ++shared) for (size_t a = 0; a < 4; ++a) for (size_t b = 0; b < 4; ++b) for (size_t k = 0; k < 5; ++k) {
    if (F::Config::kModulusBits > 32 && ((a && a != 3) || (b && b != 3) || (k && k < 3))) continue;
    if (!c.mine(id++)) continue;
    const int team = k == 4 ? 2 : 3; size_t what[3] = {a, b, k % 4};
    std::string name = std::string(tag) + " size " + std::to_string(n) + (shared ? " one domain: " : " own domains: ") + acts[a] + " | " + acts[b] + (team == 3 ? " | " + acts[k] : "");
    mc::at_s("threads", name.c_str());
    auto body = [&]() -> std::string {
      std::unique_ptr<Dom> one; if (shared) one = Dom::Create(n);
      std::string r[3];
      omc::parallel(team, [&](int t) { if (shared) { r[t] = act(*one, what[t]); } else { auto d = Dom::Create(n); r[t] = act(*d, what[t]); } });
      return r[0] + "|" + r[1] + "|" + r[2];
    };
    omc::set_threads(1); std::string want; omc::in_child([&]() -> std::string { std::string r[3]; for (int t = 0; t < team; ++t) { auto d = Dom::Create(n); r[t] = act(*d, what[t]); } return r[0] + "|" + r[1] + "|" + r[2]; }, &want);
    (void)omc::take_races();
    for (bool rev : {false, true}) {
      omc::set_reverse(rev);
      omc::explore(c.thorough ? 2 : 1, [&](const std::string& s) {
        std::string got; bool ok = omc::in_child(body, &got); c.trace(1); c.step(1); c.states(1);
        MC_CHECK(c, ok, "concurrent-died", name << ": schedule " << s);
        if (ok) MC_CHECK(c, got == want, "concurrent-result", name << ": schedule " << s << ": " << c18::Cut(got) << " instead of " << c18::Cut(want));
        auto rs = omc::take_races(); MC_CHECK(c, rs.empty(), "concurrent-race", name << ": " << (rs.empty() ? "" : rs[0].substr(0, rs[0].find(" by thread"))) << " schedule " << s << (rs.empty() ? "" : " [" + rs[0] + "]"));
      }, c.thorough ? 2000 : 60);
    }
  }
  omc::set_reverse(false);
}
MC_SECTION(fields, 4) {
  M97::Init(); M12289::Init(); bls12_381::Fr::Init(); BabyBear::Init();
  std::vector<Op> ops;
  FieldOps<M97>(ops, "M97", {1, 2, 5, 8, 17});
  FieldOps<BabyBear>(ops, "BabyBear", {33});
  FieldOps<bls12_381::Fr>(ops, "bls12_381::Fr", {9, 33});
  c18::Run(c, ops);
}
MC_SECTION(containers, 2) {
  std::vector<Op> ops; using namespace tachyon::base; const char* tag = "base";
  auto ints = [](auto& v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; };
  for (size_t n : {1, 2, 3, 7, 16}) {
    const std::string N = " (" + std::to_string(n) + ")";
    ADD("Parallelize" + N, std::vector<int> v(n, 1); Parallelize(v, [](absl::Span<int> s, size_t i, size_t cs) { for (size_t k = 0; k < s.size(); ++k) s[k] += int(i * cs + k); }); return ints(v););
    ADD("ParallelizeByChunkSize" + N, std::vector<int> v(n, 1); ParallelizeByChunkSize(v, 2, [](absl::Span<int> s, size_t i, size_t cs) { for (size_t k = 0; k < s.size(); ++k) s[k] += int(i * cs + k); }); return ints(v););
    ADD("DynamicParallelizeByChunkSize" + N, std::vector<int> v(n, 1); DynamicParallelizeByChunkSize(v, 2, [](absl::Span<int> s, size_t i, size_t cs) { for (size_t k = 0; k < s.size(); ++k) s[k] += int(i * cs + k); }); return ints(v););
    ADD("ParallelizeMap" + N, std::vector<int> v(n, 3); auto r = ParallelizeMap(v, [](absl::Span<const int> s) { int t = 0; for (int x : s) t += x; return t; }); int t = 0; for (int x : r) t += x; return std::to_string(t););
    ADD("ParallelizeMapByChunkSize" + N, std::vector<int> v(n, 3); auto r = ParallelizeMapByChunkSize(v, 2, [](absl::Span<const int> s, size_t i) { int t = int(i); for (int x : s) t += x; return t; }); return ints(r););
    ADD("ParallelizeFill" + N, std::vector<int> v(n); ParallelizeFill(v, 9); return ints(v););
    ADD("ParallelizeResize" + N, std::vector<int> v(2, 4); ParallelizeResize(v, n, 9); return ints(v););
    ADD("CreateVectorParallel" + N, auto v = CreateVectorParallel(n, [](size_t i) { return int(i) * 3; }); return ints(v););
  }
  c18::Run(c, ops);
}
template <typename F, size_t kN> void UniOps(std::vector<Op>& ops, const char* tag, std::vector<size_t> sizes) {
  using DC = UnivariateDenseCoefficients<F, kN>; using SC = UnivariateSparseCoefficients<F, kN>;
  using D = UnivariatePolynomial<DC>; using S = UnivariatePolynomial<SC>; using E = UnivariateEvaluations<F, kN>;
  for (size_t n : sizes) {
    const std::string N = " (" + std::to_string(n) + ")";
    auto a = Vals<F>(n), b = Vals<F>(n / 2 + 1, 2);
    D d(DC{a}), e(DC{b}); std::vector<typename SC::Term> t; for (size_t i = 0; i < n; i += 3) t.push_back({i, a[i]}); S s(SC{t});
    E ea(a), eb(Vals<F>(n, 3));
#define DD(nm, ex) ADD("dense " nm + N, return TS(ex);)
    DD("+", d + e); DD("+ flipped", e + d); DD("-", d - e); DD("- flipped", e - d); DD("*", d * e); DD("neg", -d); DD("scalar *", d * F(3)); DD("scalar /", d / F(3)); DD("/", d / e); DD("%", d % e);
    DD("+ sparse", d + s); DD("- sparse", d - s); DD("* sparse", d * s); DD("/ sparse", d / s); DD("% sparse", d % s); DD("sparse + dense", s + d); DD("sparse - dense", s - d); DD("sparse * dense", s * d); DD("sparse + sparse", s + s); DD("sparse * sparse", s * s);
    ADD("dense in place" + N, D x = d; x += e; x -= s; x *= F(5); (void)(x /= F(2)); x *= e; return x.ToString(););
    ADD("dense Evaluate" + N, return d.Evaluate(F(11)).ToString(););
    ADD("sparse Evaluate" + N, return s.Evaluate(F(11)).ToString(););
    ADD("dense Fold<true>" + N, return d.Fold(F(3)).ToString(););
    ADD("FromRoots" + N, return D::FromRoots(a).ToString(););
    ADD("EvaluateVanishingPolyByRoots" + N, return D::EvaluateVanishingPolyByRoots(a, F(0)).ToString() + D::EvaluateVanishingPolyByRoots(b, F(98)).ToString(););
    ADD("Zero/Random/One" + N, return D::Zero().ToString() + D::One().ToString(););
    ADD("evaluations" + N, E x = ea + eb; E y = ea - eb; E z = ea * eb; E w = *(ea / eb); E u = ea * F(3); E v = *(ea / F(3)); x += eb; y -= ea; z *= eb; (void)(w /= eb); u *= F(2); (void)(v /= F(2)); return x.ToString() + y.ToString() + z.ToString() + w.ToString() + u.ToString() + v.ToString() + (-ea).ToString(););
    ADD("LinearizeInPlace" + N, std::vector<D> ps; for (size_t i = 0; i < 4; ++i) ps.push_back(D(DC{Vals<F>(n, uint32_t(i))})); return D::template LinearCombination<true>(ps, F(3)).ToString() + D::template LinearCombination<false>(ps, F(3)).ToString(););
    ADD("LagrangeInterpolate" + N, std::vector<F> xs, ys; for (size_t i = 0; i < n && i < 90; ++i) { xs.push_back(F(uint32_t(i + 1))); ys.push_back(a[i]); } D out; if (!LagrangeInterpolate(xs, ys, &out)) return "failed"; return out.ToString(););
  }
}
MC_SECTION(univariate, 6) {
  M97::Init(); M12289::Init();
  std::vector<Op> ops;
  UniOps<M97, 200>(ops, "M97", {1, 2, 3, 8, 17});
  UniOps<M12289, 200>(ops, "M12289", {40});
  c18::Run(c, ops);
}
template <typename F, size_t kN, typename Dom> void DomainOps(std::vector<Op>& ops, const char* tag, std::vector<size_t> sizes) {
  using DC = UnivariateDenseCoefficients<F, kN>; using P = UnivariatePolynomial<DC>; using E = UnivariateEvaluations<F, kN>;
  for (size_t n : sizes) {
    std::shared_ptr<Dom> dom(Dom::Create(n)); if (!dom) continue;
    size_t m = dom->size();
    for (int coset = 0; coset < 2; ++coset) {
      std::shared_ptr<UnivariateEvaluationDomain<F, kN>> dd = dom;
      if (coset) dd = std::shared_ptr<UnivariateEvaluationDomain<F, kN>>(dom->GetCoset(F(3)));
      const std::string N = " (" + std::to_string(m) + (coset ? ", coset)" : ")");
      for (size_t k : {size_t(1), m / 4 + 1, m / 2, m}) { if (k == 0 || k > m) continue;
        auto a = Vals<F>(k);
        ADD("FFT of " + std::to_string(k) + N, return dd->FFT(P(DC{a})).ToString() + dd->FFT(P(DC{a, true})).ToString(););
        if (k == m) ADD("IFFT" + N, return dd->IFFT(E(a)).ToString(););
      }
      ADD("EvaluateAllLagrangeCoefficients" + N, return Str(dd->EvaluateAllLagrangeCoefficients(F(19))) + Str(dd->EvaluatePartialLagrangeCoefficients(F(19), tachyon::base::Range<size_t>(0, m > 2 ? m / 2 : m))););
      ADD("GetElements" + N, return Str(dd->GetElements()););
      ADD("EvaluateVanishingPolynomial" + N, return dd->EvaluateVanishingPolynomial(F(19)).ToString() + (m <= kN ? dd->GetVanishingPolynomial().ToString() : ""););
      if (n > 2 && m <= kN && !coset) { std::shared_ptr<Dom> sub(Dom::Create(m % 3 ? m / 2 : m / 3)); if (sub && sub->size() < m && m % sub->size() == 0) ADD("GetFilterPolynomial" + N, return dd->GetFilterPolynomial(*sub).ToString();); }
    }
  }
}
MC_SECTION(domains, 6) {
  M97::Init(); M12289::Init(); BabyBear::Init(); bls12_381::Fr::Init();
  std::vector<Op> ops;
  DomainOps<M97, 31, Radix2EvaluationDomain<M97, 31>>(ops, "M97 radix2", {1, 2, 4, 8, 16, 32});
  DomainOps<M12289, 255, Radix2EvaluationDomain<M12289, 255>>(ops, "M12289 radix2", {64, 128});
  X33::Init(); XGold::Init(); DomainOps<X33, 95, MixedRadixEvaluationDomain<X33, 95>>(ops, "X33 mixed", {3, 6, 12, 18, 36});
  DomainOps<XGold, 95, MixedRadixEvaluationDomain<XGold, 95>>(ops, "Goldilocks mixed", {2, 24, 48});
  DomainOps<bls12_381::Fr, 63, Radix2EvaluationDomain<bls12_381::Fr, 63>>(ops, "bls12_381::Fr radix2", {32});
  c18::Run(c, ops);
}
MC_SECTION(batch_fft, 4) {
  BabyBear::Init(); if constexpr (PackedFieldTraits<BabyBear>::PackedField::N > 2) PackedFieldTraits<BabyBear>::PackedField::Init();
  std::vector<Op> ops; const char* tag = "batch";
  using F = BabyBear; using Dom = Radix2EvaluationDomain<F, 255>;
  for (size_t n : {2, 4, 8, 16, 32, 64}) for (int cols : {1, 4, 5}) {
    RowMajorMatrix<F> m(n, cols); for (size_t i = 0; i < n; ++i) for (int j = 0; j < cols; ++j) m(i, j) = F(uint32_t(i * 7 + j * 3 + 1));
    std::shared_ptr<Dom> dom(Dom::Create(n));
    const std::string N = " (" + std::to_string(n) + "x" + std::to_string(cols) + ")";
    ADD("FFTBatch" + N, RowMajorMatrix<F> x = m; dom->FFTBatch(x); return MStr(x););
    ADD("CosetLDEBatch" + N, RowMajorMatrix<F> x = m; RowMajorMatrix<F> o(n * 4, cols); dom->CosetLDEBatch(x, 2, F(31), o); return MStr(o););
    ADD("CosetLDEBatch without reversal" + N, RowMajorMatrix<F> x = m; RowMajorMatrix<F> o(n * 2, cols); dom->CosetLDEBatch(x, 1, F(31), o, false); return MStr(o););
    ADD("ReverseMatrixIndexBits" + N, RowMajorMatrix<F> x = m; ReverseMatrixIndexBits(x); return MStr(x););
    if (n <= 16) ADD("NaiveBatchFFT" + N, NaiveBatchFFT<F> f; RowMajorMatrix<F> x = m; f.FFTBatch(x); return MStr(x););
  }
  c18::Run(c, ops);
}
MC_SECTION(concurrent_domains, 8) {
  M97::Init(); BabyBear::Init(); bls12_381::Fr::Init(); if constexpr (PackedFieldTraits<BabyBear>::PackedField::N > 2) PackedFieldTraits<BabyBear>::PackedField::Init();
  uint64_t id = 0;
  Shared<Radix2EvaluationDomain<BabyBear, 63>>(c, "BabyBear", 8, id);
  Shared<Radix2EvaluationDomain<M97, 30>>(c, "M97", 2, id);
  Shared<Radix2EvaluationDomain<bls12_381::Fr, 63>>(c, "bls12_381::Fr", 4, id);
}
MC_SECTION(matrices, 2) {
  M97::Init(); std::vector<Op> ops; const char* tag = "matrix"; using F = M97;
  for (int n : {1, 2, 3, 5}) for (int k : {1, 3}) {
    const std::string N = " (" + std::to_string(n) + "x" + std::to_string(k) + ")";
    Matrix<F> x(n, k), y(k, n); Vector<F> v(k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { x(i, j) = F(uint32_t(i * j + i + 2 * j)); y(j, i) = F(uint32_t(i + 3 * j + 1)); v[j] = F(uint32_t(j + 7)); }
    ADD("MulMatMat" + N, return MStr(MulMatMat(x, y)) + MStr(MulMatMatSerial(x, y)););
    ADD("MulMatVec" + N, return MStr(MulMatVec(x, v)) + MStr(MulMatVec(x, y.col(0))) + MStr(MulMatVec(x, x.row(0))););
  }
  c18::Run(c, ops);
}
MC_SECTION(multivariate, 4) {
  M97::Init(); std::vector<Op> ops; const char* tag = "multivariate"; using F = M97;
  using ME = MultilinearDenseExtension<F, 6>; using MV = MultilinearDenseEvaluations<F, 6>; using MVP = std::shared_ptr<ME>;
  for (size_t v : {1, 2, 4, 6}) {
    const std::string N = " (" + std::to_string(v) + ")";
    ME a(MV{Vals<F>(1u << v)}), b(MV{Vals<F>(1u << v, 2)}); auto pt = Vals<F>(v, 4);
    ADD("MLE arithmetic" + N, ME x = a + b; ME y = a - b; ME z = a * b; ME w = *(a / b); x += b; y -= a; z *= b; (void)(w /= a); return x.ToString() + y.ToString() + z.ToString() + w.ToString() + (-a).ToString(););
    ADD("MLE Evaluate" + N, return a.Evaluate(pt).ToString(););
    ADD("MLE FixVariables" + N, auto q = pt; q.pop_back(); return MV(Vals<F>(1u << v)).FixVariables(q).ToString(););
    ADD("LinearCombination" + N, LinearCombination<ME> lc(v); std::vector<std::shared_ptr<ME>> ps{std::make_shared<ME>(a), std::make_shared<ME>(b)}; lc.AddTerm(F(3), ps); lc.AddTerm(F(5), {ps[0]}); lc.AddTerm(F(7), {ps[1], ps[1], ps[0]}); return lc.Evaluate(pt).ToString(););
    ADD("LinearCombination Combine" + N, LinearCombination<MV> lc(v); std::vector<std::shared_ptr<MV>> ps{std::make_shared<MV>(Vals<F>(1u << v, 6)), std::make_shared<MV>(Vals<F>(1u << v, 7))}; lc.AddTerm(F(3), ps); lc.AddTerm(F(5), {ps[0]}); lc.AddTerm(F(7), {ps[1], ps[1], ps[0]}); return lc.Combine().ToString(););
  }
  using CO = MultivariateSparseCoefficients<F, 4>; using MP = MultivariatePolynomial<CO>; using Lit = typename CO::Literal; using Tm = typename CO::Term;
  for (size_t k : {1, 2, 5, 9}) {
    const std::string N = " (" + std::to_string(k) + " terms)";
    std::vector<typename CO::Term> t; for (size_t i = 0; i < k; ++i) t.push_back(Tm{Lit{{{i % 3, i / 3 + 1}}}, F(uint32_t(i + 2))});
    ADD("sparse polynomial" + N, MP p(CO(3, t)); auto r = p.Evaluate({F(3), F(5), F(7)}); return r.ToString() + (p + p).ToString() + (p - p).ToString() + (-p).ToString(););
  }
  c18::Run(c, ops);
}
}  // namespace
