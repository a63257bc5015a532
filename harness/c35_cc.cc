// The C++ wrappers and the polynomial, evaluation, domain and matrix handles of
// the C layer answer as the core library does.
#include <array>
#include <sstream>

#include "mc/c35.h"
#include "tachyon/c/math/matrix/baby_bear_row_major_matrix.h"
#include "tachyon/c/math/matrix/baby_bear_row_major_matrix_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_dense_polynomial_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluation_domain_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_evaluations_type_traits.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations.h"
#include "tachyon/c/math/polynomials/univariate/bn254_univariate_rational_evaluations_type_traits.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/cc/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/cc/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"

namespace {
using namespace c35;
const bool quiet = (FLAGS_minloglevel = 3, true);
void Init() { static bool once = [] { math::bn254::G1Curve::Init(); math::bls12_381::G1Curve::Init(); return true; }(); (void)once; }
template <typename T> std::string Stream(const T& t) { std::ostringstream os; os << t; return os.str(); }

template <typename W, typename N>
void Field(mc::Ctx& c, const char* what) {
  Init(); using C = std::decay_t<decltype(W().value())>; std::vector<N> v = Values<N>(60); uint64_t id = 0;
  auto same = [&](const W& got, const N& want, const char* op, size_t i, size_t j) { c.step(); MC_CHECK(c, To<N>(got.value()) == want, "field", what << " " << op << " of " << i << ", " << j << ": " << To<N>(got.value()).ToString() << " instead of " << want.ToString()); };
  if (c.shard == 0) { same(W::Zero(), N::Zero(), "Zero", 0, 0); same(W::One(), N::One(), "One", 0, 0); same(W::MinusOne(), N::MinusOne(), "MinusOne", 0, 0); N r = To<N>(W::Random().value()); MC_CHECK(c, r - r == N::Zero(), "random", what); }
  for (size_t i = 0; i < v.size(); ++i) {
    if (!c.mine(id++)) continue; mc::at(what, i); c.trace(); N x = v[i]; W a(From<C>(x)); same(a, x, "value", i, i);
    same(-a, -x, "negation", i, i); same(a.Double(), x.Double(), "Double", i, i); same(a.Square(), x.Square(), "Square", i, i); if (!x.IsZero()) same(a.Inverse(), *x.Inverse(), "Inverse", i, i);
    MC_CHECK(c, a.ToString() == x.ToString() && Stream(a) == x.ToString(), "text", what << " " << a.ToString() << " instead of " << x.ToString());
    for (size_t j = 0; j < v.size(); ++j) { N y = v[j]; W b(From<C>(y)); c.states(1);
      same(a + b, x + y, "+", i, j); same(a - b, x - y, "-", i, j); same(a * b, x * y, "*", i, j); if (!y.IsZero()) same(a / b, *(x / y), "/", i, j);
      { W t = a; W& r = (t += b); same(t, x + y, "+=", i, j); MC_CHECK(c, &r == &t, "reference", what); } { W t = a; W& r = (t -= b); same(t, x - y, "-=", i, j); MC_CHECK(c, &r == &t, "reference", what); } { W t = a; W& r = (t *= b); same(t, x * y, "*=", i, j); MC_CHECK(c, &r == &t, "reference", what); } if (!y.IsZero()) { W t = a; W& r = (t /= b); same(t, *(x / y), "/=", i, j); MC_CHECK(c, &r == &t, "reference", what); }
      MC_CHECK(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "comparison", what << " " << i << ", " << j); same(a, x, "operand", i, j); same(b, y, "operand", i, j); }
    { W t = a; t += t; same(t, x + x, "+= itself", i, i); } { W t = a; t -= t; same(t, N::Zero(), "-= itself", i, i); } { W t = a; t *= t; same(t, x * x, "*= itself", i, i); }
  }
}
MC_SECTION(cc_fields, 8) { Field<cc::math::bn254::Fq, math::bn254::Fq>(c, "bn254 fq"); Field<cc::math::bn254::Fr, math::bn254::Fr>(c, "bn254 fr"); Field<cc::math::bls12_381::Fq, math::bls12_381::Fq>(c, "bls12_381 fq"); Field<cc::math::bls12_381::Fr, math::bls12_381::Fr>(c, "bls12_381 fr"); }

template <typename W, typename P, typename WQ, typename Q>
void Kind(mc::Ctx& c, const char* what) {
  using C = decltype(W().ToCPoint()); std::vector<std::pair<P, int>> v = Points<P>(4); uint64_t id = 0;
  auto same = [&](const auto& got, const auto& want, const char* op, int i, int j) { c.step(); using T = std::decay_t<decltype(want)>; T g = To<T>(got.ToCPoint()); MC_CHECK(c, g == want, "point", what << " " << op << " of " << i << ", " << j << ": " << g.ToString() << " instead of " << want.ToString()); };
  if (c.shard == 0) { same(W::Zero(), P::Zero(), "Zero", 0, 0); same(W::Generator(), P::Generator(), "Generator", 0, 0); MC_CHECK(c, P::Curve::IsOnCurve(To<P>(W::Random().ToCPoint())), "random", what); }
  for (auto& [p, i] : v) { if (!c.mine(id++)) continue; mc::at(what, id); c.trace(); C cp = From<C>(p); W a(cp); C back = a.ToCPoint(); MC_CHECK(c, memcmp(&back, &cp, sizeof(C)) == 0, "round trip", what << " " << i);
    same(-a, -p, "negation", i, i); same(a.Double(), p.Double(), "Double", i, i); MC_CHECK(c, a.ToString() == p.ToString() && Stream(a) == p.ToString(), "text", what << " " << a.ToString() << " instead of " << p.ToString());
    for (auto& [q, j] : v) { W b(From<C>(q)); c.states(1); same(a + b, p + q, "+", i, j); same(a - b, p - q, "-", i, j); MC_CHECK(c, (a == b) == (i == j) && (a != b) == (i != j), "equality", what << " " << i << ", " << j);
      if constexpr (std::is_same_v<W, WQ>) { W t = a; W& r = (t += b); same(t, p + q, "+=", i, j); W u = a; W& s = (u -= b); same(u, p - q, "-=", i, j); MC_CHECK(c, &r == &t && &s == &u, "reference", what); } } }
}
template <typename W, size_t N, typename F>
void PointN(mc::Ctx& c, const char* what) {
  using FW = std::decay_t<decltype(W().x())>; using FC = std::decay_t<decltype(FW().value())>; std::vector<F> v = Values<F>(60);
  mc::tuples(int(N), 5, [&](const std::vector<int>& t) { c.states(1); c.step(); std::array<F, N> f; std::array<FW, N> w; for (size_t i = 0; i < N; ++i) { f[i] = v[size_t(t[i])]; w[i] = FW(From<FC>(f[i])); }
    std::string want; for (size_t i = 0; i < N; ++i) want += (i ? ", " : "(") + f[i].ToString(); want += ")";
    W p = std::apply([](auto&... a) { return W(a...); }, w); auto cp = p.ToCPoint(); MC_CHECK(c, sizeof(cp) == sizeof(f) && memcmp(&cp, &f, sizeof(f)) == 0, "coordinates", what << " " << mc::vstr(t)); W q(cp); auto cq = q.ToCPoint(); MC_CHECK(c, memcmp(&cq, &cp, sizeof(cp)) == 0, "round trip", what); MC_CHECK(c, q.ToString() == want && Stream(q) == want, "text", what << " " << q.ToString() << " instead of " << want); });
}
#define C35_CC(CURVE)                                                                               \
  { Init(); using A = math::CURVE::G1AffinePoint; using G = A::Curve; using J = math::JacobianPoint<G>; using P = math::ProjectivePoint<G>; using X = math::PointXYZZ<G>; namespace w = cc::math::CURVE; using Fq = math::CURVE::Fq; \
    Kind<w::G1AffinePoint, A, w::G1JacobianPoint, J>(c, #CURVE " affine"); Kind<w::G1JacobianPoint, J, w::G1JacobianPoint, J>(c, #CURVE " jacobian"); Kind<w::G1ProjectivePoint, P, w::G1ProjectivePoint, P>(c, #CURVE " projective"); Kind<w::G1PointXYZZ, X, w::G1PointXYZZ, X>(c, #CURVE " xyzz"); \
    if (c.shard == 0) { PointN<w::G1Point2, 2, Fq>(c, #CURVE " point2"); PointN<w::G1Point3, 3, Fq>(c, #CURVE " point3"); PointN<w::G1Point4, 4, Fq>(c, #CURVE " point4"); } }
MC_SECTION(cc_points, 8) { C35_CC(bn254) C35_CC(bls12_381) }

// Histories of calls on one handle, against coefficients and evaluations kept by
// the model; the handle is evaluations, a polynomial or rational evaluations.
// The transform of the zero polynomial may be the empty list, as in the core.
using F = math::bn254::Fr; using CF = tachyon_bn254_fr;
using E = tachyon_bn254_univariate_evaluations; using D = tachyon_bn254_univariate_dense_polynomial; using R = tachyon_bn254_univariate_rational_evaluations;
struct Model { char kind; std::vector<F> v; std::vector<F> den; };
struct Handle { E* e = nullptr; D* d = nullptr; R* r = nullptr; };
void Free(Handle& h) { if (h.e) tachyon_bn254_univariate_evaluations_destroy(h.e); if (h.d) tachyon_bn254_univariate_dense_polynomial_destroy(h.d); if (h.r) tachyon_bn254_univariate_rational_evaluations_destroy(h.r); h = Handle(); }
std::vector<F> Dft(const std::vector<F>& v, F w) { std::vector<F> out; F x = F::One(); for (size_t i = 0; i < v.size(); ++i) { F s = F::Zero(), p = F::One(); for (const F& f : v) { s += f * p; p *= x; } out.push_back(s); x *= w; } return out; }
void Histories(mc::Ctx& c, size_t size, int depth) {
  Init(); const tachyon_bn254_univariate_evaluation_domain* dom = tachyon_bn254_univariate_evaluation_domain_create(size); const auto& nd = c::base::native_cast(*dom); size_t n = nd.size(); F w = nd.group_gen(), wi = *w.Inverse(), ni = *F(n).Inverse();
  MC_CHECK(c, n >= size && (n == 1 || n / 2 < size), "domain size", size); { F p = w; for (size_t i = 1; i < n; ++i) { MC_CHECK(c, !p.IsOne(), "generator", size); p *= w; } MC_CHECK(c, n == 1 || p.IsOne(), "generator", size); }
  uint64_t id = 0;
  auto check = [&](const Handle& h, const Model& m, const std::vector<int>& ops, const char* what) {
    c.step(); std::vector<F> got, den;
    if (m.kind == 'E') { size_t len = tachyon_bn254_univariate_evaluations_len(h.e); MC_CHECK(c, len == m.v.size(), "length", what << " evaluations " << mc::vstr(ops) << ": " << len); const auto& ev = c::base::native_cast(*h.e); for (size_t i = 0; i < m.v.size(); ++i) got.push_back(ev[i]); }
    if (m.kind == 'D') { const auto& d = c::base::native_cast(*h.d); for (size_t i = 0; i < m.v.size(); ++i) got.push_back(d[i]); for (size_t i = m.v.size(); i < d.NumElements(); ++i) MC_CHECK(c, d[i].IsZero(), "degree", what); }
    if (m.kind == 'R') { size_t len = tachyon_bn254_univariate_rational_evaluations_len(h.r); MC_CHECK(c, len == m.v.size(), "length", what << " rational evaluations " << mc::vstr(ops) << ": " << len); const auto& ev = c::base::native_cast(*h.r); for (size_t i = 0; i < m.v.size(); ++i) { got.push_back(ev[i].numerator()); den.push_back(ev[i].denominator()); CF val; tachyon_bn254_univariate_rational_evaluations_evaluate(h.r, i, &val); MC_CHECK(c, m.den[i].IsZero() || To<F>(val) * m.den[i] == m.v[i], "rational value", what << " " << mc::vstr(ops)); } MC_CHECK(c, den == m.den, "denominators", what << " " << mc::vstr(ops)); }
    MC_CHECK(c, got == m.v, "values", what << " of kind " << m.kind << " after " << mc::vstr(ops) << " over size " << n);
  };
  for (int start = 0; start < 6; ++start) mc::tuples(depth, 8, [&](const std::vector<int>& ops) {
    if (!c.mine(id++)) return; mc::at("history", int(n), start, id); c.states(1); c.trace();
    Handle h; Model m;
    if (start == 0) { h.e = tachyon_bn254_univariate_evaluation_domain_empty_evals(dom); m = {'E', std::vector<F>(n), {}}; }
    if (start == 1) { h.d = tachyon_bn254_univariate_evaluation_domain_empty_poly(dom); m = {'D', std::vector<F>(n), {}}; }
    if (start == 2) { h.r = tachyon_bn254_univariate_evaluation_domain_empty_rational_evals(dom); m = {'R', std::vector<F>(n), std::vector<F>(n, F::One())}; }
    if (start == 3) { h.e = tachyon_bn254_univariate_evaluations_create(); m = {'E', {}, {}}; }
    if (start == 4) { h.d = tachyon_bn254_univariate_dense_polynomial_create(); m = {'D', {}, {}}; }
    if (start == 5) { h.r = tachyon_bn254_univariate_rational_evaluations_create(); m = {'R', {}, {}}; }
    check(h, m, ops, "start");
    for (int k = 0; k < depth; ++k) { int op = ops[size_t(k)]; Handle o; Model mo = m; size_t at = n == 1 ? 0 : size_t(k * 2 + 1) % n; F val = k == 0 ? -F(3) : F(uint32_t(5 + 7 * k)), dv = F(uint32_t(2 + k)); CF cv = From<CF>(val), cd = From<CF>(dv);
      if (op == 0 || op == 1) {  // clone, then keep the copy (0) or change the original and drop it (1)
        if (m.kind == 'E') o.e = tachyon_bn254_univariate_evaluations_clone(h.e); if (m.kind == 'D') o.d = tachyon_bn254_univariate_dense_polynomial_clone(h.d); if (m.kind == 'R') o.r = tachyon_bn254_univariate_rational_evaluations_clone(h.r);
        if (op == 1 && at < m.v.size()) { if (m.kind == 'E') tachyon_bn254_univariate_evaluations_set_value(h.e, at, &cd); if (m.kind == 'R') tachyon_bn254_univariate_rational_evaluations_set_rational(h.r, at, &cd, &cv); }
        if (op == 0) check(h, m, ops, "original"); Free(h); h = o;
      } else if (m.v.empty()) { continue;
      } else if (m.kind == 'E') {
        if (op == 2 || op == 3) { tachyon_bn254_univariate_evaluations_set_value(h.e, op == 2 ? at : 0, &cv); m.v[op == 2 ? at : 0] = val; }
        else if (op == 4 || op == 5) { bool in = op == 5; o.d = in ? tachyon_bn254_univariate_evaluation_domain_ifft_inplace(dom, h.e) : tachyon_bn254_univariate_evaluation_domain_ifft(dom, h.e); if (!in) check(h, m, ops, "source"); m.kind = 'D'; m.v = Dft(m.v, wi); for (F& f : m.v) f *= ni; Free(h); h = o; }
      } else if (m.kind == 'D') {
        if (op == 4 || op == 5) { bool in = op == 5; o.e = in ? tachyon_bn254_univariate_evaluation_domain_fft_inplace(dom, h.d) : tachyon_bn254_univariate_evaluation_domain_fft(dom, h.d); if (!in) check(h, m, ops, "source"); m.kind = 'E'; m.v = Dft(m.v, w); Free(h); h = o; bool zero = true; for (F& f : m.v) zero = zero && f.IsZero(); if (zero && tachyon_bn254_univariate_evaluations_len(h.e) == 0) m.v.clear(); }
      } else {
        if (op == 2) { tachyon_bn254_univariate_rational_evaluations_set_zero(h.r, at); m.v[at] = F(); m.den[at] = F::One(); }
        if (op == 3) { tachyon_bn254_univariate_rational_evaluations_set_trivial(h.r, at, &cv); m.v[at] = val; m.den[at] = F::One(); }
        if (op == 4) { tachyon_bn254_univariate_rational_evaluations_set_rational(h.r, at, &cv, &cd); m.v[at] = val; m.den[at] = dv; }
        if (op == 5) { o.e = tachyon_bn254_univariate_rational_evaluations_batch_evaluate(h.r); check(h, m, ops, "source"); m.kind = 'E'; for (size_t i = 0; i < m.v.size(); ++i) m.v[i] = *(m.v[i] / m.den[i]); m.den.clear(); Free(h); h = o; }
        if (op == 6) { tachyon_bn254_univariate_rational_evaluations_set_trivial(h.r, 0, &cv); m.v[0] = val; m.den[0] = F::One(); }
      }
      check(h, m, ops, "step"); }
    Free(h); });
  tachyon_bn254_univariate_evaluation_domain_destroy(const_cast<tachyon_bn254_univariate_evaluation_domain*>(dom));
}
MC_SECTION(handles, 8) { for (size_t s : {1, 2, 3, 4, 7}) Histories(c, s, c.thorough ? 6 : 5); }

MC_SECTION(matrix, 4) {
  using M = math::BabyBear; using CM = tachyon_baby_bear; uint64_t id = 0;
  for (size_t rows = 0; rows <= 4; ++rows) for (size_t cols = 0; cols <= 4; ++cols) for (int what = 0; what < 4; ++what) { if (!c.mine(id++)) continue; mc::at("matrix", int(rows), int(cols), what); c.states(1); c.trace();
    std::vector<M> data; for (size_t i = 0; i < rows * cols; ++i) data.push_back(i % 3 == 2 ? -M(uint32_t(i)) : M(uint32_t(i * 77 + 1))); std::vector<CM> cd; for (M& m : data) cd.push_back(From<CM>(m));
    auto* h = tachyon_baby_bear_row_major_matrix_create(cd.data(), rows, cols); for (CM& x : cd) x.value ^= 1;
    if (what == 1) { auto* k = tachyon_baby_bear_row_major_matrix_clone(h); tachyon_baby_bear_row_major_matrix_destroy(h); h = k; }
    if (what == 2 && rows * cols) { auto* k = tachyon_baby_bear_row_major_matrix_clone(h); tachyon_baby_bear_row_major_matrix_get_data_ptr(h)[0] = From<CM>(M(9)); tachyon_baby_bear_row_major_matrix_destroy(h); h = k; }
    if (what == 3 && rows * cols) { size_t at = rows * cols - 1; tachyon_baby_bear_row_major_matrix_get_data_ptr(h)[at] = From<CM>(-M(9)); data[at] = -M(9); }
    MC_CHECK(c, tachyon_baby_bear_row_major_matrix_get_rows(h) == rows && tachyon_baby_bear_row_major_matrix_get_cols(h) == cols, "matrix size", rows << " x " << cols);
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) { c.step(); MC_CHECK(c, To<M>(tachyon_baby_bear_row_major_matrix_get_element(h, i, j)) == data[i * cols + j] && To<M>(tachyon_baby_bear_row_major_matrix_get_const_data_ptr(h)[i * cols + j]) == data[i * cols + j], "matrix element", rows << " x " << cols << " at " << i << ", " << j); }
    tachyon_baby_bear_row_major_matrix_destroy(h); }
}
}  // namespace
