// C14: univariate polynomials (dense, sparse, evaluation form, interpolation)
// against schoolbook arithmetic on coefficient vectors, for every team size.
#include "mc/fields/m12289.h"
#include "mc/fields/m3.h"
#include "mc/fields/m5.h"
#include "mc/fields/m7.h"
#include "mc/fields/p7.h"
#include "mc/mcfield.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using V = std::vector<uint64_t>;  // coefficients, normalised

#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 5, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif

template <typename F, size_t M> struct T {
  using DC = UnivariateDenseCoefficients<F, M>;
  using SC = UnivariateSparseCoefficients<F, M>;
  using D = UnivariatePolynomial<DC>;
  using S = UnivariatePolynomial<SC>;
  using E = UnivariateEvaluations<F, M>;
  static constexpr uint64_t p = F::Config::kModulus;

  static uint64_t z(const F& f) { return f.ToBigInt()[0]; }
  static F el(uint64_t v) { return F((uint32_t)(v % p)); }
  static std::vector<F> els(const V& v) { std::vector<F> r; for (auto x : v) r.push_back(el(x)); return r; }
  static V norm(V v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
  static D d(const V& v) { return D(DC(els(norm(v)))); }
  static S s(const V& v) { std::vector<typename SC::Term> t; for (size_t i = 0; i < v.size(); ++i) if (v[i]) t.push_back({i, el(v[i])}); return S(SC(std::move(t))); }
  static V of(const D& x) { V v; for (auto& f : x.coefficients().coefficients()) v.push_back(z(f)); return v; }  // not normalised
  static V of(const S& x) {  // {~0} when malformed
    V v; for (auto& t : x.coefficients().terms()) { if (t.degree < v.size() || t.coefficient.IsZero()) return {~0ull}; v.resize(t.degree + 1); v[t.degree] = z(t.coefficient); }
    return v;
  }
  static V add(const V& a, const V& b) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) r[i] = ((i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0)) % p; return norm(r); }
  static V neg(V a) { for (auto& x : a) x = (p - x) % p; return a; }
  static V scale(V a, uint64_t k) { for (auto& x : a) x = x * k % p; return norm(a); }
  static V mul(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = (r[i + j] + a[i] * b[j]) % p; return norm(r); }
  static uint64_t pw(uint64_t a, uint64_t e) { uint64_t r = 1 % p; for (; e; e >>= 1, a = a * a % p) if (e & 1) r = r * a % p; return r; }
  static uint64_t inv(uint64_t a) { return pw(a, p - 2); }
  static std::pair<V, V> divmod(V a, const V& b) {
    V q; if (a.size() >= b.size()) q.resize(a.size() - b.size() + 1);
    while (a.size() >= b.size()) { uint64_t k = a.back() * inv(b.back()) % p; size_t o = a.size() - b.size(); q[o] = k; for (size_t i = 0; i < b.size(); ++i) a[o + i] = (a[o + i] + (p - k) * b[i]) % p; a = norm(a); }
    return {norm(q), a};
  }
  static uint64_t eval(const V& a, uint64_t x) { uint64_t r = 0; for (size_t i = a.size(); i-- > 0;) r = (r * x + a[i]) % p; return r; }
  static std::string str(const V& v) { return mc::vstr(v); }
  static std::string text(const V& v) { std::string r; for (size_t i = v.size(); i-- > 0;) if (v[i]) { if (!r.empty()) r += " + "; r += el(v[i]).ToString(); if (i == 1) r += " * x"; if (i > 1) r += " * x^" + std::to_string(i); } return r; }

  template <typename P> static bool is(const P& x, const V& want) {
    if (of(x) != want || x.IsZero() != want.empty() || x.Degree() != (want.empty() ? 0 : want.size() - 1)) return false;
    if (x.IsOne() != (want.size() == 1 && want[0] == 1)) return false;
    return z(x.GetLeadingCoefficient()) == (want.empty() ? 0 : want.back());
  }
  static bool eq(const D& x, const V& w) { return is(x, w) && x == d(w) && !(x != d(w)); }
  static bool eq(const S& x, const V& w) { return is(x, w) && x == s(w) && !(x != s(w)); }

  static void Unary(mc::Ctx& c, const V& a, const V& pts, int team) {
    D x = d(a); S y = s(a);
    auto w = [&] { return "a=" + str(a) + " p=" + std::to_string(p) + " team=" + std::to_string(team); };
    c.trace(); mc::at("unary", a.size(), a.empty() ? 0 : a.back(), team, p);
    MC_CHECK(c, eq(x, a) && eq(y, a), "construct", w());
    MC_CHECK(c, eq(x.ToSparse(), a) && eq(y.ToDense(), a) && eq(x.ToDense(), a) && eq(y.ToSparse(), a), "convert", w());
    MC_CHECK(c, eq(-x, neg(a)) && eq(-y, neg(a)), "negate", w());
    { D t = x; S u = y; t.NegateInPlace(); u.NegateInPlace(); MC_CHECK(c, eq(t, neg(a)) && eq(u, neg(a)), "negate_in_place", w()); }
    MC_CHECK(c, x.ToString() == text(a) && y.ToString() == text(a), "to_string", w() << " gives " << x.ToString());
    { V pad = a; pad.resize(a.size() + 2); std::vector<typename SC::Term> t; for (size_t i = 0; i < pad.size(); ++i) t.push_back({i, el(pad[i])});
      MC_CHECK(c, eq(D(DC(els(pad), true)), a) && eq(S(SC(t, true)), a), "cleanup", w()); }
    for (size_t i = 0; i < a.size() + 2; ++i) { uint64_t v = i < a.size() ? a[i] : 0; MC_CHECK(c, z(x[i]) == v && z(y[i]) == v, "index", w()); }
    // squares and differences with itself, aliased
    { D t = x; t += t; D u = x; u -= u; D v = x; v *= v; MC_CHECK(c, eq(t, add(a, a)) && eq(u, {}) && eq(v, mul(a, a)), "aliased_dense", w()); }
    { S t = y; t += t; S u = y; u -= u; S v = y; v *= v; MC_CHECK(c, eq(t, add(a, a)) && eq(u, {}) && eq(v, mul(a, a)), "aliased_sparse", w()); }
    for (uint64_t k : pts) {
      F f = el(k);
      MC_CHECK(c, z(x.Evaluate(f)) == eval(a, k), "evaluate_dense", w() << " at " << k << " gives " << z(x.Evaluate(f)));
      MC_CHECK(c, z(y.Evaluate(f)) == eval(a, k), "evaluate_sparse", w() << " at " << k << " gives " << z(y.Evaluate(f)));
      MC_CHECK(c, eq(x * f, scale(a, k)) && eq(y * f, scale(a, k)), "scale", w() << " by " << k);
      { D t = x; S u = y; t *= f; u *= f; MC_CHECK(c, eq(t, scale(a, k)) && eq(u, scale(a, k)), "scale_in_place", w() << " by " << k); }
      auto q = x / f; auto r = y / f; D t = x; S u = y; bool ok1 = !!(t /= f), ok2 = !!(u /= f);
      if (k) MC_CHECK(c, q && r && ok1 && ok2 && eq(*q, scale(a, inv(k))) && eq(*r, scale(a, inv(k))) && eq(t, scale(a, inv(k))) && eq(u, scale(a, inv(k))), "divide_scalar", w() << " by " << k);
      else MC_CHECK(c, !q && !r && !ok1 && !ok2, "divide_scalar_zero", w());
      V fold; for (size_t i = 0; i < a.size(); i += 2) fold.push_back((a[i] + (i + 1 < a.size() ? a[i + 1] * k : 0)) % p);
      fold = norm(fold);
      MC_CHECK(c, eq(x.Fold(f), fold), "fold_dense", w() << " r=" << k);
      MC_CHECK(c, eq(y.Fold(f), fold), "fold_sparse", w() << " r=" << k);
    }
  }

  template <typename A, typename B> static void DivPair(mc::Ctx& c, const A& x, const B& y, const V& a, const V& b, const std::string& k, const std::string& w) {
    auto q = x / y; auto r = x % y; auto qr = x.DivMod(y);
    if (b.empty()) { MC_CHECK(c, !q && !r && !qr, "divide_by_zero_" + k, w); return; }
    auto want = divmod(a, b);
    MC_CHECK(c, q && eq(*q, want.first), "div_" + k, w << (q ? " gives " + str(of(*q)) : " gives none"));
    MC_CHECK(c, r && eq(*r, want.second), "mod_" + k, w << (r ? " gives " + str(of(*r)) : " gives none"));
    MC_CHECK(c, qr && eq(qr->quotient, want.first) && eq(qr->remainder, want.second), "divmod_" + k, w);
  }

  static void Pair(mc::Ctx& c, const V& a, const V& b, int team) {
    D xd = d(a), yd = d(b); S xs = s(a), ys = s(b);
    std::string w = "a=" + str(a) + " b=" + str(b) + " p=" + std::to_string(p) + " team=" + std::to_string(team);
    c.trace(); mc::at("pair", a.size(), b.size(), team, p);
    if (c.want_sample()) c.sample(w);
    V su = add(a, b), di = add(a, neg(b)), pr = mul(a, b);
    bool same = a == b;
    MC_CHECK(c, (xd == yd) == same && (xs == ys) == same && (xd != yd) != same && (xs != ys) != same, "equality", w);
    MC_CHECK(c, eq(xd + yd, su), "add_dd", w); MC_CHECK(c, eq(xd + ys, su), "add_ds", w); MC_CHECK(c, eq(xs + yd, su), "add_sd", w); MC_CHECK(c, eq(xs + ys, su), "add_ss", w);
    MC_CHECK(c, eq(xd - yd, di), "sub_dd", w); MC_CHECK(c, eq(xd - ys, di), "sub_ds", w); MC_CHECK(c, eq(xs - yd, di), "sub_sd", w); MC_CHECK(c, eq(xs - ys, di), "sub_ss", w);
    MC_CHECK(c, eq(xd * yd, pr), "mul_dd", w); MC_CHECK(c, eq(xd * ys, pr), "mul_ds", w); MC_CHECK(c, eq(xs * yd, pr), "mul_sd", w); MC_CHECK(c, eq(xs * ys, pr), "mul_ss", w);
    { D t = xd; t += yd; MC_CHECK(c, eq(t, su), "add_in_place_dd", w); } { D t = xd; t += ys; MC_CHECK(c, eq(t, su), "add_in_place_ds", w); } { S t = xs; t += ys; MC_CHECK(c, eq(t, su), "add_in_place_ss", w); }
    { D t = xd; t -= yd; MC_CHECK(c, eq(t, di), "sub_in_place_dd", w); } { D t = xd; t -= ys; MC_CHECK(c, eq(t, di), "sub_in_place_ds", w); } { S t = xs; t -= ys; MC_CHECK(c, eq(t, di), "sub_in_place_ss", w); }
    { D t = xd; t *= yd; MC_CHECK(c, eq(t, pr), "mul_in_place_dd", w); } { D t = xd; t *= ys; MC_CHECK(c, eq(t, pr), "mul_in_place_ds", w); } { S t = xs; t *= ys; MC_CHECK(c, eq(t, pr), "mul_in_place_ss", w); }
    DivPair(c, xd, yd, a, b, "dd", w); DivPair(c, xd, ys, a, b, "ds", w); DivPair(c, xs, yd, a, b, "sd", w); DivPair(c, xs, ys, a, b, "ss", w);
    D q1 = xd, q2 = xd, r1 = xd, r2 = xd; bool o1 = !!q1.DivInPlace(yd), o2 = !!(q2 /= ys), o3 = !!r1.ModInPlace(yd), o4 = !!r2.ModInPlace(ys);
    if (b.empty()) MC_CHECK(c, !o1 && !o2 && !o3 && !o4 && eq(q1, a) && eq(r1, a), "divide_in_place_by_zero", w);
    else { auto qr = divmod(a, b); MC_CHECK(c, o1 && o2 && eq(q1, qr.first) && eq(q2, qr.first), "div_in_place", w); MC_CHECK(c, o3 && o4 && eq(r1, qr.second) && eq(r2, qr.second), "mod_in_place", w); }
  }

  static std::vector<V> All(int len) { std::vector<V> r{{}}; for (int n = 1; n <= len; ++n) mc::tuples(n, p, [&](const std::vector<int>& t) { if (t.back()) r.push_back(V(t.begin(), t.end())); }); return r; }
  static V Field() { V r; for (uint64_t i = 0; i < p; ++i) r.push_back(i); return r; }

  // every pair of polynomials with at most |la| and |lb| coefficients
  static void Exhaust(mc::Ctx& c, int la, int lb, int lu) {
    auto A = All(la), B = All(lb), U = All(lu); uint64_t id = 0; V f = Field();
    for (int team : kTeams) { Team(team);
      for (auto& a : U) if (c.mine(id++)) { c.state(mc::mix(team, mc::hash_bytes(a.data(), a.size() * 8))); Unary(c, a, f, team); }
      for (auto& a : A) for (auto& b : B) if (c.mine(id++)) { c.state(mc::mix(mc::hash_bytes(a.data(), a.size() * 8), mc::mix(team, mc::hash_bytes(b.data(), b.size() * 8)))); Pair(c, a, b, team); if (lb < la) Pair(c, b, a, team); }
    }
  }

  static V Spread(size_t n, uint64_t salt, int zeros) {
    V v; uint64_t x = 3 + salt; for (size_t i = 0; i < n; ++i) { x = (x * x + 7 * salt + i) % p; uint64_t y = x; if (zeros && i + 1 < n && i % (zeros + 1) != 1) y = 0; v.push_back(y); }
    if (n && !v.back()) v.back() = 1; return v;
  }
  // every length up to N (gaps of 0, 1, 3 and 7 zero coefficients)
  static void Lengths(mc::Ctx& c, size_t N, size_t step) {
    uint64_t id = 0; V pts{0, 1, 2, p - 1, p / 2};
    for (int team : kTeams) { Team(team);
      for (size_t n = 0; n <= N; ++n) for (int zr : {0, 1, 3, 7, 64}) {
        V a = Spread(n, n, zr);
        if (c.mine(id++)) { c.state(mc::mix(n * 64 + team, zr)); Unary(c, a, pts, team); }
        for (size_t m = 0; m <= N; m += (m < 10 ? 1 : step)) { if (!c.mine(id++)) continue; V b = Spread(m, m + 5, zr ^ 1); c.state(mc::mix(n * 1024 + m, zr * 64 + team)); Pair(c, a, b, team); }
        // equal leading parts: the sum / difference drops in degree
        for (size_t cut = 0; cut <= n; cut += (n < 12 ? 1 : 5)) { if (!c.mine(id++)) continue; V b = a; for (size_t i = 0; i < cut; ++i) b[i] = (b[i] + i + 1) % p; b = norm(b); c.state(mc::mix(n * 1024 + cut, zr * 64 + team + 32)); Pair(c, a, b, team); Pair(c, a, neg(b), team); }
      }
    }
  }

  // every list of roots, every interpolation problem
  static void Roots(mc::Ctx& c, int len) {
    uint64_t id = 0; V f = Field();
    for (int team : kTeams) { Team(team);
      for (int n = 0; n <= len; ++n) mc::tuples(n, p, [&](const std::vector<int>& t) {
        if (!c.mine(id++)) return;
        V w{1}; for (int r : t) w = mul(w, V{(p - r) % p, 1});
        std::vector<F> roots; for (int r : t) roots.push_back(el(r));
        c.state(mc::mix(mc::hash_bytes(t.data(), t.size() * 4), team)); c.trace();
        mc::at("roots", n, team, p);
        MC_CHECK(c, eq(D::FromRoots(roots), w) && eq(S::FromRoots(roots), w), "from_roots", mc::vstr(t));
        for (uint64_t x : f) {
          MC_CHECK(c, z(D::EvaluateVanishingPolyByRoots(roots, el(x))) == eval(w, x) && z(D::EvaluateVanishingPolyByRootsSerial(roots, el(x))) == eval(w, x), "vanishing_by_roots", mc::vstr(t) << " at " << x);
        }
      });
    }
  }
  static void Interp1(mc::Ctx& c, const V& xs, const V& ys, int team) {
    D r; mc::at("interpolate", xs.size(), team, p); c.trace();
    bool ok = LagrangeInterpolate<M>(els(xs), els(ys), &r);
    bool good = ok && of(r).size() <= xs.size() && of(r) == norm(of(r));
    for (size_t i = 0; good && i < xs.size(); ++i) good = eval(of(r), xs[i]) == ys[i];
    MC_CHECK(c, good, "interpolate", "x=" << str(xs) << " y=" << str(ys) << " team=" << team << " gives " << str(of(r)));
  }
  static void Interp(mc::Ctx& c, int len) {
    uint64_t id = 0;
    for (int team : kTeams) { Team(team);
      for (int n = 1; n <= len; ++n) mc::tuples(n, p, [&](const std::vector<int>& t) {
        if (std::set<int>(t.begin(), t.end()).size() != t.size()) return;
        mc::tuples(n, p, [&](const std::vector<int>& y) {
          if (!c.mine(id++)) return;
          c.state(mc::mix(mc::hash_bytes(t.data(), t.size() * 4), mc::mix(team, mc::hash_bytes(y.data(), y.size() * 4))));
          Interp1(c, V(t.begin(), t.end()), V(y.begin(), y.end()), team);
        });
        if (c.mine(id++)) { D r; MC_CHECK(c, !LagrangeInterpolate<M>(els(V(n, 1)), els(V(n + 1, 1)), &r) && !LagrangeInterpolate<M>(els(V(n, 1)), els(V(n - 1, 1)), &r), "interpolate_size", n); }
      });
    }
  }
  static void InterpLong(mc::Ctx& c, size_t N) {
    uint64_t id = 0;
    for (int team : kTeams) { Team(team);
      for (size_t n = 1; n <= N; ++n) for (int kind = 0; kind < 3; ++kind) { if (!c.mine(id++)) continue; V xs, ys = Spread(n, n + kind, kind); for (size_t i = 0; i < n; ++i) xs.push_back((i * 37 + kind * 5) % p); c.state(mc::mix(n, kind * 64 + team)); Interp1(c, xs, ys, team);
        std::vector<F> f = els(xs); V w{1}; for (auto r : xs) w = mul(w, V{(p - r) % p, 1}); MC_CHECK(c, eq(D::FromRoots(f), w), "from_roots", n); for (uint64_t x : {uint64_t{0}, uint64_t{2}, p - 1}) MC_CHECK(c, z(D::EvaluateVanishingPolyByRoots(f, el(x))) == eval(w, x), "vanishing_by_roots", n << " team " << team); }
    }
  }

  // ---- evaluation form
  static V of(const E& e) { V v; for (auto& f : e.evaluations()) v.push_back(z(f)); return v; }
  static void Evals(mc::Ctx& c, const V& a, const V& b, int team) {
    E x(els(a)), y(els(b)); std::string w = "a=" + str(a) + " b=" + str(b) + " team=" + std::to_string(team);
    bool za = true, zb = true, oa = !a.empty(), eqv = a == b; for (auto v : a) { za &= v == 0; oa &= v == 1; } for (auto v : b) zb &= v == 0;
    if (a.empty() || b.empty()) eqv = za && zb;
    mc::at("evaluations", a.size(), b.size(), team); c.trace();
    MC_CHECK(c, x.IsZero() == za && x.IsOne() == oa && (x == y) == eqv && (x != y) != eqv, "evals_predicates", w);
    auto pad = [&](const V& v, const V& o) { V r = v; if (r.empty()) r.assign(o.size(), 0); return r; };
    V A = pad(a, b), B = pad(b, a), su, di, pr, qu; bool div = true;
    for (size_t i = 0; i < A.size(); ++i) { su.push_back((A[i] + B[i]) % p); di.push_back((A[i] + p - B[i]) % p); pr.push_back(A[i] * B[i] % p); qu.push_back(A[i] * inv(B[i]) % p); div &= B[i] != 0; }
    auto same = [&](const E& e, const V& v) { V u = of(e); if (u.empty()) u.assign(v.size(), 0); return u == v; };
    MC_CHECK(c, same(x + y, su), "evals_add", w); MC_CHECK(c, same(x - y, di), "evals_sub", w); MC_CHECK(c, same(x * y, pr), "evals_mul", w); MC_CHECK(c, same(-x, neg(a)), "evals_neg", w);
    { E t = x; t += y; MC_CHECK(c, same(t, su), "evals_add_in_place", w); } { E t = x; t -= y; MC_CHECK(c, same(t, di), "evals_sub_in_place", w); } { E t = x; t *= y; MC_CHECK(c, same(t, pr), "evals_mul_in_place", w); } { E t = x; t.NegateInPlace(); MC_CHECK(c, same(t, neg(a)), "evals_neg_in_place", w); }
    { E t = x; t += t; E u = x; u -= u; E v = x; v *= v; V dd, ss; for (auto k : a) { dd.push_back(2 * k % p); ss.push_back(k * k % p); } MC_CHECK(c, same(t, dd) && same(u, V(a.size())) && same(v, ss), "evals_aliased", w); }
    { auto q = x / y; E t = x; bool ok = !!(t /= y); if (!b.empty() && div) MC_CHECK(c, q && ok && same(*q, qu) && same(t, qu), "evals_div", w); else if (!a.empty()) MC_CHECK(c, !q && !ok, "evals_div_zero", w); }
    for (size_t i = 0; i < a.size() + 1; ++i) MC_CHECK(c, z(x[i]) == (i < a.size() ? a[i] : 0), "evals_index", w);
    for (uint64_t k = 0; k < 3 % p + 1; ++k) { V sc; for (auto v : a) sc.push_back(v * k % p); E t = x; t *= el(k); MC_CHECK(c, same(x * el(k), sc) && same(t, sc), "evals_scale", w << " k=" << k);
      auto q = x / el(k); E u = x; bool ok = !!(u /= el(k)); V sd; for (auto v : a) sd.push_back(v * inv(k) % p); MC_CHECK(c, k ? q && ok && same(*q, sd) && same(u, sd) : !q && !ok, "evals_divide_scalar", w << " k=" << k); }
  }
  static void EvalsAll(mc::Ctx& c, int len) {
    uint64_t id = 0;
    for (int team : kTeams) { Team(team);
      for (int n = 0; n <= len; ++n) mc::tuples(n, p, [&](const std::vector<int>& t) { V a(t.begin(), t.end());
        if (c.mine(id++)) { Evals(c, a, {}, team); Evals(c, {}, a, team); }
        mc::tuples(n, p, [&](const std::vector<int>& u) { if (!c.mine(id++)) return; V b(u.begin(), u.end()); c.state(mc::mix(mc::hash_bytes(t.data(), n * 4), mc::mix(team, mc::hash_bytes(u.data(), n * 4)))); Evals(c, a, b, team); }); });
    }
  }
};

MC_SECTION(f3, 8) { T<M3, 512>::Exhaust(c, 4, 4, 6); }
MC_SECTION(f3_long, 8) { T<M3, 512>::Exhaust(c, 5, 3, 0); }
MC_SECTION(f5, 8) { T<M5, 512>::Exhaust(c, 3, 3, 4); }
MC_SECTION(f7, 8) { T<M7, 512>::Exhaust(c, 3, 2, 4); }
MC_SECTION(p7, 8) { T<P7, 512>::Exhaust(c, 2, 2, 3); T<P7, 512>::Lengths(c, 20, 4); }
MC_SECTION(f3_lengths, 8) { T<M3, 512>::Lengths(c, 24, 3); }
MC_SECTION(lengths, 8) { T<M12289, 512>::Lengths(c, c.thorough ? 80 : 40, c.thorough ? 5 : 11); }
MC_SECTION(roots, 8) { T<M3, 512>::Roots(c, 6); T<M5, 512>::Roots(c, 4); T<P7, 512>::Roots(c, 3); }
MC_SECTION(interpolation, 8) { T<M3, 512>::Interp(c, 3); T<M5, 512>::Interp(c, 3); T<P7, 512>::Interp(c, 2); T<M12289, 512>::InterpLong(c, 40); }
MC_SECTION(evaluations, 8) { T<M3, 512>::EvalsAll(c, 3); T<M5, 512>::EvalsAll(c, 2); }
MC_SECTION_THOROUGH(deep, 8) { T<M3, 512>::Exhaust(c, 5, 5, 8); T<M5, 512>::Exhaust(c, 4, 3, 5); T<M5, 512>::Interp(c, 4); }
}  // namespace
