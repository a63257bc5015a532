// C16: multilinear extensions, sparse multivariate polynomials, linear
// combinations and the sumcheck protocol against their definitions.
#include <map>

#include "mc/fields/m17.h"
#include "mc/fields/m3.h"
#include "mc/fields/m5.h"
#include "mc/fields/m7.h"
#include "mc/fields/m97.h"
#include "mc/mcfield.h"
#include "absl/hash/hash.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using namespace tachyon::crypto;

#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif

constexpr size_t kMax = 24;
template <typename F> using ME = MultilinearDenseExtension<F, 5>;
template <typename F> using MV = MultilinearDenseEvaluations<F, 5>;
template <typename F> using V = std::vector<F>;

template <typename F> V<F> ToF(const std::vector<int>& v) {
  V<F> r;
  for (int x : v) r.push_back(F(static_cast<uint64_t>(x)));
  return r;
}
// The defining sum: sum_b evals[b] * prod_i (b_i ? x_i : 1 - x_i).
template <typename F> F Ext(const V<F>& e, const V<F>& x) {
  F r = F::Zero();
  for (size_t b = 0; b < e.size(); ++b) {
    F w = e[b];
    for (size_t i = 0; i < x.size(); ++i) w = w * ((b >> i) & 1 ? x[i] : F::One() - x[i]);
    r = r + w;
  }
  return r;
}
template <typename F> std::string S(const V<F>& v) { return mc::vstr(v); }

template <typename F> void Unary(mc::Ctx& c, const std::vector<int>& iv, int n, int p) {
  V<F> e = ToF<F>(iv);
  MV<F> ev(e);
  ME<F> m(ev);
  MC_CHECK(c, m.Degree() == size_t(n), "degree", S(e));
  bool z = true, o = true;
  for (const F& f : e) { z = z && f == F::Zero(); o = o && f == F::One(); }
  MC_CHECK(c, m.IsZero() == z && m.IsOne() == o, "iszero_isone", S(e));
  MC_CHECK(c, (m == ME<F>::Zero()) == z && (ME<F>::Zero() == m) == z && (m != ME<F>::Zero()) == !z, "eq_zero", S(e));
  if (z) MC_CHECK(c, absl::HashOf(m) == absl::HashOf(ME<F>::Zero()), "hash_zero", S(e));
  for (size_t i = 0; i < e.size() + 2; ++i)
    MC_CHECK(c, m[i] == (i < e.size() ? e[i] : F::Zero()) && std::as_const(m).at(i) == m[i], "index", S(e));
  V<F> neg;
  for (const F& f : e) neg.push_back(F::Zero() - f);
  MC_CHECK(c, (-m).evaluations().evaluations() == neg, "neg", S(e));
  ME<F> mi = m;
  MC_CHECK(c, &mi.NegateInPlace() == &mi && mi.evaluations().evaluations() == neg, "neg_in_place", S(e));
  for (int k = 0; k <= n; ++k) {
    mc::tuples(k, p, [&](const std::vector<int>& px) {
      V<F> x = ToF<F>(px);
      mc::at((S(e) + " fix " + S(x)).c_str());
      MV<F> g = ev.FixVariables(x);
      V<F> want;
      for (size_t b = 0; b < size_t{1} << (n - k); ++b) {
        V<F> y = x;
        for (int i = 0; i < n - k; ++i) y.push_back((b >> i) & 1 ? F::One() : F::Zero());
        want.push_back(Ext(e, y));
      }
      MC_CHECK(c, g.evaluations() == want, "fix", S(e) + " at " + S(x) + " = " + S(g.evaluations()));
      MV<F> h = ev;
      MV<F> hr = h.FixVariablesInPlace(x);
      MC_CHECK(c, h.evaluations() == want && hr.evaluations() == want, "fix_in_place", S(e) + " at " + S(x));
      MC_CHECK(c, ev.evaluations() == e, "fix_const", S(e));
      if (k == n) MC_CHECK(c, m.Evaluate(x) == want[0] && ev.Evaluate(x) == want[0], "evaluate", S(e) + " at " + S(x));
      c.step(4);
    });
  }
  c.states(1);
}
template <typename F> void Binary(mc::Ctx& c, const V<F>& a, const V<F>& b) {
  using M = ME<F>;
  M x{MV<F>(a)}, y{MV<F>(b)};
  // An empty vector is the zero polynomial of every size.
  size_t n = std::max(a.size(), b.size());
  V<F> za = a.empty() ? V<F>(n, F::Zero()) : a, zb = b.empty() ? V<F>(n, F::Zero()) : b;
  V<F> s, d, m, q;
  bool ok = true;
  for (size_t i = 0; i < n; ++i) {
    s.push_back(za[i] + zb[i]); d.push_back(za[i] - zb[i]); m.push_back(za[i] * zb[i]);
    if (zb[i] == F::Zero()) { ok = false; q.push_back(F::Zero()); }
    else q.push_back(za[i] * *zb[i].Inverse());
  }
  auto msg = [&] { return S(a) + " " + S(b); };
  mc::at(msg().c_str());
  auto is = [&](const M& r, const V<F>& w) { return r == M(MV<F>(w)) && M(MV<F>(w)) == r; };
  MC_CHECK(c, is(x + y, s), "add", msg());
  MC_CHECK(c, is(x - y, d), "sub", msg());
  MC_CHECK(c, is(x * y, m), "mul", msg());
  { M t = x; MC_CHECK(c, &(t += y) == &t && is(t, s), "add_in_place", msg()); }
  { M t = x; MC_CHECK(c, &(t -= y) == &t && is(t, d), "sub_in_place", msg()); }
  { M t = x; MC_CHECK(c, &(t *= y) == &t && is(t, m), "mul_in_place", msg()); }
  bool def = !b.empty() && ok;
  auto r = x / y;
  if (!a.empty()) {
    MC_CHECK(c, r.has_value() == def && (!def || is(*r, q)), "div", msg());
    M t = x;
    auto rp = t /= y;
    MC_CHECK(c, rp.has_value() == def && (!def || (is(t, q) && *rp == &t)), "div_in_place", msg());
  }
  MC_CHECK(c, (x == y) == (za == zb) && (x != y) == (za != zb), "eq", msg());
  if (za == zb) MC_CHECK(c, absl::HashOf(x) == absl::HashOf(y), "hash", msg());
  { M t = x; t += t; V<F> w; for (auto& f : za) w.push_back(f + f); MC_CHECK(c, is(t, w), "self_add", msg()); }
  { M t = x; t -= t; MC_CHECK(c, t.IsZero(), "self_sub", msg()); }
  c.step(11);
  c.states(1);
}
template <typename F> void MleAll(mc::Ctx& c, int p, int nu, int nb) {
  F::Init();
  for (int t : kTeams) {
    Team(t);
    uint64_t i = 0;
    for (int n = 0; n <= nu; ++n)
      mc::tuples(1 << n, p, [&](const std::vector<int>& v) { if (c.mine(i++)) Unary<F>(c, v, n, p); });
    for (int n = 0; n <= nb; ++n) {
      mc::tuples(1 << n, p, [&](const std::vector<int>& v) {
        if (!c.mine(i++)) return;
        V<F> a = ToF<F>(v);
        Binary<F>(c, a, {});
        Binary<F>(c, {}, a);
        mc::tuples(1 << n, p, [&](const std::vector<int>& w) { Binary<F>(c, a, ToF<F>(w)); });
      });
    }
    Binary<F>(c, {}, {});
  }
}
MC_SECTION(mle_m3, 8) { MleAll<M3>(c, 3, 3, 2); }
MC_SECTION(mle_m5, 4) { MleAll<M5>(c, 5, 2, 1); }
MC_SECTION(mle_m7, 4) { MleAll<M7>(c, 7, c.thorough ? 2 : 1, 1); }
MC_SECTION(mle_large, 4) {
  // n = 3, 4, 5: unit vectors and a dense vector, over a larger field.
  using F = M97;
  F::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int n = 3; n <= 5; ++n)
      for (int k = 0; k <= (1 << n); ++k) {
        if (!c.mine(i++)) continue;
        V<F> e(size_t{1} << n, F::Zero());
        if (k < (1 << n)) e[k] = F(5u);
        else for (size_t j = 0; j < e.size(); ++j) e[j] = F(uint64_t(j * j + 3 * j + 7) % 97);
        MV<F> ev(e);
        for (uint64_t s = 2; s < 40; ++s) {
          V<F> x;
          uint64_t q = s;
          for (int j = 0; j < n; ++j) { x.push_back(F(q)); q = (q * 11 + 3) % 97; }
          MC_CHECK(c, ev.Evaluate(x) == Ext(e, x), "evaluate", S(e) + " at " + S(x));
          for (int f = 0; f <= n; ++f) {
            V<F> px(x.begin(), x.begin() + f), rest(x.begin() + f, x.end());
            MV<F> g = ev.FixVariables(px);
            MC_CHECK(c, g.Evaluate(rest) == Ext(e, x), "fix_then_evaluate", S(e) + " at " + S(x));
            c.step(1);
          }
        }
        Binary<F>(c, e, V<F>(e.rbegin(), e.rend()));
      }
  }
}

// ---- sparse multivariate polynomials ----
using Mono = std::vector<int>;  // exponent per variable
template <typename F> using Ora = std::map<Mono, F>;
template <typename F> struct MP {
  using C = MultivariateSparseCoefficients<F, kMax>;
  using P = MultivariatePolynomial<C>;
  using L = typename C::Literal;
  using El = typename C::Element;
  using T = typename C::Term;

  static L Lit(const Mono& m) {
    std::vector<El> v;
    for (size_t i = 0; i < m.size(); ++i)
      if (m[i]) v.push_back({i, size_t(m[i])});
    if (v.empty()) v.push_back({});
    return L(v);
  }
  static P Make(const Ora<F>& o, size_t nv) {
    std::vector<T> ts;
    for (auto& [m, f] : o) ts.push_back({Lit(m), f});
    std::sort(ts.begin(), ts.end());
    return P(C(nv, ts));
  }
  static F Eval(const Ora<F>& o, const V<F>& x) {
    F r = F::Zero();
    for (auto& [m, f] : o) {
      F w = f;
      for (size_t i = 0; i < m.size(); ++i)
        for (int k = 0; k < m[i]; ++k) w = w * x[i];
      r = r + w;
    }
    return r;
  }
  static Ora<F> Comb(const Ora<F>& a, const Ora<F>& b, bool sub) {
    Ora<F> r = a;
    for (auto& [m, f] : b) {
      auto it = r.find(m);
      F v = (it == r.end() ? F::Zero() : it->second);
      v = sub ? v - f : v + f;
      if (v == F::Zero()) { if (it != r.end()) r.erase(it); }
      else if (it != r.end()) it->second = v;
      else r.emplace(m, v);
    }
    return r;
  }
  static size_t Deg(const Ora<F>& o) {
    size_t d = 0;
    for (auto& [m, f] : o) { size_t s = 0; for (int e : m) s += e; d = std::max(d, s); }
    return d;
  }
  static std::string Str(const Ora<F>& o) {
    std::string s;
    for (auto& [m, f] : o) { s += f.ToString() + "*x"; for (int e : m) s += "_" + std::to_string(e); s += " "; }
    return "{" + s + "}";
  }
  // The polynomial p must be o in every observable respect.
  static void Is(mc::Ctx& c, const P& p, const Ora<F>& o, const std::vector<V<F>>& pts,
                 const std::vector<Mono>& monos, size_t nv, const char* key, const std::string& msg) {
    mc::at((std::string(key) + " " + msg).c_str());
    bool ok = p.IsZero() == o.empty();
    MC_CHECK(c, ok, std::string(key) + "_iszero", msg + " got " + p.ToString());
    bool one = o.size() == 1 && Deg(o) == 0 && o.begin()->second == F::One();
    MC_CHECK(c, p.IsOne() == one, std::string(key) + "_isone", msg);
    MC_CHECK(c, p.Degree() == Deg(o), std::string(key) + "_degree", msg + " got " + std::to_string(p.Degree()));
    for (auto& m : monos) {
      auto it = o.find(m);
      MC_CHECK(c, p[Lit(m)] == (it == o.end() ? F::Zero() : it->second), std::string(key) + "_coeff", msg + " got " + p.ToString());
    }
    for (auto& x : pts)
      MC_CHECK(c, p.Evaluate(x) == Eval(o, x), std::string(key) + "_evaluate", msg + " got " + p.ToString() + " at " + S(x));
    MC_CHECK(c, p == Make(o, nv) && !(p != Make(o, nv)), std::string(key) + "_eq", msg + " got " + p.ToString());
    c.step(4 + pts.size());
  }
  static void All(mc::Ctx& c, int nv, int maxe, int p, int maxt, int pairt) {
    F::Init();
    std::vector<Mono> monos;
    mc::tuples(nv, maxe + 1, [&](const std::vector<int>& m) { monos.push_back(m); });
    std::vector<V<F>> pts;
    mc::tuples(nv, std::min(p, 3), [&](const std::vector<int>& x) {
      V<F> v = ToF<F>(x);
      if (p > 3) for (auto& f : v) f = f + F(2u);
      pts.push_back(v);
    });
    std::vector<Ora<F>> ps{{}};
    // all polynomials with at most maxt terms
    std::function<void(size_t, Ora<F>&)> rec = [&](size_t from, Ora<F>& cur) {
      if (int(cur.size()) == maxt) return;
      for (size_t i = from; i < monos.size(); ++i)
        for (int k = 1; k < p; ++k) {
          cur.emplace(monos[i], F(uint64_t(k)));
          ps.push_back(cur);
          rec(i + 1, cur);
          cur.erase(monos[i]);
        }
    };
    Ora<F> cur;
    rec(0, cur);
    for (size_t i = 0; i < ps.size(); ++i) {
      if (!c.mine(i)) continue;
      const Ora<F>& a = ps[i];
      P pa = Make(a, nv);
      Is(c, pa, a, pts, monos, nv, "make", Str(a));
      Ora<F> na = Comb({}, a, true);
      Is(c, -pa, na, pts, monos, nv, "neg", Str(a));
      P t = pa;
      MC_CHECK(c, &t.NegateInPlace() == &t, "neg_ref", Str(a));
      Is(c, t, na, pts, monos, nv, "neg_in_place", Str(a));
      { P u = pa; u += u; Is(c, u, Comb(a, a, false), pts, monos, nv, "self_add", Str(a)); }
      { P u = pa; u -= u; Is(c, u, {}, pts, monos, nv, "self_sub", Str(a)); }
      Is(c, pa + P::Zero(), a, pts, monos, nv, "add_zero", Str(a));
      Is(c, P::Zero() + pa, a, pts, monos, nv, "zero_add", Str(a));
      Is(c, P::Zero() - pa, na, pts, monos, nv, "zero_sub", Str(a));
      Is(c, pa - P::Zero(), a, pts, monos, nv, "sub_zero", Str(a));
      Ora<F> one{{Mono(nv, 0), F::One()}};
      // One() is declared over a single variable.
      if (!a.empty() || nv == 1) Is(c, pa + P::One(), Comb(a, one, false), pts, monos, nv, "add_one", Str(a));
      // Order of the given terms is irrelevant to their value; duplicates
      // (next to each other) are merged by Compact().
      {
        std::vector<T> ts = pa.coefficients().terms(), dup;
        for (const T& x : ts) { dup.push_back(x); dup.push_back(x); }
        C cc(nv, dup);
        cc.Compact();
        Is(c, P(cc), Comb(a, a, false), pts, monos, nv, "compact", Str(a));
        for (T& x : dup) x.coefficient = F::Zero();
        C c0(nv, dup);
        c0.Compact();
        MC_CHECK(c, P(c0).IsZero(), "compact_zero", Str(a));
      }
      c.states(1);
      c.trace(1); if (c.want_sample()) c.sample(Str(a));
      if (int(a.size()) > pairt) continue;
      for (const Ora<F>& b : ps) {
        if (int(b.size()) > pairt) continue;
        P pb = Make(b, nv);
        std::string msg = Str(a) + " , " + Str(b);
        std::vector<V<F>> few{pts.back(), pts[pts.size() / 2]};
        Is(c, pa + pb, Comb(a, b, false), few, monos, nv, "add", msg);
        Is(c, pa - pb, Comb(a, b, true), few, monos, nv, "sub", msg);
        { P u = pa; MC_CHECK(c, &(u += pb) == &u, "add_ref", msg); Is(c, u, Comb(a, b, false), few, monos, nv, "add_in_place", msg); }
        { P u = pa; MC_CHECK(c, &(u -= pb) == &u, "sub_ref", msg); Is(c, u, Comb(a, b, true), few, monos, nv, "sub_in_place", msg); }
        MC_CHECK(c, (pa == pb) == (a == b) && (pa != pb) == !(a == b), "eq", msg);
        c.states(1);
      }
    }
    // Literals are totally ordered.
    if (c.mine(ps.size()))
      for (auto& x : monos)
        for (auto& y : monos) {
          L lx = Lit(x), ly = Lit(y);
          std::string msg = lx.ToString() + " " + ly.ToString();
          MC_CHECK(c, (lx == ly) == (x == y) && (lx != ly) == (x != y), "literal_eq", msg);
          MC_CHECK(c, (lx < ly) + (ly < lx) == (x != y), "literal_order", msg);
          for (auto& z : monos) {
            L lz = Lit(z);
            MC_CHECK(c, !(lx < ly && ly < lz) || lx < lz, "literal_transitive", msg + " " + lz.ToString());
            c.step(1);
          }
        }
  }
};
MC_SECTION(mvpoly_1v, 1) { Team(kTeams[0]); MP<M5>::All(c, 1, 3, 5, 2, 2); }
MC_SECTION(mvpoly_2v, 4) { for (int t : kTeams) { Team(t); MP<M3>::All(c, 2, 2, 3, c.thorough ? 4 : 3, 2); } }
MC_SECTION(mvpoly_3v, 8) { Team(kTeams[0]); MP<M3>::All(c, 3, c.thorough ? 2 : 1, 3, 3, 2); }
MC_SECTION(mvpoly_mix, 4) {
  // operands declared over different numbers of variables
  using F = M5;
  using Q = MP<F>;
  F::Init();
  uint64_t i = 0;
  for (int na = 1; na <= 3; ++na)
    for (int nb = 1; nb <= 3; ++nb)
      mc::tuples(na, 2, [&](const std::vector<int>& ma) {
        mc::tuples(nb, 2, [&](const std::vector<int>& mb) {
          if (!c.mine(i++)) return;
          for (int ka = 1; ka < 5; ++ka)
            for (int kb = 1; kb < 5; ++kb) {
              int n = std::max(na, nb);
              Ora<F> a{{ma, F(uint64_t(ka))}}, b{{mb, F(uint64_t(kb))}};
              auto pa = Q::Make(a, na), pb = Q::Make(b, nb);
              Mono wa = ma, wb = mb;
              wa.resize(n); wb.resize(n);
              Ora<F> xa{{wa, F(uint64_t(ka))}}, xb{{wb, F(uint64_t(kb))}};
              V<F> x;
              for (int j = 0; j < n; ++j) x.push_back(F(uint64_t(j + 2)));
              std::vector<V<F>> pts{x};
              std::string msg = Q::Str(xa) + " , " + Q::Str(xb);
              Q::Is(c, pa + pb, Q::Comb(xa, xb, false), pts, {wa, wb}, n, "add", msg);
              Q::Is(c, pa - pb, Q::Comb(xa, xb, true), pts, {wa, wb}, n, "sub", msg);
              auto u = pa; u += pb;
              Q::Is(c, u, Q::Comb(xa, xb, false), pts, {wa, wb}, n, "add_in_place", msg);
              c.states(1);
            }
        });
      });
}

// ---- linear combinations and sumcheck ----
template <typename F> F Naive(const std::vector<F>& ev, const F& x) {
  // value at x of the polynomial through (j, ev[j])
  F r = F::Zero();
  for (size_t i = 0; i < ev.size(); ++i) {
    F num = ev[i], den = F::One();
    for (size_t j = 0; j < ev.size(); ++j) {
      if (j == i) continue;
      num = num * (x - F(uint64_t(j)));
      den = den * (F(uint64_t(i)) - F(uint64_t(j)));
    }
    r = r + num * *den.Inverse();
  }
  return r;
}
MC_SECTION(interpolate, 4) {
  auto all = [&](auto tag, int p, int lo, int hi) {
    using F = decltype(tag);
    F::Init();
    uint64_t i = 0;
    for (int t : kTeams) {
      Team(t);
      for (int n = lo; n <= hi; ++n)
        mc::tuples(n, p, [&](const std::vector<int>& v) {
          if (!c.mine(i++)) return;
          V<F> e = ToF<F>(v);
          for (int x = 0; x < p; ++x) {
            F fx(static_cast<uint64_t>(x));
            mc::at((S(e) + " at " + fx.ToString()).c_str());
            MC_CHECK(c, InterpolateUniPoly(e, fx) == Naive(e, fx), "value", S(e) + " at " + fx.ToString());
            c.step(1);
          }
          c.states(1);
        });
    }
  };
  all(M3(), 3, 1, 3);
  all(M5(), 5, 1, c.thorough ? 5 : 4);
  all(M7(), 7, 1, c.thorough ? 5 : 4);
  // long ones: unit vectors (interpolation is linear) and one dense vector
  M97::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int n = 1; n <= 40; ++n) {
      if (!c.mine(i++)) continue;
      for (int k = 0; k <= n; ++k) {
        V<M97> e(n, M97::Zero());
        if (k < n) e[k] = M97::One();
        else for (int j = 0; j < n; ++j) e[j] = M97(uint64_t(j * j * 7 + j + 3) % 97);
        for (int x = 0; x < 97; ++x) {
          M97 fx(static_cast<uint64_t>(x));
          mc::at("n k x", n, k, x);
          MC_CHECK(c, InterpolateUniPoly(e, fx) == Naive(e, fx), "value", S(e) + " at " + fx.ToString());
          c.step(1);
        }
      }
    }
  }
}

// A combination: list of terms (coefficient, list of table numbers).
template <typename F> struct Combo {
  int n;
  std::vector<V<F>> tables;
  std::vector<std::pair<F, std::vector<int>>> terms;
  std::string Str() const {
    std::string s = "n=" + std::to_string(n);
    for (auto& t : tables) s += " t" + S(t);
    for (auto& [f, v] : terms) { s += " +" + f.ToString(); for (int x : v) s += "*t" + std::to_string(x); }
    return s;
  }
  F At(const V<F>& x) const {
    F r = F::Zero();
    for (auto& [f, v] : terms) { F w = f; for (int t : v) w = w * Ext(tables[t], x); r = r + w; }
    return r;
  }
  // sum over the last variables of At(prefix, X, b)
  F Round(const V<F>& prefix, const F& X) const {
    F r = F::Zero();
    int rest = n - int(prefix.size()) - 1;
    for (int b = 0; b < (1 << rest); ++b) {
      V<F> x = prefix;
      x.push_back(X);
      for (int i = 0; i < rest; ++i) x.push_back((b >> i) & 1 ? F::One() : F::Zero());
      r = r + At(x);
    }
    return r;
  }
  F Sum() const {
    F r = F::Zero();
    for (int b = 0; b < (1 << n); ++b) {
      V<F> x;
      for (int i = 0; i < n; ++i) x.push_back((b >> i) & 1 ? F::One() : F::Zero());
      r = r + At(x);
    }
    return r;
  }
  size_t Max() const { size_t m = 0; for (auto& t : terms) m = std::max(m, t.second.size()); return m; }
};
template <typename F> using LC = LinearCombination<ME<F>>;
template <typename F> using LCV = LinearCombination<MV<F>>;

template <typename LCT, typename MLE, typename F> void Fill(LCT& lc, const Combo<F>& k) {
  std::vector<std::shared_ptr<MLE>> ts;
  for (auto& t : k.tables) ts.push_back(std::make_shared<MLE>(MLE(MV<F>(t))));
  for (auto& [f, v] : k.terms) {
    std::vector<std::shared_ptr<MLE>> es;
    for (int x : v) es.push_back(ts[x]);
    lc.AddTerm(f, es);
  }
}
constexpr size_t kDeg = 5;
template <typename F> using Ver = SumcheckVerifier<MV<F>>;
template <typename F> using Pro = SumcheckProver<MV<F>, kDeg>;
template <typename F> using PMsg = SumcheckProverMsg<F, kDeg>;

// Makes the verifier draw exactly `want`: repeats the round from a copy.
template <typename F> SumcheckVerifierMsg<F> Draw(Ver<F>& v, const PMsg<F>& m, const F& want) {
  Ver<F> saved = v;
  for (;;) {
    auto r = v.Round(PMsg<F>(m));
    if (r.random_value == want) return r;
    v = saved;
  }
}

// Reference verifier.
template <typename F> bool RefVerify(const std::vector<V<F>>& msgs, const V<F>& ch, F claim, F* out) {
  for (size_t i = 0; i < msgs.size(); ++i) {
    F p1 = msgs[i].size() > 1 ? msgs[i][1] : msgs[i][0];
    if (msgs[i][0] + p1 != claim) return false;
    claim = Naive(msgs[i], ch[i]);
  }
  *out = claim;
  return true;
}
// Feeds the messages with the given challenges to a fresh verifier.
template <typename F>
void Feed(mc::Ctx& c, const Combo<F>& k, const std::vector<V<F>>& msgs, const V<F>& ch, const F& claim,
          const char* key, bool* accepts) {
  SumcheckVerifyingKey vk{k.Max(), size_t(k.n)};
  Ver<F> v(vk);
  for (int i = 0; i < k.n; ++i) Draw<F>(v, PMsg<F>{UnivariateEvaluations<F, kDeg>(msgs[i])}, ch[i]);
  Subclaim<F> sub;
  F want = F::Zero();
  bool ref = RefVerify(msgs, ch, claim, &want);
  bool got = v.CheckAndGenerateSubclaim(claim, &sub);
  std::string m = k.Str() + " ch " + S(ch) + " claim " + claim.ToString();
  for (auto& x : msgs) m += " m" + S(x);
  MC_CHECK(c, got == ref, std::string(key) + "_verdict", m);
  if (got && ref) {
    MC_CHECK(c, sub.point == ch, std::string(key) + "_point", m);
    MC_CHECK(c, sub.expected_evaluation == want, std::string(key) + "_subclaim", m);
  }
  *accepts = ref && want == k.At(ch);
  c.step(1);
}
// Runs every challenge history; with `alter`, every single altered message.
template <typename F> void Sumcheck(mc::Ctx& c, const Combo<F>& k, int p, bool alter) {
  LCV<F> lc(k.n);
  Fill<LCV<F>, MV<F>>(lc, k);
  mc::at(k.Str().c_str());
  F sum = k.Sum();
  MC_CHECK(c, lc.Combine() == sum, "combine", k.Str());
  auto pk = SumcheckProvingKey<MV<F>>::Build(lc);
  auto vk = SumcheckVerifyingKey::Build(lc);
  MC_CHECK(c, vk.num_variables == size_t(k.n) && vk.max_evaluations == k.Max() && pk.verifying_key == vk, "keys", k.Str());
  std::vector<uint64_t> good(k.n * 64, 0), total(k.n * 64, 0);
  mc::tuples(k.n, p, [&](const std::vector<int>& chi) {
    V<F> ch = ToF<F>(chi);
    std::string m = k.Str() + " ch " + S(ch);
    mc::at(m.c_str());
    MC_CHECK(c, lc.Evaluate(ch) == k.At(ch), "evaluate", m);
    Pro<F> pr(pk);
    std::vector<V<F>> msgs;
    V<F> prefix;
    for (int i = 0; i < k.n; ++i) {
      PMsg<F> msg = i == 0 ? pr.Round() : pr.Round({ch[i - 1]});
      if (i) prefix.push_back(ch[i - 1]);
      V<F> want;
      for (size_t j = 0; j <= k.Max(); ++j) want.push_back(k.Round(prefix, F(uint64_t(j))));
      MC_CHECK(c, msg.evaluations.evaluations() == want, "prover_msg", m + " round " + std::to_string(i) + " got " + S(msg.evaluations.evaluations()));
      msgs.push_back(want);
      c.step(1);
    }
    bool acc = false;
    Feed<F>(c, k, msgs, ch, sum, "honest", &acc);
    MC_CHECK(c, acc, "honest_accept", m);
    for (int d = 1; d < p; ++d) {
      bool a = false;
      Feed<F>(c, k, msgs, ch, sum + F(uint64_t(d)), "wrong_sum", &a);
      MC_CHECK(c, !a, "wrong_sum_accept", m);
    }
    c.trace(1); if (c.want_sample()) c.sample(m);
    if (!alter) return;
    for (int i = 0; i < k.n; ++i)
      for (size_t j = 0; j <= k.Max(); ++j)
        for (int d = 1; d < p; ++d) {
          auto bad = msgs;
          bad[i][j] = bad[i][j] + F(uint64_t(d));
          bool a = false;
          Feed<F>(c, k, bad, ch, sum, "altered", &a);
          // what follows the altered message is recomputed by an adaptive
          // prover: shift the later rounds so that their sums agree.
          good[i * 64 + j] += a;
          total[i * 64 + j]++;
        }
  });
  for (size_t i = 0; i < good.size(); ++i)
    MC_CHECK(c, good[i] * p <= total[i] * k.Max(), "soundness_count", k.Str());
  c.states(1);
}
template <typename F> void Small(mc::Ctx& c, int p, int n, int step, bool alter) {
  // one and two tables with all (every step-th) values, all term shapes
  F::Init();
  std::vector<std::vector<std::vector<int>>> shapes = {{{0}}, {{0, 0}}, {{0}, {0, 0}}, {{0, 1}}, {{0}, {1}}, {{0, 1}, {1}}, {{1, 0, 1}, {0}}};
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (auto& sh : shapes) {
      bool two = false;
      for (auto& s : sh) for (int x : s) two = two || x == 1;
      size_t len = size_t{1} << n;
      size_t deg = 0;
      for (auto& s : sh) deg = std::max(deg, s.size());
      if (int(deg) >= p) continue;
      uint64_t cnt = 0;
      mc::tuples((two ? 2 : 1) * len, p, [&](const std::vector<int>& v) {
        if (cnt++ % step != 0) return;
        if (!c.mine(i++)) return;
        Combo<F> k;
        k.n = n;
        V<F> f = ToF<F>(v);
        k.tables.push_back(V<F>(f.begin(), f.begin() + len));
        if (two) k.tables.push_back(V<F>(f.begin() + len, f.end()));
        int q = 2;
        for (auto& s : sh) k.terms.push_back({F(uint64_t(q++)), s});
        Sumcheck<F>(c, k, p, alter);
      });
    }
  }
}
#if defined(TACHYON_HAS_OPENMP)
constexpr int kThin = 37;
#else
constexpr int kThin = 1;
#endif
MC_SECTION(sumcheck_m5_n1, 8) { Small<M5>(c, 5, 1, kThin, true); }
MC_SECTION(sumcheck_m7_n1, 8) { Small<M7>(c, 7, 1, (c.thorough ? 1 : 5) * kThin, true); }
MC_SECTION(sumcheck_m5_n2, 8) { Small<M5>(c, 5, 2, (c.thorough ? 7 : 397) * kThin, true); }
MC_SECTION(sumcheck_m5_n3, 8) {
  M5::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int a = 0; a < (c.thorough ? 200 : 24); ++a) {
      if (!c.mine(i++)) continue;
      Combo<M5> k;
      k.n = 3;
      for (int q = 0; q < 3; ++q) {
        V<M5> tb;
        for (int j = 0; j < 8; ++j) tb.push_back(M5(uint64_t((a * 7 + q * q * 3 + j * j * (a + 1) + j * q) % 5)));
        k.tables.push_back(tb);
      }
      k.terms = {{M5(3u), {0, 1, 2}}, {M5(4u), {1, 1}}, {M5(1u), {2}}};
      Sumcheck<M5>(c, k, 5, false);
    }
  }
}
MC_SECTION(sumcheck_long, 4) {
  // n to 5 and M97: one path per seed point; chunked loops
  using F = M97;
  F::Init();
  uint64_t i = 0;
  for (int t : kTeams) {
    Team(t);
    for (int n = 1; n <= 5; ++n)
      for (int a = 0; a < 6; ++a) {
        if (!c.mine(i++)) continue;
        Combo<F> k;
        k.n = n;
        for (int q = 0; q < 3; ++q) {
          V<F> tb;
          for (int j = 0; j < (1 << n); ++j) tb.push_back(F(uint64_t((a * 7 + q * q * 3 + j * j * (a + 1) + j * q) % 97)));
          k.tables.push_back(tb);
        }
        k.terms = {{F(3u), {0, 1, 2}}, {F(4u), {1, 1}}, {F(1u), {2}}, {F(96u), {0, 0, 1, 2, 2}}, {F(5u), {2, 1}}};
        LCV<F> lc(n);
        Fill<LCV<F>, MV<F>>(lc, k);
        MC_CHECK(c, lc.Combine() == k.Sum(), "combine", k.Str());
        V<F> ch;
        for (int j = 0; j < n; ++j) ch.push_back(F(uint64_t(a * 13 + j * 29 + 4) % 97));
        MC_CHECK(c, lc.Evaluate(ch) == k.At(ch), "evaluate", k.Str());
        auto pk = SumcheckProvingKey<MV<F>>::Build(lc);
        Pro<F> pr{SumcheckProvingKey<MV<F>>(pk)};
        V<F> prefix;
        for (int r = 0; r < n; ++r) {
          PMsg<F> msg = r == 0 ? pr.Round() : pr.Round({ch[r - 1]});
          if (r) prefix.push_back(ch[r - 1]);
          for (size_t j = 0; j <= k.Max(); ++j)
            MC_CHECK(c, msg.evaluations[j] == k.Round(prefix, F(uint64_t(j))), "prover_msg", k.Str());
          c.step(1);
        }
        MC_CHECK(c, MultilinearSumcheck<MV<F>>::template RunInteractiveProtocol<kDeg>(lc, n), "protocol", k.Str());
        c.states(1);
      }
  }
}
MC_SECTION(sumcheck_edge, 1) {
  using F = M17;
  F::Init();
  Team(kTeams[0]);
  // No terms: the zero polynomial.
  for (int n = 1; n <= 3; ++n) {
    Combo<F> k;
    k.n = n;
    LCV<F> lc(n);
    MC_CHECK(c, lc.Combine() == F::Zero(), "combine_empty", k.Str());
    lc.AddTerm(F(3u), {});
    MC_CHECK(c, lc.Combine() == F::Zero() && lc.Evaluate(V<F>(n, F(3u))) == F::Zero(), "empty_term", k.Str());
    mc::at("protocol on the zero polynomial, n", n);
    MC_CHECK(c, MultilinearSumcheck<MV<F>>::template RunInteractiveProtocol<kDeg>(lc, n), "protocol_empty", k.Str());
    c.states(1);
  }
  // Keys are compared by value.
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b)
      for (int d = 0; d < 2; ++d)
        for (int e = 0; e < 2; ++e) {
          auto mk = [&](int tv, int co) {
            LCV<F> lc(1);
            Combo<F> k;
            k.n = 1;
            k.tables = {V<F>{F(1u), F(uint64_t(tv))}};
            k.terms = {{F(uint64_t(co + 1)), {0}}};
            Fill<LCV<F>, MV<F>>(lc, k);
            return SumcheckProvingKey<MV<F>>::Build(lc);
          };
          auto x = mk(a, d), y = mk(b, e);
          bool same = a == b && d == e;
          MC_CHECK(c, (x == y) == same && (x != y) == !same, "key_eq", std::to_string(a) + std::to_string(b) + std::to_string(d) + std::to_string(e));
          c.step(1);
        }
}
}  // namespace
