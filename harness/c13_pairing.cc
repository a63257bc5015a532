// C13: pairings. The generators and templates of the library are instantiated
// with pairing-friendly curves so small that every pair of points is visited,
// and with the curves of the library.
#include "mc/mccurve.h"
#include "mc/pair/bls4d.h"
#include "mc/pair/bls4m.h"
#include "mc/pair/blsm2d.h"
#include "mc/pair/blsm2m.h"
#include "mc/pair/bn1d.h"
#include "mc/pair/bn1m.h"
#include "mc/pair/bnm1d.h"
#include "mc/pair/bnm1m.h"
#include "absl/types/span.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace mccurve;
#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif

template <typename F> mpz_class Modulus() {
  if constexpr (std::is_integral_v<std::remove_cv_t<decltype(F::Config::kModulus)>>) return mpz_class(static_cast<unsigned long>(F::Config::kModulus));
  else { mpz_class r; auto& b = F::Config::kModulus; mpz_import(r.get_mpz_t(), std::size(b.limbs), -1, 8, 0, 0, b.limbs); return r; }
}
template <typename F> F Pow(const F& b, const mpz_class& e) {
  F r = F::One();
  for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) { r = r * r; if (mpz_tstbit(e.get_mpz_t(), i)) r = r * b; }
  return r;
}
template <typename C> struct Is12 { constexpr static bool bn = false; };
template <typename Cfg> struct Is12<BNCurve<Cfg>> { constexpr static bool bn = true; };

template <typename Curve> struct Ref {
  using Cf = typename Curve::Config;
  using G1 = typename Curve::G1Curve; using G2 = typename Curve::G2Curve;
  using Fq = typename G1::BaseField; using Fq2 = typename G2::BaseField; using Fq12 = typename Curve::Fp12;
  using Fq6 = typename Fq12::BaseField;
  using A1 = typename G1::AffinePoint; using A2 = typename G2::AffinePoint;
  using Prep = typename Curve::G2Prepared;
  static constexpr bool kBN = Is12<Curve>::bn;
  mpz_class q, r, x, exp;
  Fq12 w, wi;
  Ref() {
    Curve::Init();
    q = Modulus<Fq>(); r = Modulus<typename G1::ScalarField>();
    mpz_import(x.get_mpz_t(), std::size(Cf::kX.limbs), -1, 8, 0, 0, Cf::kX.limbs);
    if (Cf::kXIsNegative) x = -x;
    mpz_class n = 1; for (int i = 0; i < 12; ++i) n *= q;
    n -= 1;
    mpz_class m = kBN ? mpz_class(2 * x * (6 * x * x + 3 * x + 1)) : mpz_class(3);
    exp = n / r * m; mpz_mod(exp.get_mpz_t(), exp.get_mpz_t(), n.get_mpz_t());
    w = Fq12(Fq6::Zero(), Fq6::One()); wi = *w.Inverse();
  }
  static Fq12 Up(const Fq2& a) { return Fq12(Fq6(a, Fq2::Zero(), Fq2::Zero()), Fq6::Zero()); }
  static Fq12 Up1(const Fq& a) { return Up(Fq2(a, Fq::Zero())); }
  // (T, line through T and Q at P) over Fq12, affine
  static Fq12 Line(Pt<Fq12>& t, const Pt<Fq12>& s, const Pt<Fq12>& p) {
    Fq12 l;
    if (t.x == s.x) { if (t.y != s.y) { Fq12 v = p.x - t.x; t = Pt<Fq12>(); return v; } Fq12 u = t.x * t.x; l = (u + u + u) * *(t.y + t.y).Inverse(); }
    else l = (s.y - t.y) * *(s.x - t.x).Inverse();
    Fq12 v = p.y - t.y - l * (p.x - t.x);
    Fq12 nx = l * l - t.x - s.x; Fq12 ny = l * (t.x - nx) - t.y; t = {nx, ny, false};
    return v;
  }
  // Textbook ate pairing raised to the library's multiple of (q^12-1)/r.
  Fq12 Ate(const A1& a, const A2& b) const {
    Pt<Fq12> p{Up1(a.x()), Up1(a.y()), false}, Q{Up(b.x()), Up(b.y()), false};
    const Fq12& s = Cf::kTwistType == TwistType::kD ? w : wi;
    Q.x = Q.x * s * s; Q.y = Q.y * s * s * s;
    mpz_class n = kBN ? mpz_class(6 * x + 2) : x;
    bool neg = n < 0; if (neg) n = -n;
    Fq12 f = Fq12::One(); Pt<Fq12> t = Q;
    for (size_t i = mpz_sizeinbase(n.get_mpz_t(), 2) - 1; i-- > 0;) {
      Pt<Fq12> u = t; f = f * f * Line(t, u, p);
      if (mpz_tstbit(n.get_mpz_t(), i)) f = f * Line(t, Q, p);
    }
    if (neg) { f = *f.Inverse(); t.y = Fq12::Zero() - t.y; }
    if (kBN) {
      Pt<Fq12> q1{Pow(Q.x, q), Pow(Q.y, q), false}, q2{Pow(q1.x, q), Pow(q1.y, q), false};
      q2.y = Fq12::Zero() - q2.y;
      f = f * Line(t, q1, p); f = f * Line(t, q2, p);
    }
    return Pow(f, exp);
  }
  static A1 P1(const Pt<Fq>& p) { return p.inf ? A1::Zero() : A1(p.x, p.y); }
  static A2 P2(const Pt<Fq2>& p) { return p.inf ? A2::Zero() : A2(p.x, p.y); }
};

template <typename Curve> struct World : Ref<Curve> {
  using R = Ref<Curve>;
  using typename R::Fq; using typename R::Fq2; using typename R::Fq12; using typename R::A1; using typename R::A2; using typename R::Prep;
  std::vector<A1> p; std::vector<A2> q2; std::vector<Prep> prep; std::vector<Fq12> gt; size_t n;
  World() {
    n = this->r.get_ui();
    Group<Fq> g; g.a = Fq::Zero(); g.b = R::G1::Config::kB;
    Group<Fq2> h; h.a = Fq2::Zero(); h.b = R::G2::Config::kB;
    Pt<Fq> u{R::G1::Config::kGenerator.x, R::G1::Config::kGenerator.y, false}, a;
    Pt<Fq2> v{R::G2::Config::kGenerator.x, R::G2::Config::kGenerator.y, false}, b;
    for (size_t i = 0; i < n; ++i) { p.push_back(R::P1(a)); q2.push_back(R::P2(b)); prep.push_back(Prep::From(q2.back())); a = g.add(a, u); b = h.add(b, v); }
    if (!a.inf || !b.inf) abort();
    Fq12 e = this->Ate(p[1], q2[1]), f = Fq12::One();
    for (size_t i = 0; i < n; ++i) { gt.push_back(f); f = f * e; }
  }
};
std::string At(std::initializer_list<size_t> l) { std::string s; for (auto v : l) s += " " + std::to_string(v); return s; }

template <typename Curve> void Grid(mc::Ctx& c) {
  World<Curve> w; using R = Ref<Curve>; using A1 = typename R::A1; using A2 = typename R::A2; using Prep = typename R::Prep; using F = typename R::Fq12;
  MC_CHECK(c, !w.gt[1].IsOne() && Pow(w.gt[1], w.r).IsOne(), "oracle", "pairing of the generators");
  for (size_t i = 0; i < w.n; ++i) {
    if (!c.mine(i)) continue;
    c.trace();
    for (size_t j = 0; j < w.n; ++j) {
      c.states(1); c.step(2);
      const F& want = w.gt[i * j % w.n];
      A1 a[] = {w.p[i]}; A2 b[] = {w.q2[j]}; Prep bp[] = {w.prep[j]};
      F e = Pairing<Curve>(a, b);
      MC_CHECK(c, e == want, "bilinear", "a b:" + At({i, j}) + " got " + e.ToString());
      MC_CHECK(c, Pairing<Curve>(a, bp) == want, "prepared", "a b:" + At({i, j}));
      MC_CHECK(c, e.IsOne() == (i == 0 || j == 0), "non-degenerate", "a b:" + At({i, j}));
      if (i && j && (j == 1 || i == 1 || (i + j) % 11 == 0)) MC_CHECK(c, w.Ate(a[0], b[0]) == e, "ate-value", "a b:" + At({i, j}));
    }
  }
}
// Lists: all lists of <= 2 pairs (small groups), then patterns of up to 13 pairs, for each team size.
template <typename Curve> void Lists(mc::Ctx& c) {
  World<Curve> w; using R = Ref<Curve>; using A1 = typename R::A1; using A2 = typename R::A2; using Prep = typename R::Prep; using F = typename R::Fq12;
  size_t n = 0;
  auto run = [&](const std::vector<size_t>& v, bool more) {
    size_t s = 0; std::vector<A1> a; std::vector<A2> b; std::vector<Prep> bp; std::string m;
    F prod = F::One();
    for (size_t i = 0; i + 1 < v.size(); i += 2) { s += v[i] * v[i + 1]; a.push_back(w.p[v[i]]); b.push_back(w.q2[v[i + 1]]); bp.push_back(w.prep[v[i + 1]]); m += " (" + std::to_string(v[i]) + "," + std::to_string(v[i + 1]) + ")"; }
    const F& want = w.gt[s % w.n];
    c.states(1);
    for (int t : kTeams) {
      Team(t); c.step(2);
      MC_CHECK(c, Pairing<Curve>(a, bp) == want, "list-prepared", "team " + std::to_string(t) + m);
      if (more) {
        MC_CHECK(c, Pairing<Curve>(a, b) == want, "list", "team " + std::to_string(t) + m);
        MC_CHECK(c, Pairing<Curve>(absl::MakeConstSpan(a), absl::MakeConstSpan(bp)) == want, "list-span", "team " + std::to_string(t) + m);
        F f = Curve::MultiMillerLoop(a, bp);
        MC_CHECK(c, !f.IsZero() && Pow(f, w.exp) == want, "miller", "team " + std::to_string(t) + m);
      }
    }
  };
  run({}, true);
  size_t step = w.n > 20 && !c.thorough ? (w.n > 120 ? 41 : 17) : 1;
#if defined(TACHYON_HAS_OPENMP)
  step *= 5;
#endif
  if (w.n <= 20 || c.thorough) {
    std::vector<size_t> s; for (size_t i = 0; i < w.n; i += step) s.push_back(i);
    if (w.n > 20) { s = {0, 1, 2, w.n / 2, w.n - 1}; }
    for (auto i : s) for (auto j : s) for (auto k : s) for (auto l : s) if (c.mine(n++)) run({i, j, k, l}, false);
  } else {
    for (size_t i = 0; i < w.n; i += step) for (size_t j = 1; j < w.n; j += step) for (size_t k : {size_t(0), size_t(1), w.n - 1, i}) for (size_t l : {size_t(0), size_t(1), w.n - 1, j}) if (c.mine(n++)) run({i, j, k, l}, false);
  }
  // length 0..13, every subset of identity positions for <= 6 pairs, on either side
  for (size_t len = 1; len <= 6; ++len) for (size_t z = 0; z < (1u << len); ++z) for (int side = 0; side < 3; ++side) {
    if (!c.mine(n++)) continue;
    std::vector<size_t> v;
    for (size_t i = 0; i < len; ++i) {
      bool o = z >> i & 1; size_t a = (3 * i + 2) % (w.n - 1) + 1, b = (5 * i + 1) % (w.n - 1) + 1;
      v.push_back(o && side != 1 ? 0 : a); v.push_back(o && side != 0 ? 0 : b);
    }
    c.trace(); run(v, true);
  }
  for (size_t len = 7; len <= 13; ++len) for (size_t z = 0; z <= len; ++z) {
    if (!c.mine(n++)) continue;
    std::vector<size_t> v;
    for (size_t i = 0; i < len; ++i) { v.push_back(i + 1 == z ? 0 : (3 * i + 2) % (w.n - 1) + 1); v.push_back((5 * i + 1) % (w.n - 1) + 1); }
    c.trace(); run(v, true);
  }
}
// The final exponentiation is a power map: every sparse element of Fq12.
template <typename Curve> void Final(mc::Ctx& c, int vals) {
  Ref<Curve> R; using RR = Ref<Curve>; using F = typename RR::Fq12; using Fq = typename RR::Fq; using Fq2 = typename RR::Fq2; using Fq6 = typename RR::Fq6;
  std::vector<Fq> el; Fq x = Fq::One(); for (int i = 0; i < vals; ++i) { el.push_back(x); x = x.Double() + (i % 2 ? x : Fq::One()); }
  size_t n = 0;
  for (int a = 0; a < 12; ++a) for (int b = a; b < 12; ++b) for (auto& u : el) for (auto& v : el) {
    if (!c.mine(n++)) continue;
    Fq k[12]; for (auto& t : k) t = Fq::Zero();
    k[a] = u; k[b] += v;
    F f(Fq6(Fq2(k[0], k[1]), Fq2(k[2], k[3]), Fq2(k[4], k[5])), Fq6(Fq2(k[6], k[7]), Fq2(k[8], k[9]), Fq2(k[10], k[11])));
    if (f.IsZero()) continue;
    c.states(1); c.step();
    MC_CHECK(c, Curve::FinalExponentiation(f) == Pow(f, R.exp), "final-exponentiation", f.ToString());
  }
  c.trace();
}
// Curves of the library: grids of multiples of the generators.
template <typename Curve> void Real(mc::Ctx& c) {
  Ref<Curve> R; using RR = Ref<Curve>; using A1 = typename RR::A1; using A2 = typename RR::A2; using Prep = typename RR::Prep; using F = typename RR::Fq12;
  using Fq = typename RR::Fq; using Fq2 = typename RR::Fq2;
  std::vector<mpz_class> ks = {0, 1, 2, 3, 5, R.r - 1, R.r - 2, R.r / 2, abs(R.x), mpz_class(1) << 64, mpz_class(1) << 128, R.q % R.r};
  if (c.thorough) for (int i = 4; i < 250; i += 10) ks.push_back((mpz_class(1) << i) + i);
  Group<Fq> g; g.a = Fq::Zero(); g.b = RR::G1::Config::kB;
  Group<Fq2> h; h.a = Fq2::Zero(); h.b = RR::G2::Config::kB;
  auto mul = [](auto& gr, auto pt, const mpz_class& k) { decltype(pt) r; for (size_t i = mpz_sizeinbase(k.get_mpz_t(), 2); i-- > 0;) { r = gr.add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = gr.add(r, pt); } return r; };
  std::vector<A1> p; std::vector<A2> q; std::vector<Prep> prep;
  for (auto& k : ks) {
    p.push_back(RR::P1(mul(g, Pt<Fq>{RR::G1::Config::kGenerator.x, RR::G1::Config::kGenerator.y, false}, k)));
    q.push_back(RR::P2(mul(h, Pt<Fq2>{RR::G2::Config::kGenerator.x, RR::G2::Config::kGenerator.y, false}, k)));
    prep.push_back(Prep::From(q.back()));
  }
  F e = R.Ate(p[1], q[1]);
  MC_CHECK(c, !e.IsOne() && Pow(e, R.r).IsOne(), "oracle", "pairing of the generators");
  size_t n = 0;
  for (size_t i = 0; i < ks.size(); ++i) for (size_t j = 0; j < ks.size(); ++j) {
    if (!c.mine(n++)) continue;
    c.trace(); c.states(1); c.step(2);
    F want = Pow(e, mpz_class(ks[i] * ks[j] % R.r));
    A1 a[] = {p[i]}; A2 b[] = {q[j]}; Prep bp[] = {prep[j]};
    MC_CHECK(c, Pairing<Curve>(a, b) == want, "bilinear", ks[i].get_str() + " " + ks[j].get_str());
    MC_CHECK(c, Pairing<Curve>(a, bp) == want, "prepared", ks[i].get_str() + " " + ks[j].get_str());
    if (i && j && i == j) MC_CHECK(c, R.Ate(p[i], q[j]) == want, "ate-value", ks[i].get_str() + " " + ks[j].get_str());
  }
  for (size_t len = 0; len <= 10; ++len) for (size_t z = 0; z <= len; ++z) {
    if (!c.mine(n++)) continue;
    std::vector<A1> a; std::vector<A2> b; std::vector<Prep> bp; mpz_class s = 0;
    for (size_t i = 0; i < len; ++i) {
      size_t u = i + 1 == z ? 0 : 1 + (i * 3) % (ks.size() - 1), v = i + 2 == z ? 0 : 1 + (i * 5) % (ks.size() - 1);
      s += ks[u] * ks[v]; a.push_back(p[u]); b.push_back(q[v]); bp.push_back(prep[v]);
    }
    F want = Pow(e, mpz_class(s % R.r));
    c.trace(); c.states(1);
    for (int t : kTeams) {
      Team(t); c.step(2);
      MC_CHECK(c, Pairing<Curve>(a, bp) == want, "list-prepared", "team " + std::to_string(t) + At({len, z}));
      MC_CHECK(c, Pairing<Curve>(a, b) == want, "list", "team " + std::to_string(t) + At({len, z}));
    }
  }
}
#if defined(TACHYON_HAS_OPENMP)
#define SMALL(N) MC_SECTION(lists_##N, 2) { Lists<mcp::N::SmallCurve>(c); }
#else
#define SMALL(N) \
  MC_SECTION(grid_##N, 4) { Grid<mcp::N::SmallCurve>(c); } \
  MC_SECTION(lists_##N, 4) { Lists<mcp::N::SmallCurve>(c); } \
  MC_SECTION(final_##N, 2) { Final<mcp::N::SmallCurve>(c, 8); }
MC_SECTION(final_bn254, 4) { Final<bn254::BN254Curve>(c, 1); }
MC_SECTION(final_bls12_381, 4) { Final<bls12_381::BLS12_381Curve>(c, 1); }
#endif
SMALL(bn1d) SMALL(bn1m) SMALL(bnm1d) SMALL(bnm1m) SMALL(blsm2d) SMALL(blsm2m) SMALL(bls4d) SMALL(bls4m)
MC_SECTION(bn254, 4) { Real<bn254::BN254Curve>(c); }
MC_SECTION(bls12_381, 4) { Real<bls12_381::BLS12_381Curve>(c); }
}  // namespace
