// C11: point decompression, on-curve validation, endomorphisms, circle groups.
#include <gmpxx.h>
#include "tachyon/math/circle/affine_point.h"
#include "tachyon/math/circle/circle.h"
#include "tachyon/math/circle/m31/g1.h"
#include "tachyon/math/circle/m31/g4.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m41.h"
#include "mc/fields/m7.h"
#include "mc/fields/m97.h"
#include "mc/fields/p103.h"
#include "mc/fields/p31.h"
#include "mc/fields/p7.h"
#include "mc/mc.h"
#include "mc/mccurve.h"
using namespace tachyon::math;
using namespace mccurve;
namespace {
template <typename F, bool AZ> using Crv = SWCurve<Cfg<F, F, AZ>>;

template <typename F, bool AZ> struct Small {
  using C = Crv<F, AZ>;
  using A = AffinePoint<C>; using P = ProjectivePoint<C>; using J = JacobianPoint<C>; using X = PointXYZZ<C>;
  mc::Ctx& c; uint64_t p; std::vector<F> el; Group<F> g; std::string cv;
    uint64_t Num(const F& f) { for (uint64_t i = 0; i < p; ++i) if (el[i] == f) return i; return p; }
  template <typename T> void FromX(uint64_t x, bool odd, const std::vector<uint64_t>& ys) {
    mc::at("from_x", x, odd); c.step();
    T pt = T::Zero(); bool got = C::GetPointFromX(el[x], odd, &pt); auto o = T::CreateFromX(el[x], odd);
    std::string w = cv + " x=" + std::to_string(x) + (odd ? " odd" : " even");
    MC_CHECK(c, got == !ys.empty() && o.has_value() == got, "from_x_exists", w);
    if (!got || ys.empty()) return;
    uint64_t y = ys[0]; for (auto v : ys) if ((v & 1) == odd) y = v;
    Pt<F> want{el[x], el[y], false};
    MC_CHECK(c, Is(pt, want) && Is(*o, want), "from_x_point", w + " gives " + pt.ToString());
  }
  void Run(bool coords, bool xyzz, bool die) {
    for (uint64_t x = 0; x < p; ++x) {
      std::vector<uint64_t> ys; for (uint64_t y = 0; y < p; ++y) if (g.on(el[x], el[y])) ys.push_back(y);
      c.states(1); F e = F::One(), o = F::One(); bool ok = C::GetYsFromX(el[x], &e, &o);
      MC_CHECK(c, ok == !ys.empty(), "ys_exist", cv + " x=" + std::to_string(x));
      if (ok && !ys.empty()) {
        uint64_t a = Num(e), b = Num(o);
        MC_CHECK(c, a == ys[0] + (ys.size() == 2 && ys[0] % 2 ? ys[1] - ys[0] : 0) && a + b == (a ? p : 0), "ys", cv + " x=" + std::to_string(x) + " even=" + std::to_string(a) + " odd=" + std::to_string(b));
      }
      for (bool odd : {false, true}) { FromX<A>(x, odd, ys); FromX<P>(x, odd, ys); FromX<J>(x, odd, ys); FromX<X>(x, odd, ys); }
      for (uint64_t y = 0; y < p; ++y) {
        A a(el[x], el[y]); bool want = g.on(el[x], el[y]); c.states(1); c.step();
        MC_CHECK(c, a.IsOnCurve() == want && C::IsOnCurve(a) == want, "on_curve_affine", cv + " " + a.ToString());
        if (die) { bool d = mc::dies([&] { (void)A::CreateChecked(el[x], el[y]); }); MC_CHECK(c, d == !want, "create_checked", cv + " " + a.ToString()); }
        if (!coords) continue;
        for (uint64_t z = 0; z < p; ++z) {
          F zz = el[z]; P q(el[x], el[y], zz); J j(el[x], el[y], zz); c.states(2); c.step(2);
          bool wq = z && g.on(Read(q).x, Read(q).y), wj = z && g.on(Read(j).x, Read(j).y);
          MC_CHECK(c, q.IsOnCurve() == wq, "on_curve_projective", cv + " " + q.ToString());
          MC_CHECK(c, j.IsOnCurve() == wj, "on_curve_jacobian", cv + " " + j.ToString());
          if (!xyzz) continue;
          for (uint64_t u = 0; u < p; ++u) {
            X t(el[x], el[y], zz, el[u]); c.states(1); c.step();
            auto r = Read(t); bool wx = z && u && zz * zz * zz == el[u] * el[u] && g.on(r.x, r.y);
            MC_CHECK(c, t.IsOnCurve() == wx, "on_curve_xyzz", cv + " " + t.ToString());
          }
        }
      }
    }
  }
  // a = 0, p = 1 mod 3: (x, y) -> (beta x, y) is an endomorphism of the group.
  template <typename T> void Endo(const F& beta) {
    Cfg<F, F, AZ>::kEndomorphismCoefficient = beta;
    for (auto& pt : g.pts) for (auto& r : Reps<T>(pt, el2)) {
      Pt<F> w = pt; if (!w.inf) w.x = beta * w.x; c.states(1); c.step();
      MC_CHECK(c, Is(T::Endomorphism(r), w), "endomorphism", cv + " beta=" + beta.ToString() + " P=" + r.ToString());
    }
  }
  std::vector<F> el2;
};
template <typename F, bool AZ> void Curves(mc::Ctx& c, uint64_t p, bool coords, uint64_t die) {
  using K = Cfg<F, F, AZ>; F::Init(); auto el = Elements<F>(p); uint64_t n = 0;
  for (uint64_t a = 0; a < (AZ ? 1 : p); ++a) for (uint64_t b = 1; b < p; ++b) {
    if (Singular(el[a], el[b])) continue;
    if (!c.mine(n++)) continue;
    K::kA = el[a]; K::kB = el[b]; c.trace();
    auto g = Make<F>(el[a], el[b], el);
    std::vector<F> nz(el.begin() + 1, el.end());
    Small<F, AZ> s{c, p, el, g, "a=" + std::to_string(a) + " b=" + std::to_string(b) + " p=" + std::to_string(p), nz};
    s.Run(coords, coords && p <= 13 && (p <= 7 || b < 3), die && n % die == 1);
    if constexpr (AZ) for (uint64_t t = 2; t < p; ++t) if (t * t % p * t % p == 1) {
      s.template Endo<AffinePoint<Crv<F, AZ>>>(el[t]); s.template Endo<ProjectivePoint<Crv<F, AZ>>>(el[t]);
      s.template Endo<JacobianPoint<Crv<F, AZ>>>(el[t]); s.template Endo<PointXYZZ<Crv<F, AZ>>>(el[t]);
    }
  }
}
// --- circle groups ---
struct Idx { uint32_t v; uint32_t value() const { return v; } static Idx Random() { return {1}; } static void Init() {} };
template <typename B> struct CC { using BaseField = B; using BasePrimeField = B; using ScalarField = Idx; inline static Point2<B> kGenerator; static void Init() {} };
template <typename B> void SmallCircle(mc::Ctx& c, uint64_t p, bool die) {
  using K = Circle<CC<B>>; using A = typename K::AffinePoint;
  B::Init(); auto el = Elements<B>(p); std::map<std::string, uint64_t> id; for (uint64_t i = 0; i < p; ++i) id[el[i].ToString()] = i;
  using I = std::pair<int64_t, int64_t>; std::vector<I> pts; int64_t q = p;
  auto m = [&](int64_t v) { return ((v % q) + q) % q; };
  auto mk = [&](I i) { return A(el[i.first], el[i.second]); };
  auto rd = [&](const A& a) { return I{(int64_t)id.at(a.x().ToString()), (int64_t)id.at(a.y().ToString())}; };
  auto add = [&](I a, I b) { return I{m(a.first * b.first - a.second * b.second), m(a.first * b.second + a.second * b.first)}; };
  auto neg = [&](I a) { return I{a.first, m(-a.second)}; };
  for (int64_t x = 0; x < q; ++x) for (int64_t y = 0; y < q; ++y) {
    bool on = m(x * x + y * y) == 1; c.states(1); c.step(); A a = mk({x, y});
    MC_CHECK(c, K::IsOnCircle(a) == on && a.IsOnCircle() == on, "on_circle", a.ToString());
    if (die) { bool d = mc::dies([&] { (void)A::CreateChecked(el[x], el[y]); }); MC_CHECK(c, d == !on, "circle_create_checked", a.ToString()); }
    if (on) pts.push_back({x, y});
  }
  MC_CHECK(c, A::Zero().IsZero() && rd(A::Zero()) == (I{1, 0}), "circle_zero", "Zero()");
  CC<B>::kGenerator = Point2<B>(el[pts.back().first], el[pts.back().second]);
  MC_CHECK(c, rd(A::Generator()) == pts.back() && rd(A::One()) == pts.back(), "circle_generator", "Generator()");
  for (I a : pts) {
    A u = mk(a), v = u; c.states(1); c.trace(); std::string w = u.ToString();
    MC_CHECK(c, u.IsZero() == (a == I{1, 0}), "circle_is_zero", w);
    MC_CHECK(c, rd(-u) == neg(a) && rd(u.Conjugate()) == neg(a) && rd(v.NegateInPlace()) == neg(a), "circle_negate", w);
    MC_CHECK(c, rd(u.Antipode()) == (I{m(-a.first), m(-a.second)}), "circle_antipode", w);
    v = u; MC_CHECK(c, rd(u.Double()) == add(a, a) && rd(v.DoubleInPlace()) == add(a, a), "circle_double", w);
    v = u; MC_CHECK(c, rd(v += v) == add(a, a), "circle_add_self", w);
    v = u; MC_CHECK(c, rd(v -= v) == (I{1, 0}), "circle_sub_self", w);
    I acc{1, 0};
    for (uint32_t k = 0; k <= 2 * p + 3; ++k, acc = add(acc, a)) { c.step(); MC_CHECK(c, rd(u * Idx{k}) == acc && rd(u.ScalarMul(k)) == acc, "circle_mul", std::to_string(k) + " * " + w); }
    for (I b : pts) {
      A t = mk(b); c.states(1); c.step(4); std::string ww = w + " , " + t.ToString();
      MC_CHECK(c, rd(u + t) == add(a, b), "circle_add", ww); v = u; MC_CHECK(c, rd(v += t) == add(a, b), "circle_add_in_place", ww);
      MC_CHECK(c, rd(u - t) == add(a, neg(b)), "circle_sub", ww); v = u; MC_CHECK(c, rd(v -= t) == add(a, neg(b)), "circle_sub_in_place", ww);
      MC_CHECK(c, (u == t) == (a == b) && (u != t) == (a != b), "circle_eq", ww);
    }
  }
}
uint64_t Grid(int i) { static const uint64_t v[] = {0, 1, 2, 3, 4, 5, 7, 8, 255, 65535, 65536, 1431655765, 715827882, 1073741823, 1073741824, 1073741825, 2147483646, 2147483647}; return v[i]; }
}  // namespace
MC_SECTION(m7, 1) { Curves<mcf::M7, false>(c, 7, true, 5); Curves<mcf::M7, true>(c, 7, true, 1); }
MC_SECTION(p7, 1) { Curves<mcf::P7, false>(c, 7, true, 0); Curves<mcf::P7, true>(c, 7, true, 0); }
MC_SECTION(m13, 2) { Curves<mcf::M13, false>(c, 13, true, 0); Curves<mcf::M13, true>(c, 13, true, 0); }
MC_SECTION(m17, 2) { Curves<mcf::M17, false>(c, 17, true, 0); }
MC_SECTION(p31, 2) { Curves<mcf::P31, false>(c, 31, c.thorough, 0); Curves<mcf::P31, true>(c, 31, true, 0); }
MC_SECTION(m41, 4) { Curves<mcf::M41, false>(c, 41, c.thorough, 0); }
MC_SECTION(m97, 1) { Curves<mcf::M97, true>(c, 97, c.thorough, 0); if (c.thorough) Curves<mcf::M97, false>(c, 97, false, 0); }
MC_SECTION(p103, 1) { Curves<mcf::P103, true>(c, 103, c.thorough, 0); if (c.thorough) Curves<mcf::P103, false>(c, 103, false, 0); }

MC_SECTION(circle_small, 1) { SmallCircle<mcf::P7>(c, 7, true); SmallCircle<mcf::P31>(c, 31, false); SmallCircle<mcf::P103>(c, 103, false); SmallCircle<mcf::M7>(c, 7, false); SmallCircle<mcf::M13>(c, 13, false); SmallCircle<mcf::M97>(c, 97, false); }
MC_SECTION(circle_m31, 1) {
  using A = m31::G1AffinePoint; A::Circle::Init(); constexpr uint64_t N = uint64_t{1} << 31; constexpr int64_t q = N - 1;
  using I = std::pair<int64_t, int64_t>;
  auto add = [&](I a, I b) { auto m = [&](__int128 v) { return (int64_t)(((v % q) + q) % q); }; return I{m((__int128)a.first * b.first - (__int128)a.second * b.second), m((__int128)a.first * b.second + (__int128)a.second * b.first)}; };
  auto mul = [&](uint64_t k, I a) { I r{1, 0}; for (; k; k >>= 1, a = add(a, a)) if (k & 1) r = add(r, a); return r; };
  auto rd = [&](const A& a) { return I{a.x().value(), a.y().value()}; };
  A g = A::Generator(); I gi = rd(g);
  MC_CHECK(c, g.IsOnCircle() && mul(N, gi) == (I{1, 0}) && mul(N / 2, gi) != (I{1, 0}), "g1_order", "the generator has order 2^31");
  for (int i = 0; i < 18; ++i) {
    m31::Fr k(Grid(i)); c.trace(); MC_CHECK(c, k.value() == Grid(i), "fr_value", k.ToString());
    MC_CHECK(c, rd(g * k) == mul(Grid(i), gi) && rd(k * g) == mul(Grid(i), gi), "g1_mul", k.ToString());
    A pt = g * k;
    MC_CHECK(c, rd(pt.Double()) == mul(2 * Grid(i), gi) && rd(pt.Antipode()) == mul(Grid(i) + N / 2, gi), "g1_double", k.ToString());
    for (int j = 0; j < 18; ++j) {
      m31::Fr l(Grid(j)); c.states(1); c.step(5); std::string w = k.ToString() + " , " + l.ToString();
      MC_CHECK(c, rd(pt + g * l) == mul((Grid(i) + Grid(j)) % N, gi), "g1_add", w);
      MC_CHECK(c, rd(pt - g * l) == mul((N + Grid(i) - Grid(j)) % N, gi), "g1_sub", w);
      MC_CHECK(c, (k + l).value() == (Grid(i) + Grid(j)) % N, "fr_add", w);
      MC_CHECK(c, (k - l).value() == (N + Grid(i) - Grid(j)) % N, "fr_sub", w);
      MC_CHECK(c, (k * l).value() == Grid(i) * Grid(j) % N, "fr_mul", w);
    }
  }
  // degree-four circle: the law and scalar multiplication
  using B = m31::G4AffinePoint; B::Circle::Init(); B h = B::Generator();
  mpz_class n("21267647892944572736998860269687930880");
  auto bm = [&](mpz_class k, B a) { B r = B::Zero(); for (; k != 0; k >>= 1, a = a + a) if (mpz_odd_p(k.get_mpz_t())) r = r + a; return r; };
  MC_CHECK(c, h.IsOnCircle() && bm(n, h).IsZero(), "g4_order", "order divides p^4-1");
  for (int f : {2, 3, 5, 7, 11}) if (n % f == 0) MC_CHECK(c, !bm(n / f, h).IsZero(), "g4_order", "order divides n/" + std::to_string(f));
  B s = B::Zero();
  for (int k = 0; k < 20; ++k, s = s + h) {
    c.states(1); c.step();
    MC_CHECK(c, s.IsOnCircle() && s - h + h == s && s.Double() == s + s && (s - s).IsZero() && s + s.Conjugate() == B::Zero() && s.Antipode().Antipode() == s, "g4_law", std::to_string(k));
    MC_CHECK(c, h * m31::Fr4(k) == s, "g4_scalar_mul", "Fr4(" + std::to_string(k) + ") times the generator is not its " + std::to_string(k) + "-fold sum");
  }
}
