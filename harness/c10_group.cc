// C10: the group law in all coordinate systems over complete small curves.
#include "mc/mccurve.h"
#include "mc/ext/m7_2.h"
#include "mc/fields/l127.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m7.h"
#include "mc/fields/p31.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace mccurve;
using namespace tachyon::math::mcf;
#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8, 13};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif

template <typename C> struct Check {
  using F = typename C::BaseField; using S = typename C::ScalarField;
  using A = AffinePoint<C>; using P = ProjectivePoint<C>; using J = JacobianPoint<C>; using X = PointXYZZ<C>;
  mc::Ctx& c; Group<F> g; std::vector<F> zs;

  template <typename T> std::string D(const T& p) { return p.ToString(); }

  // One point, every representative: unary operations and conversions.
  template <typename T> void Unary(const Pt<F>& p) {
    for (auto& r : Reps<T>(p, zs)) {
      c.state(mc::hash_bytes(&r, sizeof r)); mc::at("unary");
      auto d = [&] { return "a=" + g.a.ToString() + " b=" + g.b.ToString() + " P=" + Str(p) + " as " + D(r); };
      MC_CHECK(c, r.IsZero() == p.inf, "is_zero", d());
      MC_CHECK(c, Is(-r, g.neg(p)), "negate", d());
      T t = r; t.NegateInPlace(); MC_CHECK(c, Is(t, g.neg(p)), "negate_in_place", d());
      MC_CHECK(c, Is(r.Double(), g.add(p, p)), "double", d() << " gives " << D(r.Double()));
      if constexpr (!std::is_same_v<T, A>) { t = r; t.DoubleInPlace(); MC_CHECK(c, Is(t, g.add(p, p)), "double_in_place", d()); t = r; t += t; MC_CHECK(c, Is(t, g.add(p, p)), "add_self", d()); t = r; t -= t; MC_CHECK(c, Is(t, Pt<F>()), "sub_self", d()); }
      else { MC_CHECK(c, Is(r.DoubleProjective(), g.add(p, p)), "double_projective", d()); MC_CHECK(c, Is(r.DoubleXYZZ(), g.add(p, p)), "double_xyzz", d()); }
      MC_CHECK(c, Is(ConvertPoint<A>(r), p), "to_affine", d() << " gives " << D(ConvertPoint<A>(r)));
      MC_CHECK(c, Is(ConvertPoint<P>(r), p), "to_projective", d() << " gives " << D(ConvertPoint<P>(r)));
      MC_CHECK(c, Is(ConvertPoint<J>(r), p), "to_jacobian", d() << " gives " << D(ConvertPoint<J>(r)));
      MC_CHECK(c, Is(ConvertPoint<X>(r), p), "to_xyzz", d() << " gives " << D(ConvertPoint<X>(r)));
    }
  }
  template <typename T, typename U> void Mixed(const Pt<F>& p, const Pt<F>& q, const std::vector<T>& rp, const std::vector<U>& rq) {
    Pt<F> w = g.add(p, q), dff = g.add(p, g.neg(q)), rev = g.add(q, g.neg(p));
    for (auto& a : rp) for (auto& b : rq) {
      mc::at("mixed");
      auto d = [&] { return "a=" + g.a.ToString() + " b=" + g.b.ToString() + " P=" + Str(p) + " as " + D(a) + " Q=" + Str(q) + " as " + D(b); };
      MC_CHECK(c, Is(a + b, w), "add", d() << " gives " << D(a + b));
      MC_CHECK(c, Is(a - b, dff), "sub", d() << " gives " << D(a - b));
      if constexpr (std::is_same_v<T, A> && !std::is_same_v<U, A>) { MC_CHECK(c, Is(b + a, w), "add_right", d()); MC_CHECK(c, Is(b - a, rev), "sub_right", d()); U t = b; t += a; MC_CHECK(c, Is(t, w), "add_affine_in_place", d()); t = b; t -= a; MC_CHECK(c, Is(t, rev), "sub_affine_in_place", d()); }
      if constexpr (std::is_same_v<T, U>) {
        MC_CHECK(c, (a == b) == (p == q) && (a != b) == !(p == q), "equality", d());
        if constexpr (!std::is_same_v<T, A>) { T t = a; t += b; MC_CHECK(c, Is(t, w), "add_in_place", d() << " gives " << D(t)); t = a; t -= b; MC_CHECK(c, Is(t, dff), "sub_in_place", d()); }
      }
    }
  }
  template <typename T> void Mul(const Pt<F>& p, uint64_t n) {
    auto reps = Reps<T>(p, {zs[0], zs.back()}); Pt<F> w;
    for (uint64_t k = 0; k <= 2 * n + 2; ++k, w = g.add(w, p)) for (auto& r : reps) {
      mc::at("scalar_mul", k); c.state(mc::mix(mc::hash_bytes(&r, sizeof r), k + 1000));
      auto d = [&] { return "a=" + g.a.ToString() + " b=" + g.b.ToString() + " k=" + std::to_string(k) + " P=" + D(r); };
      MC_CHECK(c, Is(r.ScalarMul(BigInt<1>(k)), w) && Is(r.ScalarMul(BigInt<4>(k)), w), "scalar_mul", d() << " gives " << D(r.ScalarMul(BigInt<1>(k))));
      if (k < S::Config::kModulus) {
        S s((typename S::value_type)k);
        MC_CHECK(c, Is(r * s, w) && Is(s * r, w), "scalar_field_mul", d());
        if constexpr (!std::is_same_v<T, A>) { T t = r; t *= s; MC_CHECK(c, Is(t, w), "scalar_field_mul_in_place", d()); }
      }
      MC_CHECK(c, k > 8 || (k == 0 ? Is(r.template ConstScalarMul<0>(), w) : k == 1 ? Is(r.template ConstScalarMul<1>(), w) : k == 2 ? Is(r.template ConstScalarMul<2>(), w) : k == 3 ? Is(r.template ConstScalarMul<3>(), w) : k == 4 ? Is(r.template ConstScalarMul<4>(), w) : k == 5 ? Is(r.template ConstScalarMul<5>(), w) : k == 6 ? Is(r.template ConstScalarMul<6>(), w) : k == 7 ? Is(r.template ConstScalarMul<7>(), w) : Is(r.template ConstScalarMul<8>(), w)), "const_scalar_mul", d());
    }
  }
  void Points(bool full) {
    size_t n = g.pts.size(); auto some = full ? zs : std::vector<F>{zs[0], zs[1 % zs.size()], zs.back()};
    for (size_t i = 0; i < n; ++i) {
      Unary<A>(g.pts[i]); Unary<P>(g.pts[i]); Unary<J>(g.pts[i]); Unary<X>(g.pts[i]);
      auto& p = g.pts[i]; auto pa = Reps<A>(p, some); auto pp = Reps<P>(p, some); auto pj = Reps<J>(p, some); auto px = Reps<X>(p, some);
      for (auto& q : g.pts) {
        c.state(mc::mix(mc::mix(i, &q - &g.pts[0]), n)); c.trace();
        auto qa = Reps<A>(q, some); auto qp = Reps<P>(q, some); auto qj = Reps<J>(q, some); auto qx = Reps<X>(q, some);
        if (c.want_sample()) c.sample("a=" + g.a.ToString() + " b=" + g.b.ToString() + " P=" + Str(p) + " Q=" + Str(q));
        Mixed<A, A>(p, q, pa, qa); Mixed<A, P>(p, q, pa, qp); Mixed<A, J>(p, q, pa, qj); Mixed<A, X>(p, q, pa, qx);
        Mixed<P, P>(p, q, pp, qp); Mixed<J, J>(p, q, pj, qj); Mixed<X, X>(p, q, px, qx);
      }
      Mul<A>(p, n); Mul<P>(p, n); Mul<J>(p, n); Mul<X>(p, n);
    }
  }
  // Lists of points into affine coordinates.
  template <typename T> void Norm(const std::vector<T>& v, const std::vector<Pt<F>>& w, const std::string& what) {
    auto same = [&](const std::vector<A>& o) { if (o.size() != w.size()) return false; for (size_t i = 0; i < w.size(); ++i) if (!Is(o[i], w[i])) return false; return true; };
    mc::at("batch_normalize", v.size()); c.trace();
    std::vector<A> o(v.size(), A(F::One(), F::One())), o2 = o, o3 = o;
    MC_CHECK(c, T::BatchNormalize(v, &o) && same(o), "batch_normalize", what);
    MC_CHECK(c, T::BatchNormalizeSerial(v, &o2) && same(o2), "batch_normalize_serial", what);
    MC_CHECK(c, ConvertPoints(v, &o3) && same(o3), "convert_points", what);
    std::vector<A> bad(v.size() + 1); MC_CHECK(c, !T::BatchNormalize(v, &bad) && !T::BatchNormalizeSerial(v, &bad) && !ConvertPoints(v, &bad), "batch_normalize_size", what);
  }
  template <typename T> void Lists(int pool, int L, int N) {
    std::vector<Pt<F>> ps; std::vector<T> rs;
    for (int i = 0; i < pool; ++i) { auto& p = g.pts[(i * 5) % g.pts.size()]; auto r = Reps<T>(p, zs); ps.push_back(p); rs.push_back(r[(i * 3) % r.size()]); }
    for (int team : kTeams) { Team(team);
      for (int n = 0; n <= L; ++n) mc::tuples(n, pool, [&](const std::vector<int>& t) {
        std::vector<T> v; std::vector<Pt<F>> w; for (int i : t) { v.push_back(rs[i]); w.push_back(ps[i]); }
        c.state(mc::mix(mc::hash_bytes(t.data(), 4 * t.size()), team * 8 + n)); Norm(v, w, "pool indices " + mc::vstr(t) + " team " + std::to_string(team));
      });
      for (int n = L + 1; n <= N; ++n) for (int z = 0; z <= n; ++z) {
        std::vector<T> v; std::vector<Pt<F>> w; for (int i = 0; i < n; ++i) { int k = i == z ? 0 : 1 + i % (pool - 1); v.push_back(rs[k]); w.push_back(ps[k]); }
        c.state(mc::mix(n * 100 + z, team)); Norm(v, w, "n=" + std::to_string(n) + " identity at " + std::to_string(z) + " team " + std::to_string(team));
      }
    }
  }
  void Map() {
    for (int team : kTeams) { Team(team);
      for (auto& p : g.pts) for (size_t n = 0; n < 24; ++n) {
        if (p.inf && n > 3) continue;
        std::vector<S> s; std::vector<A> o(n); bool ok = true; for (size_t i = 0; i < n; ++i) s.push_back(S((typename S::value_type)((i * i + n) % S::Config::kModulus)));
        A base = Reps<A>(p, zs)[0]; mc::at("batch_map", n); c.state(mc::mix(n, team * 1000 + (&p - &g.pts[0])));
        bool r = A::BatchMapScalarFieldToPoint(base, s, &o); for (size_t i = 0; i < n; ++i) ok &= Is(o[i], g.mul((i * i + n) % S::Config::kModulus, p));
        MC_CHECK(c, r && ok, "batch_map_scalar_field", "n=" << n << " P=" << Str(p) << " team " << team);
        std::vector<A> bad(n + 1); MC_CHECK(c, !A::BatchMapScalarFieldToPoint(base, s, &bad), "batch_map_size", n);
      }
    }
  }
};

// Every non-singular curve over the field with b != 0 (the code represents the
// identity as the affine pair (0,0), so b = 0 curves are outside its domain).
template <typename F, typename S, bool AZ> void Curves(mc::Ctx& c, uint64_t p, bool full, int stride = 1) {
  F::Init(); S::Init(); using C = SWCurve<Cfg<F, S, AZ>>; auto el = Elements<F>(p); uint64_t id = 0, used = 0;
  for (uint64_t a = 0; a < (AZ ? 1 : p); ++a) for (uint64_t b = 1; b < p; ++b) {
    if (Singular(el[a], el[b]) || (id++) % stride || !c.mine(used++)) continue;
    C::Config::kA = el[a]; C::Config::kB = el[b];
    Check<C> k{c, Make(el[a], el[b], el), std::vector<F>(el.begin() + 1, el.end())};
    if (k.g.pts.size() < 3) continue;
    k.Points(full);
    if (a < 2 && b < 3) { k.template Lists<typename Check<C>::P>(4, 3, 12); k.template Lists<typename Check<C>::J>(4, 3, 12); k.template Lists<typename Check<C>::X>(4, 3, 12); k.Map(); }
  }
}
// A curve over a quadratic extension (as G2 has), all points, some representatives.
void ExtCurve(mc::Ctx& c) {
  using F = M7_2; F::Init(); using C = SWCurve<Cfg<F, M7, false>>; std::vector<F> el;
  for (auto& x : Elements<M7>(7)) for (auto& y : Elements<M7>(7)) el.push_back(F(x, y));
  for (int k = 0; k < 8; ++k) { if (!c.mine(k)) continue; F a = k < 4 ? F::Zero() : el[k * 5 + 3], b = el[k * 6 + 1]; if (Singular(a, b)) continue;
    C::Config::kA = a; C::Config::kB = b; Check<C> s{c, Make(a, b, el), {el[7], el[10], el[33]}}; s.Points(false); }
}
}  // namespace

MC_SECTION(all_M7, 4) { Curves<M7, M7, false>(c, 7, true); }
MC_SECTION(azero_M7, 1) { Curves<M7, M7, true>(c, 7, true); }
MC_SECTION(all_M13, 16) { Curves<M13, M7, false>(c, 13, c.thorough, c.thorough ? 1 : 1); }
MC_SECTION(azero_M13, 4) { Curves<M13, M7, true>(c, 13, true); }
MC_SECTION(all_M17, 16) { Curves<M17, M13, false>(c, 17, false, c.thorough ? 1 : 3); }
MC_SECTION(azero_P31, 8) { Curves<P31, M13, true>(c, 31, false); }
MC_SECTION(ext_M7_2, 8) { ExtCurve(c); }
