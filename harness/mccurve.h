// Short Weierstrass curves with run-time coefficients over small fields, and
// an affine reference implementation of the group law.
#ifndef MC_MCCURVE_H_
#define MC_MCCURVE_H_
#include <optional>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point_conversions.h"

namespace mccurve {
using namespace tachyon::math;

template <typename _B, typename _S, bool AZero, int Tag = 0>
struct Cfg {
  using BaseField = _B; using BasePrimeField = BaseField; using ScalarField = _S;
  using CpuCurveConfig = Cfg; using GpuCurveConfig = Cfg;
  constexpr static bool kAIsZero = AZero;
  inline static BaseField kA, kB;
  inline static Point2<BaseField> kGenerator;
  inline static BaseField kEndomorphismCoefficient;
  inline static ScalarField kLambda;
  static BaseField MulByA(const BaseField& v) { return kA * v; }
  static BaseField MulByB(const BaseField& v) { return kB * v; }
  static void Init() {}
};

template <typename F> struct Pt { F x, y; bool inf = true; bool operator==(const Pt& o) const { return inf ? o.inf : !o.inf && x == o.x && y == o.y; } };
template <typename F> struct Group {
  F a, b; std::vector<Pt<F>> pts;  // pts[0] is the identity
  Pt<F> neg(const Pt<F>& p) const { return {p.x, F::Zero() - p.y, p.inf}; }
  Pt<F> add(const Pt<F>& p, const Pt<F>& q) const {
    if (p.inf) return q;
    if (q.inf) return p;
    F l;
    if (p.x == q.x) {
      if (p.y != q.y || p.y.IsZero()) return Pt<F>();
      F t = p.x * p.x; l = (t + t + t + a) * *(p.y + p.y).Inverse();
    } else l = (q.y - p.y) * *(q.x - p.x).Inverse();
    F x = l * l - p.x - q.x; return {x, l * (p.x - x) - p.y, false};
  }
  Pt<F> mul(uint64_t k, const Pt<F>& p) const { Pt<F> r, d = p; for (; k; k >>= 1, d = add(d, d)) if (k & 1) r = add(r, d); return r; }
  bool on(const F& x, const F& y) const { return y * y == x * x * x + a * x + b; }
};
template <typename F> std::vector<F> Elements(uint64_t p) { std::vector<F> v; F x = F::Zero(); for (uint64_t i = 0; i < p; ++i) { v.push_back(x); x += F::One(); } return v; }
template <typename F> Group<F> Make(const F& a, const F& b, const std::vector<F>& el) {
  Group<F> g{a, b, {Pt<F>()}}; for (auto& x : el) for (auto& y : el) if (g.on(x, y)) g.pts.push_back({x, y, false});
  return g;
}
template <typename F> bool Singular(const F& a, const F& b) { F t = a * a * a, u = b * b; F s = F::Zero(); for (int i = 0; i < 4; ++i) s += t; for (int i = 0; i < 27; ++i) s += u; return s.IsZero(); }

// All representatives of a point in each coordinate system (zs: non-zero scale factors).
template <typename P, typename F> std::vector<P> Reps(const Pt<F>& p, const std::vector<F>& zs) {
  std::vector<P> v;
  using C = typename P::Curve;
  if constexpr (std::is_same_v<P, AffinePoint<C>>) { if (p.inf) v.push_back(P::Zero()); else v.push_back(P(p.x, p.y)); }
  else for (auto& z : zs) {
    F z2 = z * z, z3 = z2 * z, o = F::Zero();
    if constexpr (std::is_same_v<P, ProjectivePoint<C>>) v.push_back(p.inf ? P(o, z, o) : P(p.x * z, p.y * z, z));
    else if constexpr (std::is_same_v<P, JacobianPoint<C>>) v.push_back(p.inf ? P(z2, z3, o) : P(p.x * z2, p.y * z3, z));
    else v.push_back(p.inf ? P(z2, z3, o, o) : P(p.x * z2, p.y * z3, z2, z3));
  }
  if constexpr (!std::is_same_v<P, AffinePoint<C>>) if (p.inf) v.push_back(P::Zero());
  return v;
}
// The point a representation stands for.
template <typename P> auto Read(const P& p) {
  using C = typename P::Curve; using F = typename P::BaseField; Pt<F> r;
  if constexpr (std::is_same_v<P, AffinePoint<C>>) { if (p.x().IsZero() && p.y().IsZero()) return r; return Pt<F>{p.x(), p.y(), false}; }
  else if constexpr (std::is_same_v<P, PointXYZZ<C>>) {
    if (p.zz().IsZero() || p.zzz().IsZero()) return r;
    return Pt<F>{p.x() * *p.zz().Inverse(), p.y() * *p.zzz().Inverse(), p.zz() * p.zz() * p.zz() != p.zzz() * p.zzz() };
  } else {
    if (p.z().IsZero()) return r;
    F i = *p.z().Inverse();
    if constexpr (std::is_same_v<P, ProjectivePoint<C>>) return Pt<F>{p.x() * i, p.y() * i, false};
    else return Pt<F>{p.x() * i * i, p.y() * i * i * i, false};
  }
}
template <typename P> bool Id(const P& p) { if constexpr (std::is_same_v<P, AffinePoint<typename P::Curve>>) return p.x().IsZero() && p.y().IsZero(); else if constexpr (std::is_same_v<P, PointXYZZ<typename P::Curve>>) return p.zz().IsZero(); else return p.z().IsZero(); }
template <typename P, typename F> bool Is(const P& p, const Pt<F>& w) { if (Id(p)) return w.inf; if (w.inf) return false; auto r = Read(p); return r == w; }
template <typename F> std::string Str(const Pt<F>& p) { return p.inf ? "O" : "(" + p.x.ToString() + "," + p.y.ToString() + ")"; }
}  // namespace mccurve
#endif
