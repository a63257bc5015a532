// The C layer answers exactly as the core library does.
#include <fcntl.h>
#include <unistd.h>

#include <iostream>
#include <set>

#include "mc/c35.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq12.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq2.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fq6.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/c/math/elliptic_curves/bls12/bls12_381/msm.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq12.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq2.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fq6.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/c/math/elliptic_curves/bn/bn254/msm.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/c/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"

namespace {
using namespace c35;
const bool quiet = (FLAGS_minloglevel = 3, true);
C35_FIELD(baby_bear, math::BabyBear)
C35_FIELD(baby_bear4, math::BabyBear4)
C35_FIELD(bn254_fq, math::bn254::Fq)
C35_FIELD(bn254_fr, math::bn254::Fr)
C35_FIELD(bn254_fq2, math::bn254::Fq2)
C35_FIELD(bn254_fq6, math::bn254::Fq6)
C35_FIELD(bn254_fq12, math::bn254::Fq12)
C35_FIELD(bls12_381_fq, math::bls12_381::Fq)
C35_FIELD(bls12_381_fr, math::bls12_381::Fr)
C35_FIELD(bls12_381_fq2, math::bls12_381::Fq2)
C35_FIELD(bls12_381_fq6, math::bls12_381::Fq6)
C35_FIELD(bls12_381_fq12, math::bls12_381::Fq12)
C35_CURVE(bn254_g1)
C35_CURVE(bn254_g2)
C35_CURVE(bls12_381_g1)
C35_CURVE(bls12_381_g2)

void Init() { static bool once = [] { math::bn254::BN254Curve::Init(); math::bls12_381::BLS12_381Curve::Init(); math::BabyBear4::Init(); return true; }(); (void)once; }

template <typename A>
void Field(mc::Ctx& c) {
  Init(); using N = typename A::N; using C = typename A::C; std::vector<N> v = Values<N>(c.thorough ? 400 : 60);
  auto same = [&](const C& got, const N& want, const char* op, size_t i, size_t j) { c.step(); N g = To<N>(got); MC_CHECK(c, g == want, "field", A::name() << "_" << op << " of " << i << ", " << j << ": " << g.ToString() << " instead of " << want.ToString()); };
  mc::at(A::name(), 0); if (c.shard == 0) { same(A::zero(), N::Zero(), "zero", 0, 0); same(A::one(), N::One(), "one", 0, 0); same(A::minus_one(), N::MinusOne(), "minus_one", 0, 0); std::set<std::string> seen; for (int i = 0; i < 16; ++i) { C r = A::random(); N n = To<N>(r); seen.insert(n.ToString()); MC_CHECK(c, n + N::Zero() == n && n - n == N::Zero(), "random", A::name()); } MC_CHECK(c, seen.size() > 1, "random", A::name()); }
  uint64_t id = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (!c.mine(id++)) continue; mc::at(A::name(), i); N x = v[i]; C a = From<C>(x); c.trace();
    same(A::neg(&a), -x, "neg", i, i); same(A::dbl(&a), x.Double(), "dbl", i, i); same(A::sqr(&a), x.Square(), "sqr", i, i);
    if (!x.IsZero()) same(A::inv(&a), *x.Inverse(), "inv", i, i); else { MC_CHECK(c, mc::dies([&] { A::inv(&a); }), "inverse of zero", A::name()); MC_CHECK(c, mc::dies([&] { C o = A::one(); A::div(&o, &a); }), "division by zero", A::name()); }
    for (size_t j = 0; j < v.size(); ++j) {
      N y = v[j]; C b = From<C>(y); c.states(1);
      same(A::add(&a, &b), x + y, "add", i, j); same(A::sub(&a, &b), x - y, "sub", i, j); same(A::mul(&a, &b), x * y, "mul", i, j); if (!y.IsZero()) same(A::div(&a, &b), *(x / y), "div", i, j);
      MC_CHECK(c, A::eq(&a, &b) == (x == y) && A::ne(&a, &b) == (x != y), "equality", A::name() << " " << i << ", " << j);
      MC_CHECK(c, A::gt(&a, &b) == (x > y) && A::ge(&a, &b) == (x >= y) && A::lt(&a, &b) == (x < y) && A::le(&a, &b) == (x <= y), "order", A::name() << " " << i << ", " << j);
      MC_CHECK(c, To<N>(a) == x && To<N>(b) == y, "operands", A::name());
    }
    same(A::add(&a, &a), x + x, "add itself", i, i); same(A::sub(&a, &a), N::Zero(), "sub itself", i, i); same(A::mul(&a, &a), x * x, "mul itself", i, i);
  }
}
MC_SECTION(prime_fields, 8) { Field<Api_baby_bear>(c); Field<Api_bn254_fq>(c); Field<Api_bn254_fr>(c); Field<Api_bls12_381_fq>(c); Field<Api_bls12_381_fr>(c); }
MC_SECTION(extension_fields, 8) { Field<Api_baby_bear4>(c); Field<Api_bn254_fq2>(c); Field<Api_bn254_fq6>(c); Field<Api_bn254_fq12>(c); Field<Api_bls12_381_fq2>(c); Field<Api_bls12_381_fq6>(c); Field<Api_bls12_381_fq12>(c); }

template <typename K, typename P, typename Q>
void Kind(mc::Ctx& c, const char* what) {
  using C = typename K::C; std::vector<std::pair<P, int>> v = Points<P>(4);
  if (c.shard == 0) { MC_CHECK(c, To<P>(K::zero()) == P::Zero() && To<P>(K::zero()).IsZero(), "zero", what); MC_CHECK(c, To<P>(K::generator()) == P::Generator(), "generator", what); for (int i = 0; i < 4; ++i) { P r = To<P>(K::random()); MC_CHECK(c, P::Curve::IsOnCurve(r), "random", what); } }
  uint64_t id = 0;
  for (auto& [p, i] : v) { if (!c.mine(id++)) continue; mc::at(what, id); c.trace(); C a = From<C>(p);
    MC_CHECK(c, To<P>(K::neg(&a)) == -p, "neg", what << " " << i); MC_CHECK(c, To<Q>(K::dbl(&a)) == p.Double(), "dbl", what << " " << i);
    for (auto& [q, j] : v) { C b = From<C>(q); c.states(1); c.step(4); MC_CHECK(c, To<Q>(K::add(&a, &b)) == p + q, "add", what << " " << i << ", " << j); MC_CHECK(c, To<Q>(K::sub(&a, &b)) == p - q, "sub", what << " " << i << ", " << j); MC_CHECK(c, K::eq(&a, &b) == (i == j) && K::ne(&a, &b) == (i != j), "equality", what << " " << i << ", " << j); MC_CHECK(c, memcmp(&a, &p, sizeof(a)) == 0 && memcmp(&b, &q, sizeof(b)) == 0, "operands", what); }
    MC_CHECK(c, To<Q>(K::add(&a, &a)) == p.Double() && To<Q>(K::sub(&a, &a)).IsZero(), "itself", what << " " << i); }
}
template <typename K, typename P>
void Mixed(mc::Ctx& c, const char* what) {
  using C = typename K::C; using A = math::AffinePoint<typename P::Curve>; uint64_t id = 0;
  for (auto& [p, i] : Points<P>(4)) for (auto& [q, j] : Points<A>(4)) { if (!c.mine(id++)) continue; c.states(1); c.trace(); c.step(2); C a = From<C>(p); auto b = From<typename K::A>(q); MC_CHECK(c, To<P>(K::add(&a, &b)) == p + q, "add mixed", what << " " << i << ", " << j); MC_CHECK(c, To<P>(K::sub(&a, &b)) == p - q, "sub mixed", what << " " << i << ", " << j); }
}
template <typename T, typename A>
void Curve(mc::Ctx& c) {
  T::init(); Init(); using G = typename A::Curve; using P = math::ProjectivePoint<G>; using J = math::JacobianPoint<G>; using X = math::PointXYZZ<G>;
  Kind<typename T::affine, A, J>(c, T::name()); Kind<typename T::projective, P, P>(c, T::name()); Kind<typename T::jacobian, J, J>(c, T::name()); Kind<typename T::xyzz, X, X>(c, T::name());
  Mixed<typename T::projective_mixed, P>(c, T::name()); Mixed<typename T::jacobian_mixed, J>(c, T::name()); Mixed<typename T::xyzz_mixed, X>(c, T::name());
}
MC_SECTION(points_g1, 8) { Curve<Api_bn254_g1, math::bn254::G1AffinePoint>(c); Curve<Api_bls12_381_g1, math::bls12_381::G1AffinePoint>(c); }
MC_SECTION(points_g2, 8) { Curve<Api_bn254_g2, math::bn254::G2AffinePoint>(c); Curve<Api_bls12_381_g2, math::bls12_381::G2AffinePoint>(c); }

template <typename Msm, typename Point2, typename CAff, typename CFr, typename A, typename FNC, typename FND, typename FN2, typename FNA>
void MSM(mc::Ctx& c, FNC create, FND destroy, FN2 with_points, FNA with_affine) {
  Init(); using F = typename A::ScalarField; using J = math::JacobianPoint<typename A::Curve>;
  fflush(stdout); int saved = dup(1); { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
  Msm msm = create(4); fflush(stdout); std::cout.flush(); dup2(saved, 1); close(saved);
  std::vector<std::pair<A, int>> pts = Points<A>(1); std::vector<F> sc = {F(0), F(1), -F(1), F(5)}; uint64_t id = 0;
  for (int n = 0; n <= 3; ++n) mc::tuples(2 * n, 12, [&](const std::vector<int>& v) {
    for (int i = 0; i < n; ++i) if (v[size_t(i)] >= 3 || v[size_t(n + i)] >= 4) return;
    if (!c.mine(id++)) return; mc::at("msm", n, id); c.states(1); c.trace(); c.step(2); std::vector<Point2> p2; std::vector<CAff> pa; std::vector<CFr> fr; J want = J::Zero();
    for (int i = 0; i < n; ++i) { A a = pts[size_t(v[size_t(i)])].first; F f = sc[size_t(v[size_t(n + i)])]; p2.push_back(From<Point2>(a)); pa.push_back(From<CAff>(a)); fr.push_back(From<CFr>(f)); int k = v[size_t(n + i)] == 3 ? 5 : v[size_t(n + i)] == 2 ? -1 : v[size_t(n + i)]; for (int s = 0; s < std::abs(k); ++s) { if (k > 0) want += a; else want -= a; } }
    auto* r2 = with_points(msm, p2.data(), fr.data(), size_t(n)); auto* ra = with_affine(msm, pa.data(), fr.data(), size_t(n));
    MC_CHECK(c, To<J>(*r2) == want, "point2 msm", mc::vstr(v)); MC_CHECK(c, To<J>(*ra) == want, "affine msm", mc::vstr(v)); delete r2; delete ra;
  });
  destroy(msm);
}
MC_SECTION(msm_bn254, 8) { MSM<tachyon_bn254_g1_msm_ptr, tachyon_bn254_g1_point2, tachyon_bn254_g1_affine, tachyon_bn254_fr, math::bn254::G1AffinePoint>(c, tachyon_bn254_g1_create_msm, tachyon_bn254_g1_destroy_msm, tachyon_bn254_g1_point2_msm, tachyon_bn254_g1_affine_msm); }
MC_SECTION(msm_bls12_381, 8) { MSM<tachyon_bls12_381_g1_msm_ptr, tachyon_bls12_381_g1_point2, tachyon_bls12_381_g1_affine, tachyon_bls12_381_fr, math::bls12_381::G1AffinePoint>(c, tachyon_bls12_381_g1_create_msm, tachyon_bls12_381_g1_destroy_msm, tachyon_bls12_381_g1_point2_msm, tachyon_bls12_381_g1_affine_msm); }
}  // namespace
