// C12: GLV scalar multiplication: k = k1 + k2 * lambda, and the product.
#include "mc/fields/p103.h"
#include "mc/fields/p13.h"
#include "mc/fields/p19.h"
#include "mc/fields/p31.h"
#include "mc/fields/p43.h"
#include "mc/fields/p67.h"
#include "mc/fields/p7.h"
#include "mc/fields/p79.h"
#include "mc/fields/p97.h"
#include "mc/mccurve.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using namespace mccurve;

template <typename F, typename S> struct GCfg : Cfg<F, S, true> {
  using CpuCurveConfig = GCfg; using GpuCurveConfig = GCfg;
  inline static mpz_class kGLVCoeffs[4];
};
// A scalar field of small order with the interface of a multi-limb field.
template <uint64_t R> struct Scal {
  constexpr static size_t kLimbNums = 1;
  struct Config { constexpr static BigInt<1> kModulus = BigInt<1>(R); constexpr static size_t kModulusBits = 64; };
  uint64_t v = 0;
  Scal() = default; explicit Scal(uint64_t x) : v(x % R) {}
  static void Init() {}
  BigInt<1> ToBigInt() const { return BigInt<1>(v); }
  mpz_class ToMpzClass() const { return mpz_class(static_cast<unsigned long>(v)); }
};
template <typename S> mpz_class Int(const S& s) { mpz_class r; auto b = s.ToBigInt(); mpz_import(r.get_mpz_t(), b.kLimbNums, -1, 8, 0, 0, b.limbs); return r; }
template <typename S> mpz_class Order() { mpz_class r; auto& b = S::Config::kModulus; mpz_import(r.get_mpz_t(), std::size(b.limbs), -1, 8, 0, 0, b.limbs); return r; }
template <typename S> S From(const mpz_class& v) {
  mpz_class m = Order<S>(), w; mpz_mod(w.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t());
  return *S::FromDecString(w.get_str());
}
std::string At(const char* w, std::vector<int64_t> v) { std::string r = w; for (auto x : v) r += " " + std::to_string(x); return r; }
size_t Bits(const mpz_class& v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }

template <typename P, typename S> void Decomp(mc::Ctx& c, const S& s, const mpz_class& k, size_t bound) {
  auto d = GLV<P>::Decompose(s);
  mpz_class k1 = d.k1.ToValue(), k2 = d.k2.ToValue();
  mpz_class e = k1 + k2 * Int(P::Curve::Config::kLambda) - k;
  auto m = [&] { return "k=" + k.get_str() + " k1=" + k1.get_str() + " k2=" + k2.get_str(); };
  c.step();
  MC_CHECK(c, mpz_divisible_p(e.get_mpz_t(), Order<S>().get_mpz_t()), "decompose", m());
  MC_CHECK(c, Bits(k1) <= bound && Bits(k2) <= bound, "decompose-size", m());
  MC_CHECK(c, d.k1.abs_value >= 0 && d.k2.abs_value >= 0, "decompose-sign", m());
}

// ---- exhaustive: every GLV curve y^2 = x^3 + b of prime order r = 1 (mod 3) over GF(p)
template <typename F, typename S> void SmallPair(mc::Ctx& c) {
  uint64_t p = F::Config::kModulus, r = S::Config::kModulus[0];
  F::Init(); S::Init();
  using G = GCfg<F, S>;
  using Curve = SWCurve<G>;
  auto el = Elements<F>(p);
  for (uint64_t b = 1; b < p; ++b) {
    auto g = Make(el[0], el[b], el);
    if (g.pts.size() != r) continue;
    G::kA = el[0]; G::kB = el[b];
    for (uint64_t beta = 2; beta < p; ++beta) {
      if (beta * beta * beta % p != 1) continue;
      G::kEndomorphismCoefficient = el[beta];
      // lambda: phi(g) = lambda g
      Pt<F> q = g.pts[1], fq{q.x * el[beta], q.y, false};
      uint64_t lam = 1;
      while (lam < r && !(g.mul(lam, q) == fq)) ++lam;
      if (lam == r) { MC_CHECK(c, false, "oracle", "no lambda"); continue; }
      G::kLambda = S(lam);
      // every reduced basis with entries up to sqrt(r)*2 and determinant r
      std::vector<std::pair<int, int>> vs;
      int lim = 1; while (uint64_t(lim) * lim < r) ++lim;
      for (int x = -lim; x <= lim; ++x) for (int y = -lim; y <= lim; ++y) {
        int64_t t = (x + int64_t(lam) * y) % int64_t(r);
        if ((x || y) && t == 0) vs.push_back({x, y});
      }
      for (auto& u : vs) for (auto& v : vs) {
        if (int64_t(u.first) * v.second - int64_t(u.second) * v.first != int64_t(r)) continue;
        G::kGLVCoeffs[0] = u.first; G::kGLVCoeffs[1] = u.second; G::kGLVCoeffs[2] = v.first; G::kGLVCoeffs[3] = v.second;
        size_t bound = Bits(mpz_class(2 * lim)) ;
        c.trace();
        auto run = [&](auto tag) {
          using P = typename decltype(tag)::type;
          std::vector<F> zs = {el[1], el[3]};
          for (uint64_t k = 0; k < r; ++k) {
            S s(k); Decomp<P>(c, s, mpz_class(k), bound);
            for (auto& pt : g.pts) for (auto& rep : Reps<P>(pt, zs)) {
              c.step();
              MC_CHECK(c, Read(GLV<P>::Mul(rep, s)) == g.mul(k, pt), "mul",
                       At("glv p,r,b,beta,k:", {int64_t(p), int64_t(r), int64_t(b), int64_t(beta), int64_t(k)}));
              c.states(1);
            }
          }
          for (auto& pt : g.pts) for (auto& rep : Reps<P>(pt, zs)) {
            c.step();
            MC_CHECK(c, Read(P::Endomorphism(rep)) == g.mul(lam, pt), "endomorphism", At("p,b,beta:", {int64_t(p), int64_t(b), int64_t(beta)}));
          }
        };
        struct A { using type = AffinePoint<Curve>; }; struct B { using type = ProjectivePoint<Curve>; };
        struct C { using type = JacobianPoint<Curve>; }; struct D { using type = PointXYZZ<Curve>; };
        run(A()); run(B()); run(C()); run(D());
        if (!c.thorough && r > 31) break;
      }
    }
  }
}
MC_SECTION(small, 8) {
  int i = 0;
#define PAIR(F, S) if (c.mine(i++)) SmallPair<F, S>(c);
  PAIR(P7, Scal<13>) PAIR(P13, Scal<7>) PAIR(P13, Scal<19>) PAIR(P19, Scal<13>) PAIR(P31, Scal<43>) PAIR(P43, Scal<31>) PAIR(P67, Scal<79>) PAIR(P79, Scal<67>) PAIR(P97, Scal<103>) PAIR(P103, Scal<97>)
#undef PAIR
  MC_CHECK(c, true, "done", "");
}

// ---- the curves of the library
template <typename C> void Real(mc::Ctx& c) {
  C::Init();
  using J = JacobianPoint<C>;
  using S = typename J::ScalarField;
  using F = typename J::BaseField;
  mpz_class r = Order<S>(), lam = Int(C::Config::kLambda);
  mpz_class l3 = (lam * lam * lam - 1) % r;
  MC_CHECK(c, l3 == 0 && lam != 1, "lambda", lam.get_str());
  const auto& co = C::Config::kGLVCoeffs;
  std::vector<mpz_class> base = {0, lam, lam * lam, r / 2, r / 3};
  for (int i = 0; i < 4; ++i) { base.push_back(co[i]); base.push_back(co[i] * lam); }
  for (int i = 0; i <= int(Bits(r)); i += (c.thorough ? 1 : 8)) { mpz_class t = mpz_class(1) << i; base.push_back(t); base.push_back(t * lam); base.push_back(t * (lam + 1)); }
  for (int i = 62; i < 132; i += (i == 66 ? 60 : 1)) { mpz_class t = mpz_class(1) << i; base.push_back(t); base.push_back(t * lam); base.push_back(t + lam); base.push_back(1 + t * lam); base.push_back(t - lam); base.push_back(t * lam - 1); }
  std::vector<mpz_class> ks;
  for (auto& b : base) for (int d : {-2, -1, 0, 1, 2}) { mpz_class v = (b + d) % r; if (v < 0) v += r; ks.push_back(v); v = (r - v) % r; ks.push_back(v); }
  for (int a = -4; a <= 4; ++a) for (int b = -4; b <= 4; ++b) { mpz_class v = (a + b * lam) % r; if (v < 0) v += r; ks.push_back(v); }
  std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
  size_t bound = Bits(r) / 2 + 2;
  J gen = J::Generator();
  AffinePoint<C> ga = AffinePoint<C>::Generator();
  std::vector<J> pow = {gen};
  for (size_t i = 1; i < Bits(r); ++i) pow.push_back(pow.back() + pow.back());
  F z = F::One() + F::One() + F::One(), z2 = z * z, z3 = z2 * z;
  size_t n = 0;
  for (auto& k : ks) {
    if (!c.mine(n++)) continue;
    S s = From<S>(k);
    Decomp<J>(c, s, k, bound); c.trace(); c.states(1);
    J want = J::Zero();
    for (size_t i = 0; i < pow.size(); ++i) if (mpz_tstbit(k.get_mpz_t(), i)) want += pow[i];
    auto m = [&] { return "k=" + k.get_str(); };
    auto one = [&](auto pt, const char* key, const J& w) {
      using P = decltype(pt); c.step();
      auto got = GLV<P>::Mul(pt, s);
      MC_CHECK(c, ConvertPoint<J>(got) == w, key, m());
    };
    one(ga, "mul-affine", want);
    one(ProjectivePoint<C>(ga.x() * z, ga.y() * z, z), "mul-projective", want);
    one(J(ga.x() * z2, ga.y() * z3, z), "mul-jacobian", want);
    one(PointXYZZ<C>(ga.x() * z2, ga.y() * z3, z2, z3), "mul-xyzz", want);
    one(-ga, "mul-affine-neg", -want);
    one(AffinePoint<C>::Zero(), "mul-affine-zero", J::Zero());
    one(J::Zero(), "mul-jacobian-zero", J::Zero());
    one(ProjectivePoint<C>::Zero(), "mul-projective-zero", J::Zero());
    one(PointXYZZ<C>::Zero(), "mul-xyzz-zero", J::Zero());
  }
}
MC_SECTION(bn254_g1, 4) { Real<bn254::G1Curve>(c); }
MC_SECTION(bn254_g2, 4) { Real<bn254::G2Curve>(c); }
MC_SECTION(bls12_381_g1, 4) { Real<bls12_381::G1Curve>(c); }
MC_SECTION(bls12_381_g2, 4) { Real<bls12_381::G2Curve>(c); }
}  // namespace
