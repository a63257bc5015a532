// C11: the shipped curves: generators, orders, decompression, endomorphisms.
#include <gmpxx.h>
#include "tachyon/math/base/gmp/gmp_util.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "mc/mc.h"
#include "mc/mccurve.h"
using namespace tachyon::math;
using namespace mccurve;
namespace {
template <typename F> mpz_class Big(const F& f) { mpz_class r; auto b = f.ToBigInt(); mpz_import(r.get_mpz_t(), decltype(b)::kLimbNums, -1, 8, 0, 0, b.limbs); return r; }
template <typename F> mpz_class Mod() { mpz_class r; auto& b = F::Config::kModulus; mpz_import(r.get_mpz_t(), std::size(b.limbs), -1, 8, 0, 0, b.limbs); return r; }
template <typename F> F FromMpz(const mpz_class& v) { return *F::FromDecString(v.get_str()); }

template <typename C, bool kEndo> struct Real {
  using A = typename C::AffinePoint; using P = typename C::ProjectivePoint; using J = typename C::JacobianPoint; using X = typename C::PointXYZZ;
  using F = typename C::BaseField; using S = typename C::ScalarField;
  mc::Ctx& c; Group<F> g; mpz_class r = Mod<S>();
  std::vector<F> zs;
  Pt<F> Mul(mpz_class k, Pt<F> p) { Pt<F> o; for (; k != 0; k >>= 1, p = g.add(p, p)) if (mpz_odd_p(k.get_mpz_t())) o = g.add(o, p); return o; }
  template <typename T> void Endo(const Pt<F>& p, const Pt<F>& lp) {
    for (auto& q : Reps<T>(p, zs)) { c.step(); c.states(1);
      MC_CHECK(c, Is(T::Endomorphism(q), lp), "endomorphism", "P=" + Str(p) + " as " + q.ToString());
      MC_CHECK(c, Is(ConvertPoint<J>(q * C::Config::kLambda), lp), "lambda_mul", "P=" + Str(p)); }
  }
  template <typename T> void On(const Pt<F>& p, const Pt<F>& bad) {
    for (auto& q : Reps<T>(p, zs)) { c.step(); c.states(1); MC_CHECK(c, q.IsOnCurve() == !p.inf, "on_curve", Str(p)); }
    for (auto& q : Reps<T>(bad, zs)) { c.step(); c.states(1); MC_CHECK(c, !q.IsOnCurve(), "on_curve_off", Str(bad)); }
  }
  void Run() {
    C::Init(); g.a = C::Config::kA; g.b = C::Config::kB;
    zs = {F::One(), -F::One(), F::One() + F::One(), C::Config::kGenerator.x + F::One() + F::One()};
    Pt<F> G{C::Config::kGenerator.x, C::Config::kGenerator.y, false};
    MC_CHECK(c, g.on(G.x, G.y), "generator_on_curve", Str(G));
    MC_CHECK(c, Mul(r, G).inf && mpz_probab_prime_p(r.get_mpz_t(), 30), "generator_order", "r*G is not the identity");
    MC_CHECK(c, Is(A::Generator(), G) && Is(P::Generator(), G) && Is(J::Generator(), G) && Is(X::Generator(), G) && Is(J::One(), G), "generator", "Generator()");
    std::vector<mpz_class> ks; for (int i = 0; i < (c.thorough ? 200 : 24); ++i) ks.push_back(i);
    for (unsigned i = 5; i < mpz_sizeinbase(r.get_mpz_t(), 2); i += c.thorough ? 1 : 9) { mpz_class t = mpz_class(1) << i; ks.push_back(t % r); ks.push_back(r - t % r); ks.push_back((t - 1) % r); }
    for (int i = 1; i < 6; ++i) { ks.push_back(r - i); ks.push_back(r / (i + 1)); }
    mpz_class lam; if constexpr (kEndo) { lam = Big(C::Config::kLambda); MC_CHECK(c, (lam * lam + lam + 1) % r == 0, "lambda_root", lam.get_str()); }
    uint64_t n = 0;
    for (auto& k : ks) {
      if (!c.mine(n++)) continue;
      Pt<F> p = Mul(k, G), off = p; off.x = off.x + F::One(); if (off.inf || g.on(off.x, off.y)) off = Pt<F>{F::One() + F::One() + G.x, G.y, false};
      c.trace(); S s = FromMpz<S>(k); std::string w = "k=" + k.get_str();
      MC_CHECK(c, Is(J::Generator() * s, p) && Is(P::Generator() * s, p) && Is(X::Generator() * s, p) && Is(A::Generator() * s, p), "mul", w);
      On<A>(p, off); On<P>(p, off); On<J>(p, off); On<X>(p, off);
      if constexpr (kEndo) { Pt<F> lp = Mul(lam, p); Endo<A>(p, lp); Endo<P>(p, lp); Endo<J>(p, lp); Endo<X>(p, lp); }
      if constexpr (F::ExtensionDegree() == 1) if (!p.inf) Decomp(p.x, &p);
    }
    if constexpr (F::ExtensionDegree() == 1) {
      mpz_class q = Mod<F>(); F x = F::Zero();
      for (int i = 0; i < (c.thorough ? 4000 : 400); ++i, x += F::One()) if (c.mine(i)) { Decomp(x, nullptr); Decomp(-x, nullptr); }
    }
  }
  void Decomp(const F& x, const Pt<F>* p) {
    mpz_class q = Mod<F>(), X0 = Big(x), rhs = (X0 * X0 * X0 + Big(g.a) * X0 + Big(g.b)) % q; bool ok = mpz_legendre(rhs.get_mpz_t(), q.get_mpz_t()) >= 0;
    for (bool odd : {false, true}) { One<A>(x, odd, ok, p); One<P>(x, odd, ok, p); One<J>(x, odd, ok, p); One<X>(x, odd, ok, p); }
  }
  template <typename T> void One(const F& x, bool odd, bool ok, const Pt<F>* p) {
    mc::at("from_x"); c.step(); c.states(1); std::string w = x.ToString() + (odd ? " odd" : " even");
    auto o = T::CreateFromX(x, odd); T t = T::Zero(); bool got = C::GetPointFromX(x, odd, &t);
    MC_CHECK(c, got == ok && o.has_value() == ok, "from_x_exists", w);
    if (!got || !o || !ok) return;
    auto a = Read(*o);
    MC_CHECK(c, !a.inf && a.x == x && g.on(a.x, a.y) && (Big(a.y) == 0 || mpz_odd_p(Big(a.y).get_mpz_t()) == odd) && Read(t) == a, "from_x_point", w);
    if (p) MC_CHECK(c, a.y == p->y || a.y == F::Zero() - p->y, "from_x_same", w);
  }
};
}  // namespace
MC_SECTION(bn254_g1, 2) { Real<bn254::G1Curve, true>{c}.Run(); }
MC_SECTION(bn254_g2, 4) { Real<bn254::G2Curve, true>{c}.Run(); }
MC_SECTION(bls12_381_g1, 2) { Real<bls12_381::G1Curve, true>{c}.Run(); }
MC_SECTION(bls12_381_g2, 4) { Real<bls12_381::G2Curve, true>{c}.Run(); }
MC_SECTION(pallas, 2) { Real<pallas::Curve, false>{c}.Run(); }
MC_SECTION(vesta, 2) { Real<vesta::Curve, false>{c}.Run(); }
MC_SECTION(secp256k1, 2) { Real<secp256k1::Curve, false>{c}.Run(); }
