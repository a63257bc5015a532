// C02: serialization of fields, points, polynomials, matrices and hash / commitment types.
#include <gmpxx.h>
#include "mc/c02_common.h"
#include "mc/ext/m13_2.h"
#include "mc/ext/m13_3.h"
#include "mc/ext/m13_4.h"
#include "mc/ext/m7_12.h"
#include "mc/fields/l127.h"
#include "mc/fields/l192.h"
#include "mc/fields/l63.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m13.h"
#include "mc/fields/m2147483629.h"
#include "mc/fields/m7.h"
#include "mc/fields/p7.h"
#include "mc/fields/x33.h"
#include "mc/fields/x64.h"
#include "mc/mccurve.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier_msg.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"

namespace {
using namespace c02;
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::math::mcf;

template <typename T> std::string Sh(const T& v) {
  if constexpr (std::is_class_v<T>) return "value";
  else return std::to_string(v);
}
template <typename T> void All(mc::Ctx& c, const char* name, const std::vector<T>& vs, bool corrupt = true) {
  for (size_t i = 0; i < vs.size(); ++i) if (c.mine(i))
    Check<T>(c, vs[i], vs[(i + 1) % vs.size()], [](const T& a, const T& b) { return a == b; },
             [&](const T& x) { for (size_t j = 0; j < vs.size(); ++j) if (vs[j] == x) return std::string(name) + " #" + std::to_string(j); return std::string(name) + " (other)"; }, true, corrupt);
}
// ---- big integers
template <size_t N> void Big(mc::Ctx& c) {
  std::vector<BigInt<N>> v; mc::tuples(N > 4 ? 4 : N, 3, [&](const std::vector<int>& t) { BigInt<N> b; for (size_t i = 0; i < N; ++i) b[i] = (uint64_t[]){0, 0x0123456789abcdef, ~0ull}[t[i % t.size()]]; v.push_back(b); });
  All(c, "BigInt", v);
}
MC_SECTION(big_ints, 2) { Big<1>(c); Big<2>(c); Big<4>(c); Big<6>(c); Big<9>(c); }

#if PART == 1
// ---- prime fields: values around 0, p and limb boundaries
template <typename F> std::vector<F> FieldValues() { std::vector<F> v{F::Zero(), F::One(), -F::One()}; F x = F(3); for (int i = 0; i < 12; ++i) { v.push_back(x); x = x * x + F(5); } return v; }
template <typename F> auto RawModulus() { if constexpr (F::Config::kModulusBits <= 32) return uint32_t(F::Config::kModulus); else return typename F::BigIntTy(F::Config::kModulus); }
template <typename F> void Prime(mc::Ctx& c, const char* name) {
  F::Init();
  for (bool mont : {false, true}) {
    Copyable<F>::s_is_in_montgomery = mont;
    std::string n = std::string(name) + (mont ? " in Montgomery form" : "");
    All(c, n.c_str(), FieldValues<F>());
    // The encoding of the canonical form is the little endian integer; every raw
    // value from the modulus up is rejected or reduced, never kept as it is.
    if (c.mine(0)) {
      size_t nb = EstimateSize(F::Zero());
      auto raw = [&](const mpz_class& z) { std::vector<uint8_t> b(nb); mpz_class q = z; for (auto& x : b) { x = (uint8_t)mpz_class(q & 255).get_ui(); q >>= 8; } return b; };
      mpz_class p = 0, top = mpz_class(1) << (8 * nb);
      { auto m = RawModulus<F>(); if constexpr (F::Config::kModulusBits <= 32) p = (unsigned long)m; else for (size_t i = F::BigIntTy::kLimbNums; i-- > 0;) p = (p << 64) + mpz_class((unsigned long)m[i]); }
      std::vector<mpz_class> zs{0, 1, 2, p - 1, p, p + 1, p + 2, 2 * p - 1, 2 * p, 2 * p + 1, top - 1, top - 2, top / 2, top / 2 + 1, top - p};
      for (unsigned i = 0; i < 8 * nb; ++i) zs.push_back(mpz_class(1) << i);
      for (auto& z : zs) if (z >= 0 && z < top) {
        auto b = raw(z); ReadOnlyBuffer r(b.data(), nb); F x = F::One(); bool o = r.Read(&x); c.states(1); c.step(1);
        auto d = [&] { return n + " raw value " + z.get_str() + " modulus " + p.get_str(); };
        if (z < p) MC_CHECK(c, o, "canonical-rejected", d());
        if (!o) continue;
        bool w; auto e = Enc(x, Endian::kNative, &w); auto want = raw(z % p);
        if (!mont) MC_CHECK(c, w && e == want, "canonical", d() << " accepted as a non-canonical or different element");
        else { auto y = x.value(); std::vector<uint8_t> yb((uint8_t*)&y, (uint8_t*)&y + nb); mpz_class yz = 0; for (size_t i = nb; i-- > 0;) yz = yz * 256 + yb[i]; MC_CHECK(c, yz < p, "canonical", d() << " accepted as a non-canonical element"); if (z < p) MC_CHECK(c, w && e == b, "canonical", d()); }
      }
    }
  }
  Copyable<F>::s_is_in_montgomery = false;
}
MC_SECTION(fields_small, 4) { Prime<M7>(c, "M7"); Prime<P7>(c, "P7"); Prime<M12289>(c, "M12289"); Prime<M2147483629>(c, "M2147483629"); Prime<BabyBear>(c, "BabyBear"); Prime<Mersenne31>(c, "Mersenne31"); }
MC_SECTION(fields_large, 4) { Prime<X33>(c, "X33"); Prime<X64>(c, "X64"); Prime<L63>(c, "L63"); Prime<L127>(c, "L127"); Prime<L192>(c, "L192"); Prime<bn254::Fr>(c, "bn254::Fr"); Prime<Goldilocks>(c, "Goldilocks"); }
template <typename F> F Elem(uint32_t& seed) {
  if constexpr (FiniteFieldTraits<F>::kIsPrimeField) { seed = seed * 1103515245 + 12345; return F((seed >> 8) % 7) * F((seed >> 16) % 5) + F(seed % 3); }
  else { using B = typename F::BaseField; B x = Elem<B>(seed), y = Elem<B>(seed); if constexpr (std::is_constructible_v<F, B, B>) return F(x, y); else { B z = Elem<B>(seed); return F(x, y, z); } }
}
template <typename F> std::vector<F> Towers() { std::vector<F> v{F::Zero(), F::One(), -F::One()}; uint32_t seed = 1; for (int i = 0; i < 8; ++i) v.push_back(Elem<F>(seed)); return v; }
MC_SECTION(extension_fields, 2) {
  M13_2::Init(); std::vector<M13_2> a; mc::tuples(2, 4, [&](const std::vector<int>& t) { a.push_back(M13_2(M13(t[0] * 4), M13(t[1] * 3 + 1))); }); All(c, "M13_2", a);
  M13_3::Init(); std::vector<M13_3> b; mc::tuples(3, 3, [&](const std::vector<int>& t) { b.push_back(M13_3(M13(t[0] * 4), M13(t[1] * 3 + 1), M13(t[2] * 6))); }); All(c, "M13_3", b);
  M13_4::Init(); std::vector<M13_4> d; mc::tuples(4, 2, [&](const std::vector<int>& t) { d.push_back(M13_4(M13(t[0] * 4), M13(t[1] * 3 + 1), M13(t[2] * 6 + 2), M13(t[3] * 12))); }); All(c, "M13_4", d);
  M7_12::Init(); All(c, "M7_12", Towers<M7_12>());
  bn254::Fq2::Init(); All(c, "bn254::Fq2", Towers<bn254::Fq2>());
}
#endif
#if PART == 2
// ---- points
using Cur7 = SWCurve<mccurve::Cfg<M13, M7, false>>;
template <typename P> void Small(mc::Ctx& c, const char* n) { auto el = mccurve::Elements<M13>(13); auto g = mccurve::Make<M13>(M13(1), M13(3), el); std::vector<M13> zs(el.begin() + 1, el.begin() + 4); std::vector<P> v; for (auto& p : g.pts) for (auto& r : mccurve::Reps<P, M13>(p, zs)) v.push_back(r);
  for (size_t i = 0; i < v.size(); ++i) if (c.mine(i)) Check<P>(c, v[i], v[(i + 1) % v.size()], [](const P& a, const P& b) { if constexpr (std::is_same_v<P, AffinePoint<Cur7>>) return a == b; else if constexpr (std::is_same_v<P, PointXYZZ<Cur7>>) return a.x() == b.x() && a.y() == b.y() && a.zz() == b.zz() && a.zzz() == b.zzz(); else return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }, [&](const P& p) { return std::string(n) + " " + p.ToString(); }); }
template <typename P> void Big4(mc::Ctx& c, const char* n) { std::vector<P> v{P::Zero(), P::Generator()}; for (int i = 0; i < 4; ++i) { if constexpr (std::is_same_v<P, AffinePoint<typename P::Curve>>) v.push_back((v.back() + P::Generator()).ToAffine()); else v.push_back(v.back() + P::Generator()); } All(c, n, v, c.thorough); }
MC_SECTION(points, 4) {
  M13::Init(); M7::Init();
  Small<AffinePoint<Cur7>>(c, "affine"); Small<ProjectivePoint<Cur7>>(c, "projective"); Small<JacobianPoint<Cur7>>(c, "jacobian"); Small<PointXYZZ<Cur7>>(c, "xyzz");
  bn254::G1Curve::Init(); bn254::G2Curve::Init();
  Big4<bn254::G1AffinePoint>(c, "bn254 G1 affine"); Big4<bn254::G1ProjectivePoint>(c, "bn254 G1 projective"); Big4<bn254::G1JacobianPoint>(c, "bn254 G1 jacobian"); Big4<bn254::G1PointXYZZ>(c, "bn254 G1 xyzz"); Big4<bn254::G2AffinePoint>(c, "bn254 G2 affine"); Big4<bn254::G2JacobianPoint>(c, "bn254 G2 jacobian");
}
MC_SECTION(geometry, 1) {
  std::vector<Point2<M7>> a; std::vector<Point3<L63>> b; M7::Init(); L63::Init(); std::vector<Point4<M13>> d; std::vector<Dimensions> e; M13::Init();
  mc::tuples(4, 3, [&](const std::vector<int>& t) { a.push_back({M7(t[0]), M7(t[1] * 3)}); b.push_back({L63(t[0]), -L63(t[1]), L63(t[2]).Double() + L63(99)}); d.push_back({M13(t[0]), M13(t[1] * 3), M13(t[2] * 4), M13(12 - t[3])}); e.push_back({t[0] * 3, t[1] * 100000}); });
  All(c, "Point2", a); All(c, "Point3", b); All(c, "Point4", d); All(c, "Dimensions", e);
}
#endif
#if PART == 3
// ---- polynomials
template <typename F, typename Fn> void Lists(int maxn, int k, Fn fn) { std::vector<F> al; for (int i = 0; i < k; ++i) al.push_back(F(i * 5)); for (int n = 0; n <= maxn; ++n) mc::tuples(n, k, [&](const std::vector<int>& t) { std::vector<F> v; for (int i : t) v.push_back(al[i]); fn(v); }); }
template <typename F> void Univariate(mc::Ctx& c) {
  F::Init();
  using DC = UnivariateDenseCoefficients<F, 5>; using DP = UnivariatePolynomial<DC>; using SC = UnivariateSparseCoefficients<F, 9>; using SP = UnivariatePolynomial<SC>; using Ev = UnivariateEvaluations<F, 5>;
  std::vector<DC> dc; std::vector<DP> dp; std::vector<Ev> ev; std::vector<SC> sc; std::vector<SP> sp; std::vector<UnivariateTerm<F>> te;
  Lists<F>(3, 3, [&](std::vector<F> v) { if (!v.empty()) ev.push_back(Ev(v)); if (!v.empty() && v.back().IsZero()) return; dc.push_back(DC(v)); dp.push_back(DP(DC(v))); });
  Lists<F>(3, 3, [&](std::vector<F> v) { std::vector<UnivariateTerm<F>> ts; for (size_t i = 0; i < v.size(); ++i) { if (v[i].IsZero()) return; ts.push_back({i * 3 + 1, v[i]}); } for (auto& t : ts) te.push_back(t); sc.push_back(SC(ts)); sp.push_back(SP(SC(ts))); });
  All(c, "dense coefficients", dc); All(c, "dense polynomial", dp); All(c, "evaluations", ev); All(c, "term", te); All(c, "sparse coefficients", sc); All(c, "sparse polynomial", sp);
  // Encodings of polynomials above the degree bound of the reader are refused.
  for (size_t n = 1; n <= 9; ++n) {
    c.states(1); c.trace(1); std::vector<F> v(n, F(3)); bool ok; auto d = [&] { return "polynomial of degree " + std::to_string(n - 1) + " read with a bound of 5"; };
    auto b = Enc(v, Endian::kNative, &ok); ReadOnlyBuffer r(b.data(), b.size()); DC x; Ev y; DP z; bool o1 = false, o2 = false, o3 = false;
    bool dead = mc::dies([&] { ReadOnlyBuffer q(b.data(), b.size()); DC t; Ev u; (void)q.Read(&t); q.set_buffer_offset(0); (void)q.Read(&u); });
    MC_CHECK(c, !dead, "degree-abort", d()); if (dead) continue;
    o1 = r.Read(&x); r.set_buffer_offset(0); o2 = r.Read(&y); r.set_buffer_offset(0); o3 = r.Read(&z);
    MC_CHECK(c, o1 == (n <= 6) && o3 == (n <= 6), "degree-bound", d()); MC_CHECK(c, o2 == (n <= 6), "degree-bound-evaluations", d()); c.step(3);
    std::vector<UnivariateTerm<F>> ts{{0, F(1)}, {n * 2, F(2)}}; auto bs = Enc(ts, Endian::kNative, &ok);
    dead = mc::dies([&] { ReadOnlyBuffer q(bs.data(), bs.size()); SC t; (void)q.Read(&t); });
    MC_CHECK(c, !dead, "degree-abort", "sparse " << d()); if (dead) continue;
    ReadOnlyBuffer q(bs.data(), bs.size()); SC t; bool o = q.Read(&t); MC_CHECK(c, o == (n * 2 <= 9), "degree-bound", "sparse " << d()); c.step(1);
  }
}
MC_SECTION(univariate, 4) { Univariate<M7>(c); Univariate<L127>(c); }
MC_SECTION(multivariate, 2) {
  L63::Init(); using F = L63; using De = MultilinearDenseEvaluations<F, 4>; using ME = MultilinearExtension<De>;
  std::vector<De> de; std::vector<ME> me; std::vector<LinearCombinationTerm<F>> lt;
  for (int n : {0, 1, 2, 4}) mc::tuples(n, 3, [&](const std::vector<int>& t) { std::vector<F> v; for (int i : t) v.push_back(F(i * 7)); de.push_back(De(v)); me.push_back(ME(De(v))); std::vector<size_t> ix; for (int i : t) ix.push_back(i * 3); lt.push_back({F(n + 2), ix}); });
  All(c, "multilinear evaluations", de); All(c, "multilinear extension", me); All(c, "linear combination term", lt);
  using crypto::SumcheckProverMsg; using crypto::SumcheckVerifierMsg; using crypto::SumcheckVerifyingKey; using crypto::SumcheckProvingKey;
  std::vector<SumcheckProverMsg<F, 3>> pm; std::vector<SumcheckVerifierMsg<F>> vm; std::vector<SumcheckVerifyingKey> vk; std::vector<SumcheckProvingKey<ME>> pk;
  for (size_t i = 1; i < 4; ++i) { pm.push_back({UnivariateEvaluations<F, 3>(std::vector<F>(i, F(i + 4)))}); vm.push_back({F(i * 9)}); vk.push_back({i, ~i}); pk.push_back({vk.back(), std::vector<LinearCombinationTerm<F>>(lt.begin() + i, lt.begin() + 2 * i), std::vector<ME>(me.begin() + 3, me.begin() + 3 + i)}); }
  All(c, "prover message", pm); All(c, "verifier message", vm); All(c, "verifying key", vk); All(c, "proving key", pk);
}
#endif
#if PART == 4
// ---- matrices: every shape up to 3x3 in both storage orders; static shapes refuse other shapes
template <typename F, int Opt> void Mats(mc::Ctx& c) {
  using M = Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic, Opt>; std::vector<M> ms;
  for (int r = 0; r <= 3; ++r) for (int k = 0; k <= 3; ++k) { M m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = F(i * 3 + j + 1); ms.push_back(m); }
  for (size_t i = 0; i < ms.size(); ++i) if (c.mine(i)) Check<M>(c, ms[i], ms[(i + 5) % ms.size()], [](const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); }, [](const M& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " matrix"; });
  using S = Eigen::Matrix<F, 2, 3, Opt>; using RV = Eigen::Matrix<F, 1, Eigen::Dynamic>; using CV = Eigen::Matrix<F, Eigen::Dynamic, 1>;
  for (auto& m : ms) { c.states(1); c.step(3); bool ok; auto b = Enc(m, Endian::kNative, &ok); ReadOnlyBuffer r(b.data(), b.size()); auto d = [&] { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " matrix"; };
    S s; bool o = r.Read(&s); MC_CHECK(c, o == (m.rows() == 2 && m.cols() == 3), "static-shape", d()); if (o && m.rows() == 2 && m.cols() == 3) MC_CHECK(c, s == m, "static-value", d());
    r.set_buffer_offset(0); CV cv; o = r.Read(&cv); MC_CHECK(c, o == (m.cols() == 1), "static-cols", d()); if (o && m.cols() == 1) MC_CHECK(c, cv == m, "static-value", d());
    r.set_buffer_offset(0); RV rv; o = r.Read(&rv); MC_CHECK(c, o == (m.rows() == 1), "static-rows", d()); if (o && m.rows() == 1) MC_CHECK(c, rv == m, "static-value", d()); }
  using D = Eigen::DiagonalMatrix<F, Eigen::Dynamic>; std::vector<D> ds; for (int n = 1; n <= 4; ++n) { CV v(n); for (int i = 0; i < n; ++i) v[i] = F(2 * i + 3); ds.push_back(D(v)); }
  for (size_t i = 0; i < ds.size(); ++i) if (c.mine(i)) Check<D>(c, ds[i], ds[(i + 1) % ds.size()], [](const D& a, const D& b) { return a.diagonal().size() == b.diagonal().size() && a.diagonal() == b.diagonal(); }, [](const D& m) { return "diagonal matrix of " + std::to_string(m.rows()); });
  for (auto& m : ms) if (m.size()) { Eigen::Map<M> mp(const_cast<F*>(m.data()), m.rows(), m.cols()); Uint8VectorBuffer w; bool o = w.Write(mp), ok; MC_CHECK(c, o && w.owned_buffer() == Enc(m, Endian::kNative, &ok), "map", "map of a matrix"); MC_CHECK(c, EstimateSize(mp) == w.owned_buffer().size(), "map-estimate", "map of a matrix"); }
}
MC_SECTION(matrices, 4) { M7::Init(); L127::Init(); Mats<M7, Eigen::ColMajor>(c); Mats<M7, Eigen::RowMajor>(c); Mats<L127, Eigen::RowMajor>(c); X33::Init(); Mats<X33, Eigen::RowMajor>(c); Mats<uint8_t, Eigen::RowMajor>(c); }
#endif
#if PART == 5
// ---- sponges: the permutation computed after reading is the one written
template <typename Sp> void Sponge(mc::Ctx& c, const char* n, const Sp& s, const Sp& dirty) {
  using P = typename Sp::Params; using F = typename P::Field;
  auto perm = [](const Sp& x) { crypto::SpongeState<P> st; for (size_t i = 0; i < P::kWidth; ++i) st.elements[i] = F(i * i + 1); x.Permute(st); return st; };
  auto ref = perm(s);
  Check<Sp>(c, s, dirty, [&](const Sp& a, const Sp& b) { if (!(a == b)) return false; return true; }, [&](const Sp&) { return std::string(n); }, true, false);
  for (Endian e : kEndians) { bool ok; auto b = Enc(s, e, &ok); ReadOnlyBuffer r(b.data(), b.size()); r.set_endian(e); Sp t = dirty; bool o = r.Read(&t); bool dead = mc::dies([&] { (void)perm(t); }); MC_CHECK(c, o && ok && !dead, "sponge-usable", n); if (dead || !o) continue; MC_CHECK(c, perm(t) == ref, "sponge-permutation", n << " permutes differently after reading"); c.step(1); c.trace(1); }
  auto st = perm(s); std::vector<crypto::SpongeState<P>> ss; for (size_t i = 0; i < 3; ++i) { st.mode = i ? crypto::DuplexSpongeMode::Squeezing(i) : crypto::DuplexSpongeMode::Absorbing(3); ss.push_back(st); } All(c, "sponge state", ss);
}
MC_SECTION(poseidon, 1) {
  using P1 = crypto::BN254PoseidonParams5; bn254::Fr::Init(); auto cfg = crypto::PoseidonConfig<P1>::Create(0); auto cfg2 = cfg; cfg2.ark(0, 0) += bn254::Fr::One();
  Sponge(c, "Poseidon over bn254", crypto::PoseidonSponge<P1>(std::move(cfg)), crypto::PoseidonSponge<P1>(std::move(cfg2)));
}
template <typename P> void P2(mc::Ctx& c, const char* n) { using F = typename P::Field; F::Init(); auto a = crypto::Poseidon2Config<P>::CreateDefault(); auto b = a; b.ark(0, 0) += F::One(); if (b.internal_diagonal_minus_one.size()) b.internal_diagonal_minus_one[0] += F::One(); Sponge(c, n, crypto::Poseidon2Sponge<P>(a), crypto::Poseidon2Sponge<P>(b));
  crypto::Poseidon2Config<P> empty; Sponge(c, n, crypto::Poseidon2Sponge<P>(a), crypto::Poseidon2Sponge<P>(empty)); }
MC_SECTION(poseidon2, 3) {
  using V = crypto::Poseidon2Vendor;
  if (c.mine(0)) P2<crypto::Poseidon2Params<V::kPlonky3, V::kPlonky3, BabyBear, 15, 7>>(c, "Poseidon2 over BabyBear with shifts");
  if (c.mine(1)) P2<crypto::Poseidon2Params<V::kHorizen, V::kHorizen, BabyBear, 15, 7>>(c, "Poseidon2 over BabyBear with a diagonal");
  if (c.mine(2)) P2<crypto::Poseidon2Params<V::kHorizen, V::kPlonky3, Goldilocks, 7, 7>>(c, "Poseidon2 over Goldilocks");
}
#endif
#if PART == 2
MC_SECTION(misc, 1) {
  std::vector<crypto::DuplexSpongeMode> m{crypto::DuplexSpongeMode::Absorbing(), crypto::DuplexSpongeMode::Absorbing(~size_t(0)), crypto::DuplexSpongeMode::Squeezing(1), crypto::DuplexSpongeMode::Squeezing(0x0102030405060708)}; All(c, "duplex sponge mode", m);
  bn254::G1Curve::Init(); using Pt = bn254::G1JacobianPoint; using Ped = crypto::Pedersen<Pt, 4, Pt>; std::vector<Pt> g{Pt::Generator()}; for (int i = 0; i < 3; ++i) g.push_back(g.back() + g.back());
  for (size_t n = 0; n <= 3; ++n) { Ped p(g[3], std::vector<Pt>(g.begin(), g.begin() + n)), q(g[0], std::vector<Pt>(g.begin(), g.begin() + 1)); Check<Ped>(c, p, q, [](const Ped& a, const Ped& b) { return a.h() == b.h() && a.generators() == b.generators(); }, [&](const Ped&) { return "Pedersen parameters of " + std::to_string(n); }, true, false); }
  std::vector<crypto::SparseMDSMatrix<M7>> sm; M7::Init(); for (int i = 0; i < 3; ++i) { Vector<M7> r(i + 1), h(i); for (int j = 0; j <= i; ++j) r[j] = M7(j + 1); for (int j = 0; j < i; ++j) h[j] = M7(6 - j); sm.push_back({r, h}); }
  for (size_t i = 0; i < sm.size(); ++i) Check<crypto::SparseMDSMatrix<M7>>(c, sm[i], sm[(i + 1) % 3], [](auto& a, auto& b) { return a.row() == b.row() && a.col_hat() == b.col_hat(); }, [](auto&) { return std::string("sparse MDS matrix"); });
}
#endif
}  // namespace
