// C18: point batches, multi-scalar multiplication, pairings.
#include "mc/c18.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
#include "tachyon/math/geometry/point_conversions.h"

namespace {
using namespace tachyon::math;
using c18::Op; using c18::Str;
#define ADD(name, ...) ops.push_back({std::string(tag) + " " + name, [=]() -> std::string { __VA_ARGS__ }})
using Fr = bn254::Fr;
using AP = bn254::G1AffinePoint; using PP = bn254::G1ProjectivePoint; using JP = bn254::G1JacobianPoint; using XP = bn254::G1PointXYZZ;
template <typename P> P Mul(uint64_t k) { P g = P::Generator(), r = P::Zero(); for (; k; k >>= 1, g = P(g.Double())) if (k & 1) r += g; return r; }
template <> AP Mul(uint64_t k) { return Mul<JP>(k).ToAffine(); }
template <typename P> std::vector<P> Points(size_t n) { std::vector<P> v; for (size_t i = 0; i < n; ++i) v.push_back(i == 2 ? P::Zero() : Mul<P>(i * i + 3)); return v; }
std::vector<Fr> Scalars(size_t n) { std::vector<Fr> v; Fr x(7u); for (size_t i = 0; i < n; ++i) { v.push_back(i == 1 ? Fr::Zero() : x); x = x * x + Fr(uint32_t(i)); } return v; }
template <typename P> void PointOps(std::vector<Op>& ops, const char* tag) {
  for (size_t n : {1, 2, 5, 9}) {
    const std::string N = " (" + std::to_string(n) + ")"; auto v = Points<P>(n);
    ADD("BatchNormalize" + N, std::vector<AP> o(n); if (!P::BatchNormalize(v, &o)) return "failed"; return Str(o););
    ADD("ConvertPoints" + N, std::vector<AP> o(n); if (!ConvertPoints(v, &o)) return "failed"; return Str(o););
  }
  for (size_t n : {1, 3, 6}) {
    const std::string N = " (" + std::to_string(n) + ")"; auto v = Points<P>(n); auto s = Scalars(n);
    for (bool naf : {false, true}) ADD("Pippenger" + N + (naf ? " naf" : ""), Pippenger<P> p; p.SetUseMSMWindowNAForTesting(naf); p.SetParallelWindows(true); typename Pippenger<P>::Bucket r; if (!p.Run(v.begin(), v.end(), s.begin(), s.end(), &r)) return "failed"; return r.ToAffine().ToString(););
    for (auto st : {PippengerParallelStrategy::kNone, PippengerParallelStrategy::kParallelWindow, PippengerParallelStrategy::kParallelTerm, PippengerParallelStrategy::kParallelWindowAndTerm})
      ADD("PippengerAdapter" + N + " strategy " + std::to_string(int(st)), int t = omc::g_threads; PippengerAdapter<P> p; typename Pippenger<P>::Bucket r; bool ok = p.RunWithStrategy(v.begin(), v.end(), s.begin(), s.end(), st, &r); omc::set_threads(t); return ok ? r.ToAffine().ToString() : "failed";);
    ADD("VariableBaseMSM" + N, int t = omc::g_threads; VariableBaseMSM<P> p; typename Pippenger<P>::Bucket r; bool ok = p.Run(v, s, &r); omc::set_threads(t); return ok ? r.ToAffine().ToString() : "failed";);
    ADD("FixedBaseMSM" + N, FixedBaseMSM<P> f; f.Reset(n, v[0]); std::vector<typename FixedBaseMSM<P>::AddResult> o(n); if (!f.Run(s, &o)) return "failed"; std::string r; for (auto& x : o) { if constexpr (std::is_same_v<typename FixedBaseMSM<P>::AddResult, AP>) r += x.ToString(); else r += x.ToAffine().ToString(); } return r;);
  }
}
#if PART == 0
MC_SECTION(points, 8) {
  bn254::G1Curve::Init();
  std::vector<Op> ops;
  PointOps<PP>(ops, "projective"); PointOps<JP>(ops, "jacobian"); PointOps<XP>(ops, "xyzz");
  c18::Run(c, ops, 60);
}
MC_SECTION(affine, 8) {
  bn254::G1Curve::Init();
  std::vector<Op> ops; const char* tag = "affine";
  for (size_t n : {1, 3, 6}) {
    const std::string N = " (" + std::to_string(n) + ")"; auto v = Points<AP>(n); auto s = Scalars(n);
    for (auto st : {PippengerParallelStrategy::kParallelWindow, PippengerParallelStrategy::kParallelTerm, PippengerParallelStrategy::kParallelWindowAndTerm})
      ADD("PippengerAdapter" + N + " strategy " + std::to_string(int(st)), int t = omc::g_threads; PippengerAdapter<AP> p; typename Pippenger<AP>::Bucket r; bool ok = p.RunWithStrategy(v.begin(), v.end(), s.begin(), s.end(), st, &r); omc::set_threads(t); return ok ? r.ToAffine().ToString() : "failed";);
    ADD("FixedBaseMSM" + N, FixedBaseMSM<AP> f; f.Reset(n, v[0]); std::vector<typename FixedBaseMSM<AP>::AddResult> o(n); if (!f.Run(s, &o)) return "failed"; std::string r; for (auto& x : o) r += x.ToAffine().ToString(); return r;);
    ADD("BatchMapToJacobian" + N, std::vector<JP> o(n); if (!ConvertPoints(v, &o)) return "failed"; std::string r; for (auto& x : o) r += x.ToAffine().ToString(); return r;);
    ADD("BatchMapToXYZZ" + N, std::vector<XP> o(n); if (!ConvertPoints(v, &o)) return "failed"; std::string r; for (auto& x : o) r += x.ToAffine().ToString(); return r;);
    ADD("MultiScalarMul" + N, std::vector<JP> o(n), q(n); if (!AP::MultiScalarMul(s, v, &o) || !AP::MultiScalarMul(s, v[0], &q)) return "failed"; std::string r; for (auto& x : o) r += x.ToAffine().ToString(); for (auto& x : q) r += x.ToAffine().ToString(); return r;);
  }
  c18::Run(c, ops, 60);
}
#else
template <typename C> void PairingOps(std::vector<Op>& ops, const char* tag) {
  using G1 = typename C::G1Curve::AffinePoint; using G2 = typename C::G2Curve::AffinePoint;
  for (size_t n : {1, 5, 9}) {
    const std::string N = " (" + std::to_string(n) + ")"; std::vector<G1> a; std::vector<G2> b;
    for (size_t i = 0; i < n; ++i) { auto g = G1::Generator().ToJacobian(); auto h = G2::Generator().ToJacobian(); for (size_t k = 0; k < i; ++k) { g.DoubleInPlace(); h += G2::Generator(); } a.push_back(g.ToAffine()); b.push_back(h.ToAffine()); }
    ADD("Pairing" + N, return Pairing<C>(a, b).ToString(););
  }
}
MC_SECTION(pairings, 6) {
  bn254::BN254Curve::Init(); bls12_381::BLS12_381Curve::Init();
  std::vector<Op> ops;
  PairingOps<bn254::BN254Curve>(ops, "bn254"); PairingOps<bls12_381::BLS12_381Curve>(ops, "bls12_381");
  c18::Run(c, ops, 12);
}
#endif
}  // namespace
