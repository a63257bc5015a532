// C24: Groth16 on a pairing-friendly curve whose groups have 97 elements. All
// discrete logarithms are known, so keys, proofs and the verifier's decision
// are compared with the equations in the exponents.
#include "mc/mc.h"
#include "mc/pair/bn1f.h"
#include "mc/two.h"
MC_TWO(mcp::bn1f::Fr)
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
namespace tachyon::math {
// The field has no mixed-radix subgroup.
template <> class UnivariateEvaluationDomainFactory<mcp::bn1f::Fr, 31> {
 public:
  static std::unique_ptr<UnivariateEvaluationDomain<mcp::bn1f::Fr, 31>> Create(size_t n) { return Radix2EvaluationDomain<mcp::bn1f::Fr, 31>::Create(n); }
};
}  // namespace tachyon::math
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#include "tachyon/zk/r1cs/groth16/prove.h"
#include "tachyon/zk/r1cs/groth16/verify.h"

namespace {
using namespace tachyon;
using namespace tachyon::zk::r1cs;
namespace g = tachyon::zk::r1cs::groth16;
const bool quiet = (FLAGS_minloglevel = 3, true);
using Curve = math::mcp::bn1f::SmallCurve;
using F = math::mcp::bn1f::Fr;
using A1 = Curve::G1Curve::AffinePoint; using A2 = Curve::G2Curve::AffinePoint;
constexpr size_t kMax = 31; constexpr int kP = 97;
F V(int64_t v) { v %= kP; return F(static_cast<uint32_t>(v < 0 ? v + kP : v)); }
int I(const F& f) { return int(f.ToBigInt()[0]); }
F Pow(const F& b, size_t e) { F r = F::One(); while (e--) r *= b; return r; }
std::vector<A1> g1; std::vector<A2> g2;
int Log(const A1& p) { for (int i = 0; i < kP; ++i) if (g1[size_t(i)] == p) return i; return -1; }
int Log(const A2& p) { for (int i = 0; i < kP; ++i) if (g2[size_t(i)] == p) return i; return -1; }
void Init() {
  Curve::Init(); if (!g1.empty()) return;
  auto p = A1::Zero().ToJacobian(); auto q = A2::Zero().ToJacobian(); for (int i = 0; i < kP; ++i) { g1.push_back(p.ToAffine()); g2.push_back(q.ToAffine()); p += A1::Generator(); q += A2::Generator(); }
  if (!p.IsZero() || !q.IsZero()) std::abort();
}
// x of the setup: chosen, so that every one can be visited.
F g_x;
struct Q {
  using R = QuadraticArithmeticProgram<F>;
  template <typename D> static QAPInstanceMapResult<F> InstanceMap(const D* d, const ConstraintSystem<F>& cs, const F&) { return R::InstanceMap(d, cs, g_x); }
  template <typename D> static QAPWitnessMapResult<F> WitnessMap(const D* d, const ConstraintSystem<F>& cs) { return R::WitnessMap(d, cs); }
  template <typename D> static std::vector<F> ComputeHQuery(const D* d, const F& t, const F&, const F& di) { return R::ComputeHQuery(d, t, g_x, di); }
};
using Lc = std::vector<int>;  // dense: one, inputs, witnesses
struct Spec { int inst, wit; std::vector<std::array<Lc, 3>> ks; };
struct Circ : Circuit<F> {
  const Spec& s; std::vector<F> z;
  Circ(const Spec& s, std::vector<F> z) : s(s), z(std::move(z)) {}
  void Synthesize(ConstraintSystem<F>& cs) const override {
    std::vector<Variable> v{cs.CreateOne()}; size_t at = 1; for (int i = 0; i < s.inst; ++i, ++at) v.push_back(cs.CreateInstanceVariable([this, at]() { return z[at]; })); for (int i = 0; i < s.wit; ++i, ++at) v.push_back(cs.CreateWitnessVariable([this, at]() { return z[at]; }));
    auto lc = [&](const Lc& l) { std::vector<Term<F>> t; for (size_t i = 0; i < l.size(); ++i) if (l[i]) t.push_back(Term<F>(V(l[i]), v[i])); return LinearCombination<F>(t); };
    for (auto& k : s.ks) cs.EnforceConstraint(lc(k[0]), lc(k[1]), lc(k[2]));
  }
  std::vector<F> GetPublicInputs() const { return {z.begin() + 1, z.begin() + 1 + s.inst}; }
};
std::string Text(const Spec& s) { std::string o = std::to_string(s.inst) + " inputs " + std::to_string(s.wit) + " witnesses:"; auto one = [&](const Lc& l) { o += "("; for (int x : l) o += std::to_string(x) + " "; o += ")"; }; for (auto& k : s.ks) { o += " "; one(k[0]); one(k[1]); one(k[2]); } return o; }
struct Waste { F a, b, gm, d, x; };
struct Ref {  // the key in the exponents
  size_t size = 1; F t, hq; std::array<std::vector<F>, 3> q; std::vector<F> l_pub, l_wit;
  Ref(const Spec& s, const Waste& w) {
    size_t n = s.ks.size(), need = n + 1 + size_t(s.inst), vars = size_t(1 + s.inst + s.wit); while (size < need) size *= 2;
    F root = F::One(); if (size > 1) { std::unique_ptr<math::UnivariateEvaluationDomain<F, kMax>> d = math::Radix2EvaluationDomain<F, kMax>::Create(size); root = d->GetElement(1); }
    std::vector<F> r; for (size_t i = 0; i < size; ++i) r.push_back(Pow(root, i)); t = F::One(); for (auto& x : r) t *= w.x - x;
    for (auto& v : q) v.assign(vars, F::Zero());
    for (size_t j = 0; j < size; ++j) { F num = F::One(), den = F::One(); for (size_t k = 0; k < size; ++k) if (k != j) { num *= w.x - r[k]; den *= r[j] - r[k]; } F l = num * *den.Inverse();
      if (j < n) { for (size_t k = 0; k < 3; ++k) for (size_t v = 0; v < vars; ++v) q[k][v] += l * V(s.ks[j][k][v]); } else if (j < need) q[0][j - n] += l; }
    for (size_t v = 0; v < vars; ++v) { F e = w.b * q[0][v] + w.a * q[1][v] + q[2][v]; if (v <= size_t(s.inst)) l_pub.push_back(e * *w.gm.Inverse()); else l_wit.push_back(e * *w.d.Inverse()); }
  }
};
template <typename P> bool Logs(absl::Span<const P> pts, const std::vector<F>& want) { if (pts.size() != want.size()) return false; for (size_t i = 0; i < pts.size(); ++i) if (Log(pts[i]) != I(want[i])) return false; return true; }
// Keys, proofs of the given assignments and the verifier on all alterations.
void Decide(mc::Ctx& c, const Spec& s, const Waste& w, const std::vector<std::vector<F>>& zs, const std::vector<std::pair<int, int>>& blinds, int depth) {
  g_x = w.x; Ref ref(s, w); c.states(1);
  g::ToxicWaste<Curve> tw(w.a, w.b, w.gm, w.d, w.x, A1::Generator(), A2::Generator());
  g::ProvingKey<Curve> pk; Circ setup(s, std::vector<F>(size_t(1 + s.inst + s.wit), F::One()));
  bool loaded = pk.Load<kMax, Q>(tw, setup); MC_CHECK(c, loaded, "key", Text(s)); if (!loaded) return;
  auto& vk = pk.verifying_key();
  MC_CHECK(c, Log(vk.alpha_g1()) == I(w.a) && Log(vk.beta_g2()) == I(w.b) && Log(vk.gamma_g2()) == I(w.gm) && Log(vk.delta_g2()) == I(w.d) && Log(pk.beta_g1()) == I(w.b) && Log(pk.delta_g1()) == I(w.d), "key elements", Text(s));
  MC_CHECK(c, Logs(vk.l_g1_query(), ref.l_pub), "public query", Text(s) << " x=" << I(w.x)); MC_CHECK(c, Logs(pk.l_g1_query(), ref.l_wit), "witness query", Text(s) << " x=" << I(w.x));
  MC_CHECK(c, Logs(pk.a_g1_query(), ref.q[0]), "a query", Text(s) << " x=" << I(w.x)); MC_CHECK(c, Logs(pk.b_g1_query(), ref.q[1]) && Logs(pk.b_g2_query(), ref.q[1]), "b query", Text(s) << " x=" << I(w.x));
  std::vector<F> h; for (size_t i = 0; i + 1 < ref.size; ++i) h.push_back(Pow(w.x, i) * ref.t * *w.d.Inverse()); MC_CHECK(c, Logs(pk.h_g1_query(), h), "h query", Text(s) << " x=" << I(w.x)); c.step(8);
  { g::VerifyingKey<Curve> alone; g::ToxicWaste<Curve> t2(w.a, w.b, w.gm, w.d, w.x, A1::Generator(), A2::Generator()); MC_CHECK(c, (alone.Load<kMax, Q>(t2, setup)) && Logs(alone.l_g1_query(), ref.l_pub) && alone.alpha_g1() == vk.alpha_g1() && alone.gamma_g2() == vk.gamma_g2(), "verifying key alone", Text(s)); }
  g::PreparedVerifyingKey<Curve> pvk = vk.ToPreparedVerifyingKey();
  g::VerifyingKey<Curve> copy = vk; g::PreparedVerifyingKey<Curve> moved = std::move(copy).ToPreparedVerifyingKey(); MC_CHECK(c, moved.alpha_g1_beta_g2() == pvk.alpha_g1_beta_g2() && moved.verifying_key().delta_g2() == vk.delta_g2(), "prepared key", Text(s));
  auto holds = [&](const F& a, const F& b, const F& cc, const std::vector<F>& in) { F l = ref.l_pub[0]; for (size_t i = 0; i < in.size(); ++i) l += in[i] * ref.l_pub[i + 1]; return a * b == w.a * w.b + w.gm * l + w.d * cc; };
  auto ask = [&](const F& a, const F& b, const F& cc, const std::vector<F>& in, const char* what) {
    g::Proof<Curve> p(g1[size_t(I(a))], g2[size_t(I(b))], g1[size_t(I(cc))]); bool ok = g::VerifyProof(pvk, p, in); c.step(1);
    MC_CHECK(c, ok == holds(a, b, cc, in), what, Text(s) << ": A=" << I(a) << " B=" << I(b) << " C=" << I(cc) << " alpha=" << I(w.a) << " beta=" << I(w.b) << " gamma=" << I(w.gm) << " delta=" << I(w.d) << " x=" << I(w.x) << (ok ? " accepted" : " rejected")); return ok; };
  for (auto& z : zs) {
    bool good = true; auto dot = [&](const Lc& l) { F r = F::Zero(); for (size_t i = 0; i < l.size(); ++i) r += V(l[i]) * z[i]; return r; }; for (auto& k : s.ks) good &= dot(k[0]) * dot(k[1]) == dot(k[2]);
    Circ circuit(s, z); std::vector<F> in = circuit.GetPublicInputs(); F e[3]; for (size_t k = 0; k < 3; ++k) { e[k] = F::Zero(); for (size_t i = 0; i < z.size(); ++i) e[k] += z[i] * ref.q[k][i]; }
    for (auto& [r, sx] : blinds) {
      g::Proof<Curve> proof = g::CreateProofWithReduction<kMax, Q>(circuit, pk, V(r), V(sx)); c.step(1);
      F a = w.a + e[0] + V(r) * w.d, b = w.b + e[1] + V(sx) * w.d; MC_CHECK(c, Log(proof.a()) == I(a) && Log(proof.b()) == I(b), "proof elements", Text(s) << " r=" << r << " s=" << sx);
      F cc = V(Log(proof.c()));
      if (good) { F want = V(sx) * a + V(r) * b - V(r) * V(sx) * w.d; for (size_t i = 0; i < ref.l_wit.size(); ++i) want += z[i + 1 + size_t(s.inst)] * ref.l_wit[i]; want += (e[0] * e[1] - e[2]) * *w.d.Inverse();
        MC_CHECK(c, cc == want, "proof element C", Text(s) << " r=" << r << " s=" << sx << " x=" << I(w.x)); bool ok = ask(a, b, cc, in, "decision"); MC_CHECK(c, ok, "completeness", Text(s)); }
      else { ask(a, b, cc, in, "decision on a false statement"); }
      if (depth < 1) continue;
      // All single alterations of an element (every value of it) and of each public input.
      for (int v = 0; v < kP; ++v) { ask(V(v), b, cc, in, "altered A"); ask(a, V(v), cc, in, "altered B"); ask(a, b, V(v), in, "altered C"); for (size_t i = 0; i < in.size(); ++i) { auto t = in; t[i] = V(v); ask(a, b, cc, t, "altered input"); } }
      for (size_t n : {in.size() + 1, in.size() - 1}) { if (in.empty() && n != 1) continue; auto t = in; t.resize(n, F::One()); g::Proof<Curve> p = proof; MC_CHECK(c, !g::VerifyProof(pvk, p, t), "number of inputs", Text(s) << ": " << n); c.step(1); }
      if (good) { g::Proof<Curve> p = proof; for (int i = 0; i < 3; ++i) { p = g::ReRandomizeProof(vk, p); c.step(1); int la = Log(p.a()), lb = Log(p.b()), l = Log(p.c()); MC_CHECK(c, la >= 0 && lb >= 0 && l >= 0 && holds(V(la), V(lb), V(l), in) && g::VerifyProof(pvk, p, in), "rerandomised", Text(s)); } }
      if (depth < 2) continue;
      for (int u = 0; u < kP; ++u) for (int v = 0; v < kP; ++v) { ask(V(u), V(v), cc, in, "altered A and B"); ask(V(u), b, V(v), in, "altered A and C"); ask(a, V(u), V(v), in, "altered B and C"); }
    }
  }
  c.trace(1);
}
std::vector<Lc> Forms(int vars) { std::vector<Lc> out; out.push_back(Lc(size_t(vars), 0)); for (int i = 0; i < vars; ++i) { Lc e(size_t(vars), 0); e[size_t(i)] = 1; out.push_back(e); } Lc e; for (int i = 0; i < vars; ++i) e.push_back(i + 2); out.push_back(e); e.assign(size_t(vars), 0); e[0] = 3; e.back() -= 1; out.push_back(e); return out; }
std::vector<std::vector<F>> Assign(int n, std::vector<int> values) { std::vector<std::vector<F>> out; mc::tuples(n, int(values.size()), [&](const std::vector<int>& v) { std::vector<F> z{F::One()}; for (int x : v) z.push_back(V(values[size_t(x)])); out.push_back(z); }); return out; }
const Waste kWaste{V(11), V(23), V(5), V(7), V(40)};

// One constraint: all of them over a few combinations, for every number of
// inputs and witnesses.
MC_SECTION(circuits, 8) {
  Init(); uint64_t id = 0;
  for (int inst = 0; inst <= 2; ++inst) for (int wit = 0; wit <= 2; ++wit) {
    std::vector<Lc> f = Forms(1 + inst + wit);
    for (auto& a : f) for (auto& b : f) for (auto& k : f) { if (!c.mine(id++)) continue; mc::at("circuit", uint64_t(inst), uint64_t(wit), id); Spec s{inst, wit, {{{a, b, k}}}}; Decide(c, s, kWaste, Assign(inst + wit, {0, 1, 9}), {{0, 0}, {1, 2}}, 0); }
  }
}
MC_SECTION(shapes, 8) {
  Init(); uint64_t id = 0;
  for (int inst = 0; inst <= 3; ++inst) for (int wit = 0; wit <= 3; ++wit) for (int n = 0; n <= 5; ++n) for (int shift = 0; shift < 7; ++shift) {
    if (!c.mine(id++)) continue; mc::at("shape", uint64_t(inst), uint64_t(wit), uint64_t(n), uint64_t(shift));
    std::vector<Lc> f = Forms(1 + inst + wit); size_t k = f.size(); Spec s{inst, wit, {}}; for (int i = 0; i < n; ++i) s.ks.push_back({f[size_t(shift + i) % k], f[size_t(shift * 2 + i * 3 + 1) % k], f[size_t(shift * 3 + i * 2) % k]});
    Decide(c, s, kWaste, Assign(inst + wit, {0, 1, 9}), {{0, 0}, {3, 0}, {0, 4}, {96, 50}}, 0);
  }
}
// x * y = w, w * (w + x) = z: every setup value in turn, every alteration.
const Spec kMul{2, 2, {{{{0, 1, 0, 0, 0}, {0, 0, 0, 1, 0}, {0, 0, 0, 0, 1}}}, {{{0, 0, 0, 0, 1}, {0, 1, 0, 0, 1}, {0, 0, 1, 0, 0}}}}};
std::vector<F> Good(int x, int y) { F a = V(x), b = V(y), w = a * b; return {F::One(), a, w * (w + a), b, w}; }
MC_SECTION(setups, 8) {
  Init(); uint64_t id = 0; auto bad = Good(4, 9); bad[2] += F::One();
  for (int which = 0; which < 5; ++which) for (int v = 0; v < kP; ++v) { if ((which == 2 || which == 3) && v == 0) continue; if (!c.mine(id++)) continue; mc::at("setup", uint64_t(which), uint64_t(v)); Waste w = kWaste; (which == 0 ? w.a : which == 1 ? w.b : which == 2 ? w.gm : which == 3 ? w.d : w.x) = V(v); Decide(c, kMul, w, {Good(4, 9), bad, Good(0, 1)}, {{0, 0}, {7, 13}}, 0); }
}
MC_SECTION(blinding, 8) {
  Init(); uint64_t id = 0;
  for (int r = 0; r < kP; ++r) { if (!c.mine(id++)) continue; mc::at("blinding", uint64_t(r)); std::vector<std::pair<int, int>> b; for (int s = 0; s < kP; ++s) b.push_back({r, s}); Decide(c, kMul, kWaste, {Good(3, 5)}, b, 0); }
}
MC_SECTION(alterations, 8) {
  Init(); uint64_t id = 0;
  for (int x = 0; x < (c.thorough ? 97 : 16); ++x) for (int y = 0; y < 8; ++y) { if (!c.mine(id++)) continue; mc::at("altered", uint64_t(x), uint64_t(y)); Decide(c, kMul, kWaste, {Good(x, y)}, {{x * 13 % 97, y * 7}}, 1); }
}
MC_SECTION(pairs_altered, 8) {
  Init(); int n = c.thorough ? 64 : 16; for (int i = 0; i < n; ++i) { if (!c.mine(uint64_t(i))) continue; mc::at("pairs altered", uint64_t(i)); Decide(c, kMul, kWaste, {Good(i + 2, 5)}, {{i * 11, i + 1}}, 2); }
}
}  // namespace
