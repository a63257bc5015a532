// C20: challengers against a direct model of the sponge, and grinding.
#include <map>
#include <string>
#include <vector>

#include "mc/fields/m97.h"
#include "mc/mc.h"
#include "mc/omp_rt.h"
#include "glog/logging.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/challenger/hash_challenger.h"
#include "tachyon/crypto/challenger/multi_field32_challenger.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"

namespace {
using namespace tachyon;
using namespace tachyon::crypto; using namespace tachyon::math::mcf;
using math::BabyBear; using math::Goldilocks; using math::Mersenne31; using Fr = math::bn254::Fr;
[[maybe_unused]] bool quiet = [] { FLAGS_minloglevel = 3; return true; }();

uint64_t Num(const Goldilocks& v) { return v.ToBigInt()[0]; }
uint64_t Num(const BabyBear& v) { return v.ToBigInt()[0]; }
uint64_t Num(const Mersenne31& v) { return v.ToBigInt()[0]; }
uint64_t Num(const M97& v) { return v.ToBigInt()[0]; }
uint64_t Num(const Fr& v) { auto b = v.ToBigInt(); return mc::mix(mc::mix(b[0], b[1]), mc::mix(b[2], b[3])); }
template <typename F> F From(uint64_t h) { if constexpr (std::is_same_v<F, Fr>) { return Fr(math::BigInt<4>({mc::mix(h, 1), mc::mix(h, 2), mc::mix(h, 3), mc::mix(h, 4) >> 4})); } else if constexpr (std::is_same_v<F, Goldilocks>) return F(h % (F::Config::kModulus[0])); else return F(uint32_t(h % F::Config::kModulus)); }

// A permutation that mixes everything; every lane depends on every lane.
template <typename V> void Mix(V& lanes, size_t n) { uint64_t h = 7; for (size_t i = 0; i < n; ++i) h = mc::mix(h, Num(lanes[i])); for (size_t i = 0; i < n; ++i) lanes[i] = From<std::decay_t<decltype(lanes[0])>>(mc::mix(h, i + 1)); }
template <typename _F, size_t W> struct Toy {
  using F = _F; struct Params { using Field = _F; constexpr static size_t kWidth = W; constexpr static size_t kRate = W - 1; };
  void Permute(SpongeState<Params>& s) const { if (s.size() != W) std::abort(); Mix(s.elements, W); }
};
template <typename _F, size_t N> struct ToyHash { using F = _F; template <typename C> std::vector<F> Hash(const C& in) const { uint64_t h = 9; for (auto& v : in) h = mc::mix(h, Num(v)); h = mc::mix(h, in.size()); std::vector<F> out; for (size_t i = 0; i < N; ++i) out.push_back(From<F>(mc::mix(h, i))); return out; } };

// The models: a history is a list of values (or -1 for a sample).
template <typename F, size_t W, size_t R> struct DuplexModel {
  std::vector<F> state = std::vector<F>(W, F::Zero()), in, out;
  void Turn() { for (size_t i = 0; i < in.size(); ++i) state[i] = in[i]; in.clear(); Mix(state, W); out = state; }
  void Observe(const F& v) { out.clear(); in.push_back(v); if (in.size() == R) Turn(); }
  F Sample() { if (!in.empty() || out.empty()) Turn(); F v = out.back(); out.pop_back(); return v; }
};
template <typename F, size_t N> struct HashModel {
  std::vector<F> in, out;
  void Observe(const F& v) { out.clear(); in.push_back(v); }
  F Sample() { if (out.empty()) { out = ToyHash<F, N>().Hash(in); in = out; } F v = out.back(); out.pop_back(); return v; }
};
template <typename S, size_t W> struct MultiModel {
  std::vector<Fr> state = std::vector<Fr>(W, Fr::Zero()); std::vector<S> in, out;
  void Turn() { for (size_t i = 0; i < in.size(); i += 3) { math::BigInt<4> b(0); for (size_t j = 0; j < 3 && i + j < in.size(); ++j) b[j / 2] |= Num(in[i + j]) << (j % 2 * 32); state[i / 3] = Fr(b); } in.clear(); Mix(state, W); out.clear(); for (size_t i = 0; i < W; ++i) { auto b = state[i].ToBigInt(); for (size_t j = 0; j < 3; ++j) out.push_back(S(uint32_t(b[j] % S::Config::kModulus))); } }
  void Observe(const S& v) { out.clear(); in.push_back(v); if (in.size() == 3 * W) Turn(); }
  S Sample() { if (!in.empty() || out.empty()) Turn(); S v = out.back(); out.pop_back(); return v; }
};
using History = std::vector<int>;
template <typename F, typename C> std::vector<F> Run(C& x, const History& h) { std::vector<F> out; for (int v : h) if (v < 0) out.push_back(x.Sample()); else x.Observe(F(uint32_t(v))); return out; }

template <typename F, typename Model, typename Make>
void Decide(mc::Ctx& c, const std::string& name, const History& h, Make make) {
  c.states(1); c.step(h.size()); c.trace(1); auto x = make(); Model m; std::vector<F> want = Run<F>(m, h), got = Run<F>(x, h); MC_CHECK(c, got == want, name + " challenges", mc::vstr(h));
}
template <typename F, typename Model, typename Make>
void Binding(mc::Ctx& c, const std::string& name, const History& h, Make make, size_t forget = 0) {
  auto base = make(); std::vector<F> first = Run<F>(base, h);
  auto differ = [&](const History& u, size_t at, const char* what) { auto x = make(); std::vector<F> other = Run<F>(x, u); size_t k = 0; size_t seen = 0; for (size_t i = 0; i < h.size(); ++i) { if (h[i] >= 0) { continue; } bool same = first[k] == other[k]; ++k; (void)seen;
      bool lost = false; if (forget && i > at && same) { Model a, b; std::vector<F> p = Run<F>(a, h), q = Run<F>(b, u); lost = p == first && q == other; }
      MC_CHECK(c, same == (i < at), lost ? name + " full block overwrites the whole state" : name + " " + what, mc::vstr(h) << " and " << mc::vstr(u) << " at " << i); } c.step(1); };
  for (size_t i = 0; i < h.size(); ++i) { if (h[i] < 0) continue; auto u = h; u[i] = h[i] == 1 ? 2 : 1; differ(u, i, "binding"); if (i + 1 < h.size() && h[i + 1] >= 0 && h[i + 1] != h[i]) { u = h; std::swap(u[i], u[i + 1]); differ(u, i, "order"); } }
}
// Every history of observations of 3 values and samples up to a length, and
// every history of runs.
template <typename F, typename Model, typename Make>
void Histories(mc::Ctx& c, const std::string& name, Make make, int depth, int values, int block, size_t forget = 0) {
  uint64_t id = 0;
  for (int len = 0; len <= depth; ++len) mc::tuples(len, values + 1, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; mc::at(name.c_str(), id); History h; for (int x : v) h.push_back(x == values ? -1 : x + 1); Decide<F, Model>(c, name, h, make); if (len + 1 < depth) { h.push_back(-1); h.push_back(-1); Binding<F, Model>(c, name, h, make, forget); } });
  for (int a = 0; a <= 2 * block + 1; ++a) for (int s = 0; s <= 2 * block + 1; ++s) for (int b = 0; b <= 2 * block + 1; ++b) for (int t = 0; t <= (b % 3 ? 1 : block + 1); ++t) { if (!c.mine(id++)) continue; mc::at(name.c_str(), uint64_t(a), uint64_t(s), uint64_t(b)); History h; for (int i = 0; i < a; ++i) h.push_back(3 + i); for (int i = 0; i < s; ++i) h.push_back(-1); for (int i = 0; i < b; ++i) h.push_back(40 + i); for (int i = 0; i < t + 1; ++i) h.push_back(-1); Decide<F, Model>(c, name, h, make); if (s <= 1 && t <= 1) Binding<F, Model>(c, name, h, make, forget); }
}
template <typename F, size_t W, size_t R> void Duplex(mc::Ctx& c, int depth) { F::Init(); Histories<F, DuplexModel<F, W, R>>(c, "duplex " + std::to_string(W) + "/" + std::to_string(R), [] { return DuplexChallenger<Toy<F, W>, R>(Toy<F, W>()); }, depth, 2, int(W)); }
MC_SECTION(duplex, 8) { int d = c.thorough ? 11 : 9; Duplex<Goldilocks, 2, 1>(c, d); Duplex<Goldilocks, 3, 2>(c, d); Duplex<Goldilocks, 4, 2>(c, d); Duplex<Goldilocks, 4, 3>(c, d); Duplex<Goldilocks, 8, 4>(c, d - 2); Duplex<BabyBear, 3, 2>(c, 7); Duplex<Goldilocks, 16, 8>(c, 5); }
template <size_t N> void Hash(mc::Ctx& c, int depth) { Goldilocks::Init(); Histories<Goldilocks, HashModel<Goldilocks, N>>(c, "hash " + std::to_string(N), [] { return HashChallenger<ToyHash<Goldilocks, N>>(ToyHash<Goldilocks, N>()); }, depth, 2, int(N)); }
MC_SECTION(hash, 8) {
  int d = c.thorough ? 11 : 9; Hash<1>(c, d); Hash<2>(c, d); Hash<4>(c, d); Hash<8>(c, 5);
  // With an initial buffer, taken either way.
  uint64_t id = 0; for (int n = 0; n <= 4; ++n) mc::tuples(4, 3, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; std::vector<Goldilocks> init; for (int i = 0; i < n; ++i) init.push_back(Goldilocks(uint64_t(50 + i))); History h; for (int x : v) h.push_back(x == 2 ? -1 : x); h.push_back(-1); HashModel<Goldilocks, 2> m; m.in = init; HashChallenger<ToyHash<Goldilocks, 2>> a(init, ToyHash<Goldilocks, 2>()); auto copy = init; HashChallenger<ToyHash<Goldilocks, 2>> b(std::move(copy), ToyHash<Goldilocks, 2>()); auto want = Run<Goldilocks>(m, h); c.states(1); c.step(2); MC_CHECK(c, Run<Goldilocks>(a, h) == want && Run<Goldilocks>(b, h) == want, "initial buffer", n << " " << mc::vstr(v)); });
}
template <typename S, size_t W> void Multi(mc::Ctx& c, int depth) { S::Init(); Fr::Init(); Histories<S, MultiModel<S, W>>(c, "multi field " + std::to_string(W), []() -> MultiField32Challenger<S, Toy<Fr, W>> { return MultiField32Challenger<S, Toy<Fr, W>>(Toy<Fr, W>{}); }, depth, 2, int(W) * 3, 1); }
MC_SECTION(multi, 8) { Multi<BabyBear, 1>(c, c.thorough ? 10 : 8); Multi<BabyBear, 2>(c, 8); Multi<Mersenne31, 3>(c, 6); 
  // Packing and splitting.
  uint64_t id = 0; const uint32_t vals[] = {0, 1, 2013265920, 2013265919, 1 << 30}; for (int len = 0; len <= 6; ++len) mc::tuples(len, 5, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; std::vector<BabyBear> in; math::BigInt<4> b(0); for (size_t i = 0; i < v.size(); ++i) { in.push_back(BabyBear(vals[v[i]])); b[i / 2] |= uint64_t{vals[v[i]]} << (i % 2 * 32); } c.states(1); c.step(1); if (len < 6 || b < Fr::Config::kModulus) { Fr got = Reduce<Fr>(absl::Span<const BabyBear>(in)); MC_CHECK(c, got == Fr(b), "reduce", mc::vstr(v)); if (len) { auto s = Split<BabyBear>(got); bool ok = s.size() == 3; for (size_t i = 0; i < 3; ++i) ok &= s[i] == BabyBear(uint32_t(b[i] % 2013265921)); MC_CHECK(c, ok, "split", mc::vstr(v)); } } });
}
// Containers, arrays and extension elements are sequences of single operations.
MC_SECTION(compound, 1) {
  BabyBear::Init(); math::BabyBear4::Init(); using C = DuplexChallenger<Toy<BabyBear, 4>, 3>;
  for (int n = 0; n <= 9; ++n) for (int m = 0; m <= 4; ++m) for (int pre = 0; pre <= 3; ++pre) { c.states(1); c.step(3); C a{Toy<BabyBear, 4>()}, b{Toy<BabyBear, 4>()}; for (int i = 0; i < pre; ++i) { a.Observe(BabyBear(uint32_t(i))); b.Observe(BabyBear(uint32_t(i))); }
    std::vector<BabyBear> v; std::vector<std::vector<BabyBear>> vv; for (int i = 0; i < n; ++i) { v.push_back(BabyBear(uint32_t(100 + i))); vv.push_back({}); for (int j = 0; j < (i + m) % 3; ++j) vv.back().push_back(BabyBear(uint32_t(200 + 3 * i + j))); }
    a.ObserveContainer(v); for (auto& x : v) b.Observe(x); if (m % 2) MC_CHECK(c, a.Sample() == b.Sample(), "container", n << " " << pre); a.ObserveContainer2D(vv); for (auto& y : vv) for (auto& x : y) b.Observe(x);
    auto e = a.SampleExtElement<math::BabyBear4>(); BabyBear w[4]; for (auto& x : w) x = b.Sample(); auto arr = a.SampleArray<3>(); bool ok = e == math::BabyBear4(w[0], w[1], w[2], w[3]); for (auto& x : arr) ok &= x == b.Sample(); for (uint32_t bits = 0; bits <= 30; ++bits) ok &= a.SampleBits(bits) == (Num(b.Sample()) & ((1u << bits) - 1)); MC_CHECK(c, ok, "extension element, array, bits", n << " " << m << " " << pre); }
}
// Grinding finds a witness exactly when there is one, and leaves the challenger
// as checking that witness does.
template <typename F, typename C, typename M>
void Grinding(mc::Ctx& c, const char* name, const History& h, uint32_t bits, uint32_t from, uint32_t to, const std::string& schedule) {
  C base{Toy<F, 3>()}; M m; Run<F>(base, h); Run<F>(m, h); auto accepts = [&](uint32_t w) { M copy = m; copy.Observe(F(w)); return (Num(copy.Sample()) & ((1u << bits) - 1)) == 0; };
  std::vector<uint32_t> good; for (uint32_t w = from; w < to; ++w) { if (accepts(w)) good.push_back(w); if (schedule.empty()) { C copy = base; bool got = copy.CheckWitness(bits, F(w)); MC_CHECK(c, got == accepts(w), std::string(name) + " check", mc::vstr(h) << " witness " << w << " bits " << bits); } }
  c.states(1); c.step(1); bool full = from == 0 && to == F::Config::kModulus; auto run = [&](C& x, std::optional<F> hint) { return full ? x.Grind(bits, hint) : x.Grind(bits, base::Range<uint32_t>(from, to), hint); };
  std::string text = mc::vstr(h) + " bits " + std::to_string(bits) + " in " + std::to_string(from) + ".." + std::to_string(to) + " " + schedule;
  if (good.empty()) { if (schedule.empty()) MC_CHECK(c, mc::dies([&] { C x = base; run(x, std::nullopt); }), std::string(name) + " no witness", text); return; }
  C x = base; F w = run(x, std::nullopt); bool known = false; for (uint32_t g : good) known |= w == F(g); MC_CHECK(c, known, std::string(name) + " witness", text << " gave " << Num(w));
  C y = base; bool ok = y.CheckWitness(bits, w); for (int i = 0; i < 5; ++i) ok &= x.Sample() == y.Sample(); MC_CHECK(c, ok, std::string(name) + " after", text); if (!schedule.empty()) return;
  for (uint32_t hint : {from, to - 1, good.back(), good[0]}) { if (hint >= to) continue; if (accepts(hint)) { C z = base; F r = run(z, F(hint)); C u = base; bool same = u.CheckWitness(bits, F(hint)) && r == F(hint); for (int i = 0; i < 5; ++i) same &= z.Sample() == u.Sample(); MC_CHECK(c, same, std::string(name) + " given witness", text << " hint " << hint); } else if (hint % 4 == 0) MC_CHECK(c, mc::dies([&] { C z = base; run(z, F(hint)); }), std::string(name) + " wrong witness given", text << " hint " << hint); }
}
using MC97 = DuplexChallenger<Toy<M97, 3>, 2>; using Model97 = DuplexModel<M97, 3, 2>; using MCBear = DuplexChallenger<Toy<BabyBear, 3>, 2>; using ModelBear = DuplexModel<BabyBear, 3, 2>;
MC_SECTION(grind, 8) {
  M97::Init(); BabyBear::Init(); uint64_t id = 0; 
#if defined(TACHYON_HAS_OPENMP)
  omc::set_threads(1);
#endif
  for (int len = 0; len <= 3; ++len) mc::tuples(len, 3, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; History h; for (int x : v) h.push_back(x == 2 ? -1 : x + 1); for (uint32_t bits = 0; bits <= 6; ++bits) { Grinding<M97, MC97, Model97>(c, "small field", h, bits, 0, 97, ""); for (uint32_t from : {0u, 1u, 50u}) for (uint32_t n : {1u, 2u, 7u, 40u}) { Grinding<M97, MC97, Model97>(c, "small field", h, bits, from, from + n, ""); Grinding<BabyBear, MCBear, ModelBear>(c, "BabyBear", h, bits, from * 1000, from * 1000 + n * (c.thorough ? 20 : 5), ""); } } });
}
#if defined(TACHYON_HAS_OPENMP)
MC_SECTION(team, 8) {
  M97::Init(); uint64_t id = 0;
  for (int threads : {2, 3, 4, 8}) for (int len = 0; len <= 2; ++len) mc::tuples(len, 2, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; History h; for (int x : v) h.push_back(x + 1); omc::set_threads(threads);
    for (uint32_t bits : {0u, 1u, 3u, 5u}) for (uint32_t from : {0u, 30u}) for (uint32_t n : {1u, 2u, 3u, 5u, 9u, 12u}) { bool few = n <= (threads <= 3 ? 3u : 2u) || c.thorough; c.trace(omc::explore(few ? 2 : 1, [&](const std::string& s) { mc::at("team", uint64_t(threads), id, uint64_t(n)); Grinding<M97, MC97, Model97>(c, "team", h, bits, from, from + n, s + " "); }, 2000)); for (auto& r : omc::take_races()) MC_CHECK(c, false, "race", r); } omc::set_threads(1); });
}
#endif
}  // namespace
