// C20: prover and verifier transcripts against a direct model of what each
// challenge hashes.
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "glog/logging.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"

namespace {
using namespace tachyon;
namespace h2 = zk::plonk::halo2;
using P = math::bn254::G1AffinePoint;
using Fq = math::bn254::Fq;
using F = math::bn254::Fr;
using Big = math::BigInt<4>;
[[maybe_unused]] bool quiet = [] { FLAGS_minloglevel = 3; return true; }();

// A number of up to 512 bits, little endian, modulo the group order, bit by bit.
F Mod(const uint8_t* bytes, size_t n) { F x = F::Zero(), one = F::One(); for (size_t i = n * 8; i-- > 0;) { x = x + x; if (bytes[i / 8] >> (i % 8) & 1) x = x + one; } return x; }
std::vector<uint8_t> Bytes(const Big& b, bool big_endian) { std::vector<uint8_t> v; for (int i = 0; i < 32; ++i) v.push_back(uint8_t(b[size_t(i / 8)] >> (i % 8 * 8))); if (big_endian) std::reverse(v.begin(), v.end()); return v; }

struct Item { int kind; int value; };  // 0: scalar, 1: point, 2: challenge
std::vector<F> scalars; std::vector<P> points;
std::string Text(const std::vector<Item>& v) { std::string s; for (auto& i : v) s += i.kind == 2 ? "C " : (i.kind ? "P" : "S") + std::to_string(i.value) + " "; return s; }
void Setup() { if (!scalars.empty()) return; F::Init(); math::bn254::G1Curve::Init(); scalars = {F::Zero(), F::One(), -F::One(), F(12345), F(Big(5)) * F(Big(7777777))}; auto g = P::Generator(); points = {P::Zero(), g, -g, (g + g).ToAffine(), (g + g + g).ToAffine()}; }

struct Blake {
  using Writer = h2::Blake2bWriter<P>; using Reader = h2::Blake2bReader<P>; constexpr static const char* kName = "blake2b"; constexpr static size_t kPoint = 32; constexpr static bool kHash = true;
  std::vector<uint8_t> text;
  void Add(uint8_t tag, const std::vector<uint8_t>& b) { text.push_back(tag); text.insert(text.end(), b.begin(), b.end()); }
  void Put(const F& s) { Add(2, Bytes(s.ToBigInt(), false)); }
  void Put(const P& p) { bool inf = p.IsZero(); Add(1, Bytes(inf ? Big(0) : p.x().ToBigInt(), false)); auto y = Bytes(inf ? Big(5) : p.y().ToBigInt(), false); text.insert(text.end(), y.begin(), y.end()); }
  F Get() { text.push_back(0); BLAKE2B_CTX c; BLAKE2B512_InitWithPersonal(&c, "Halo2-Transcript"); BLAKE2B512_Update(&c, text.data(), text.size()); uint8_t out[64]; BLAKE2B512_Final(out, &c); return Mod(out, 64); }
};
struct Sha {
  using Writer = h2::Sha256Writer<P>; using Reader = h2::Sha256Reader<P>; constexpr static const char* kName = "sha256"; constexpr static size_t kPoint = 64; constexpr static bool kHash = true;
  std::vector<uint8_t> text;
  void Add(uint8_t tag, const std::vector<uint8_t>& b) { text.insert(text.end(), 31, 0); text.push_back(tag); text.insert(text.end(), b.begin(), b.end()); }
  void Put(const F& s) { Add(2, Bytes(s.ToBigInt(), true)); }
  void Put(const P& p) { Add(1, Bytes(p.x().ToBigInt(), true)); auto y = Bytes(p.y().ToBigInt(), true); text.insert(text.end(), y.begin(), y.end()); }
  F Get() { text.push_back(0); SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, text.data(), text.size()); uint8_t out[32]; SHA256_Final(out, &c); text.assign(out, out + 32); return Mod(out, 32); }
};
template <typename Params, typename W, typename R>
struct Sponge {
  using Writer = W; using Reader = R; constexpr static const char* kName = Params::kRate == 8 ? "poseidon" : "snark-verifier poseidon"; constexpr static size_t kPoint = 32; constexpr static bool kHash = false;
  crypto::PoseidonSponge<Params>& sponge() { static crypto::PoseidonSponge<Params> s{crypto::PoseidonConfig<Params>::Create(0)}; return s; }
  crypto::SpongeState<Params> state; std::vector<F> in; Sponge() { state[0] = F(Big({0, 1, 0, 0})); }
  void Put(const F& s) { in.push_back(s); }
  void Put(const P& p) { for (auto& c : {p.x(), p.y()}) { auto b = Bytes(c.ToBigInt(), false); in.push_back(Mod(b.data(), 32)); } }
  F Get() { in.push_back(F::One()); for (size_t i = 0; i < in.size(); i += Params::kRate) { for (size_t j = 0; j < Params::kRate && i + j < in.size(); ++j) state[j + 1] += in[i + j]; sponge().Permute(state); } in.clear(); return state[1]; }
};
using Poseidon = Sponge<crypto::BN254PoseidonParams9, h2::PoseidonWriter<P>, h2::PoseidonReader<P>>;
using SnarkPoseidon = Sponge<crypto::BN254PoseidonParams5, h2::SnarkVerifierPoseidonWriter<P>, h2::SnarkVerifierPoseidonReader<P>>;

template <typename M>
std::vector<F> Model(const std::vector<Item>& v) { M m; std::vector<F> out; for (auto& i : v) { if (i.kind == 2) out.push_back(m.Get()); else if (i.kind == 1) m.Put(points[size_t(i.value)]); else m.Put(scalars[size_t(i.value)]); } return out; }

// Writes with the prover, reads with the verifier; |proof| says which items
// travel in the proof.
template <typename M>
std::vector<F> Decide(mc::Ctx& c, const std::vector<Item>& v, uint32_t proof, bool restore) {
  c.states(1); c.trace(1); using W = typename M::Writer; using R = typename M::Reader; std::string name = std::string(M::kName) + " ";
  std::vector<F> want = Model<M>(v), got, read; base::Uint8VectorBuffer buf; W w(std::move(buf)); bool ok = true; size_t size = 0; uint32_t n = 0;
  for (auto& i : v) { bool in = proof >> (n++ % 32) & 1; if (i.kind == 2) got.push_back(w.SqueezeChallenge()); else if (i.kind == 1) { ok &= in ? w.WriteToProof(points[size_t(i.value)]) : w.WriteToTranscript(points[size_t(i.value)]); size += in ? M::kPoint : 0; } else { ok &= in ? w.WriteToProof(scalars[size_t(i.value)]) : w.WriteToTranscript(scalars[size_t(i.value)]); size += in ? 32 : 0; } c.step(1);
    if (restore && (M::kHash || n == v.size() / 2)) { auto s = w.GetState(); bool same = s.size() == w.GetStateLen(); W w2{base::Uint8VectorBuffer()}; w2.SetState(absl::MakeConstSpan(s)); std::vector<Item> rest(v.begin() + n, v.end()); std::vector<F> more = got; for (auto& j : rest) { if (j.kind == 2) more.push_back(w2.SqueezeChallenge()); else if (j.kind == 1) same &= w2.WriteToTranscript(points[size_t(j.value)]); else same &= w2.WriteToTranscript(scalars[size_t(j.value)]); } MC_CHECK(c, same && more == want, name + "restored", Text(v) << "after " << n); } }
  MC_CHECK(c, ok && got == want, name + "challenges", Text(v) << "proof " << proof);
  auto bytes = w.buffer().owned_buffer(); MC_CHECK(c, bytes.size() >= size && w.buffer().buffer_offset() == size, name + "proof size", Text(v) << "proof " << proof); bytes.resize(size);
  R r(base::ReadOnlyBuffer(bytes.data(), bytes.size())); n = 0; ok = true;
  for (auto& i : v) { bool in = proof >> (n++ % 32) & 1; if (i.kind == 2) { read.push_back(r.SqueezeChallenge()); continue; } if (i.kind == 1) { P p = points[1]; if (in) ok &= r.ReadFromProof(&p) && p == points[size_t(i.value)]; else ok &= r.WriteToTranscript(points[size_t(i.value)]); } else { F f(999); if (in) ok &= r.ReadFromProof(&f) && f == scalars[size_t(i.value)]; else ok &= r.WriteToTranscript(scalars[size_t(i.value)]); } }
  MC_CHECK(c, ok && read == want, name + "verifier", Text(v) << "proof " << proof); MC_CHECK(c, r.buffer().Done(), name + "verifier leftover", Text(v)); F f; MC_CHECK(c, !r.ReadFromProof(&f), name + "reading beyond", Text(v)); return got;
}

template <typename M>
void Histories(mc::Ctx& c, int depth) {
  Setup(); std::map<std::string, std::vector<F>> seen; std::vector<Item> kinds{{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {2, 0}}; uint64_t id = 0;
  for (int len = 0; len <= depth; ++len) mc::tuples(len, int(kinds.size()), [&](const std::vector<int>& t) {
    if (!c.mine(id++)) return; mc::at("history", id); std::vector<Item> v; for (int x : t) v.push_back(kinds[size_t(x)]); v.push_back({2, 0}); v.push_back({2, 0});
    auto base = Decide<M>(c, v, uint32_t(id % 5 == 0 ? 0 : id % 5 == 1 ? ~0u : id * 2654435761u), id % 3 == 0);
    // Changing one value or exchanging neighbours changes every later challenge and no earlier one.
    auto differ = [&](const std::vector<Item>& u, size_t at, const char* what) { auto other = Model<M>(u); size_t k = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i].kind == 2) { bool same = base[k] == other[k]; ++k; MC_CHECK(c, same == (i < at), std::string(M::kName) + " " + what, Text(v) << "and " << Text(u)); } c.step(1); };
    for (size_t i = 0; i + 2 < v.size(); ++i) { if (v[i].kind == 2) continue; for (int x = 0; x < 5; ++x) if (x != v[i].value) { auto u = v; u[i].value = x; if (len <= 2 || x == 3) differ(u, i, "binding"); } if (v[i + 1].kind != 2 && (M::kHash || v[i].value || v[i + 1].value) && (v[i + 1].kind != v[i].kind || v[i + 1].value != v[i].value)) { auto u = v; std::swap(u[i], u[i + 1]); differ(u, i, "order"); } } });
  // Runs of scalars and points around the block sizes.
  for (int a = 0; a <= 18; ++a) for (int b = 0; b <= 9; ++b) for (int pts = 0; pts < 3; ++pts) { if (!c.mine(id++)) continue; mc::at("runs", uint64_t(a), uint64_t(b)); std::vector<Item> v; for (int i = 0; i < a; ++i) v.push_back({pts == 1 ? i % 2 : pts == 2, i % 5}); v.push_back({2, 0}); for (int i = 0; i < b; ++i) v.push_back({pts == 1 ? 1 - i % 2 : pts == 2, (i + 1) % 5}); v.push_back({2, 0}); v.push_back({2, 0}); Decide<M>(c, v, uint32_t(id), true); }
}
MC_SECTION(blake2b, 8) { Histories<Blake>(c, c.thorough ? 6 : 5); }
MC_SECTION(sha256, 8) { Histories<Sha>(c, c.thorough ? 6 : 5); }
MC_SECTION(poseidon, 8) { Histories<Poseidon>(c, c.thorough ? 4 : 3); }
MC_SECTION(snark_poseidon, 8) { Histories<SnarkPoseidon>(c, c.thorough ? 4 : 3); }
// Points that are not on the curve, or not reduced, are refused.
MC_SECTION(points, 1) {
  Setup(); std::vector<Big> xs; for (uint64_t i = 0; i < 8; ++i) xs.push_back(Big(i)); xs.push_back(Fq::Config::kModulus - Big(1)); xs.push_back(Fq::Config::kModulus - Big(2)); xs.push_back(Fq::Config::kModulus); xs.push_back(Fq::Config::kModulus + Big(1)); xs.push_back(Fq::Config::kModulus + Big(2)); xs.push_back(Fq::Config::kModulus + Fq::Config::kModulus - Big(2)); for (auto& p : points) { xs.push_back(p.x().ToBigInt()); xs.push_back(p.y().ToBigInt()); }
  for (auto& x : xs) for (auto& y : xs) { c.states(1); c.step(1); bool zero = x.IsZero() && y.IsZero(), valid = zero; if (x < Fq::Config::kModulus && y < Fq::Config::kModulus) { Fq a = Fq::FromBigInt(x), b = Fq::FromBigInt(y); valid |= b * b == a * a * a + Fq(3); }
    std::vector<uint8_t> bytes = Bytes(x, false); auto rest = Bytes(y, false); bytes.insert(bytes.end(), rest.begin(), rest.end()); h2::Sha256Reader<P> r(base::ReadOnlyBuffer(bytes.data(), bytes.size())); P p = points[1]; bool got = r.ReadFromProof(&p); MC_CHECK(c, got == valid && (!got || (zero ? p == P::Zero() : p == P(Fq::FromBigInt(x), Fq::FromBigInt(y)))), "sha256 point", x.ToString() << " " << y.ToString()); }
}
// The update and finalize entry points the bindings use.
MC_SECTION(raw, 8) {
  Setup(); uint64_t id = 0;
  for (int a = 0; a <= 140; ++a) for (int b = 0; b <= 140; b += 7) { if (!c.mine(id++)) continue; c.states(1); std::vector<uint8_t> t; for (int i = 0; i < a + b; ++i) t.push_back(uint8_t(i * 37 + 11)); uint8_t out[64], ref[64];
    h2::Blake2bWriter<P> w{base::Uint8VectorBuffer()}; w.Update(t.data(), size_t(a)); w.Finalize(out); w.Update(t.data() + a, size_t(b)); w.Finalize(out); BLAKE2B_CTX x; BLAKE2B512_InitWithPersonal(&x, "Halo2-Transcript"); BLAKE2B512_Update(&x, t.data(), t.size()); BLAKE2B512_Final(ref, &x); MC_CHECK(c, w.GetDigestLen() == 64 && !memcmp(out, ref, 64), "blake2b update", a << "+" << b);
    h2::Sha256Writer<P> s{base::Uint8VectorBuffer()}; s.Update(t.data(), size_t(a)); s.Finalize(out); s.Update(t.data() + a, size_t(b)); s.Finalize(out); SHA256_CTX y; SHA256_Init(&y); SHA256_Update(&y, t.data(), t.size()); SHA256_Final(ref, &y); MC_CHECK(c, s.GetDigestLen() == 32 && !memcmp(out, ref, 32), "sha256 update", a << "+" << b); c.step(2); }
}
// Reduction of 512-bit numbers.
MC_SECTION(reduce, 8) {
  Setup(); uint64_t id = 0; const uint64_t limbs[] = {0, 1, ~uint64_t{0}, F::Config::kModulus[3], uint64_t{1} << 63}; int n = c.thorough ? 5 : 3;
  mc::tuples(8, n, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; uint64_t in[8]; uint8_t b[64]; for (int i = 0; i < 8; ++i) { in[i] = limbs[v[size_t(i)]]; memcpy(b + 8 * i, &in[i], 8); } F want = Mod(b, 64); c.states(1); c.step(2); F got = h2::FromUint512<F>(in), got2 = h2::FromUint512<F>(b); MC_CHECK(c, got == want && got2 == want && got.ToBigInt() == want.ToBigInt(), "reduce", mc::vstr(v)); });
  // Around multiples of the modulus.
  for (int k = 0; k < 6; ++k) for (int d = -2; d <= 2; ++d) { uint64_t in[8] = {}; uint8_t b[64]; __int128 carry = d; for (int i = 0; i < 8; ++i) { __int128 t = carry + (i < 4 ? __int128(F::Config::kModulus[size_t(i)]) * k : 0); in[i] = uint64_t(t); carry = t >> 64; memcpy(b + 8 * i, &in[i], 8); } MC_CHECK(c, h2::FromUint512<F>(in) == Mod(b, 64), "reduce near multiples", k << " times the order plus " << d); c.states(1); }
}
// The simple transcripts (a running sum).
template <typename T, typename V, typename Put>
void Simple(mc::Ctx& c, const std::vector<V>& values, Put add) {
  uint64_t id = 0;
  for (int len = 0; len <= 5; ++len) mc::tuples(len, 4, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; for (uint32_t mask = 0; mask < 1u << len; ++mask) { c.states(1); c.trace(1);
    crypto::SimpleTranscriptWriter<T> w{base::Uint8VectorBuffer()}; F sum = F::Zero(); std::vector<F> a, b, want; bool ok = true; int n = 0; for (int x : v) { bool in = mask >> n++ & 1; if (x == 3) { sum = sum + sum; want.push_back(sum); a.push_back(w.SqueezeChallenge()); } else { add(&sum, values[size_t(x)]); ok &= in ? w.WriteToProof(values[size_t(x)]) : w.WriteToTranscript(values[size_t(x)]); } c.step(1); }
    auto bytes = w.buffer().owned_buffer(); bytes.resize(w.buffer().buffer_offset()); crypto::SimpleTranscriptReader<T> r(base::Buffer(bytes.data(), bytes.size())); n = 0; for (int x : v) { bool in = mask >> n++ & 1; if (x == 3) b.push_back(r.SqueezeChallenge()); else { V got = values[1]; if (in) { ok &= r.ReadFromProof(&got); ok &= got == values[size_t(x)]; } else ok &= r.WriteToTranscript(values[size_t(x)]); } }
    MC_CHECK(c, ok && a == want && b == want && r.buffer().Done(), "simple transcript", mc::vstr(v) << " proof " << mask); } });
}
MC_SECTION(simple, 8) {
  Setup(); Simple<F, F>(c, {F::One(), -F::One(), F(12345)}, [](F* s, const F& v) { *s += v; });
  Simple<P, F>(c, {F::One(), -F::One(), F(12345)}, [](F* s, const F& v) { *s += v; });
  Simple<P, P>(c, {points[0], points[1], points[4]}, [](F* s, const P& p) { *s += F::FromMontgomery(p.x().value() % F::Config::kModulus); *s += F::FromMontgomery(p.y().value() % F::Config::kModulus); });
}
}  // namespace
