// C19: duplex sponge histories, hashers and compressors, and the serialization
// of values to field elements.
#include "mc/c19.h"
#include "mc/fields/m257.h"
#include "mc/fields/m97.h"
#include "mc/fields/p17.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/hashes/prime_field_serializable.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"

namespace {
using namespace c19; using namespace tachyon::math::mcf;
// One element at a time: a sponge that is a lazy duplex construction.
template <typename F> struct RefSponge {
  const RefPoseidon<F>* p; size_t rate, cap; std::vector<F> s; bool squeezing = false; size_t at = 0;
  RefSponge(const RefPoseidon<F>* p, size_t rate, size_t cap) : p(p), rate(rate), cap(cap), s(rate + cap, F::Zero()) {}
  void Absorb1(F x) { if (squeezing || at == rate) { p->Permute(s); at = 0; squeezing = false; } s[cap + at++] += x; }
  F Squeeze1() { if (!squeezing || at == rate) { p->Permute(s); at = 0; squeezing = true; } return s[cap + at++]; }
};
// All histories of absorb(k) and squeeze(k), k up to `top`, of the given depth.
template <typename F, size_t R, size_t C, uint32_t A> void Histories(mc::Ctx& c, const char* field, int top, int depth) {
  F::Init(); using P = PoseidonParams<F, R, A, 4, 3, C>; RefPoseidon<F> ref(int(R + C), A, 4, 3, 0); PoseidonSponge<P> sponge(PoseidonConfig<P>::Create(ref.skip)); uint64_t id = 0;
  std::string name = std::string(field) + " rate " + std::to_string(R) + " capacity " + std::to_string(C);
  mc::tuples(depth, 2 * top + 1, [&](const std::vector<int>& h) {
    if (!c.mine(id++)) return; mc::at_s("history of", name.c_str());
    SpongeState<P> st; RefSponge<F> r(&ref, R, C); uint32_t next = 1; std::string log = name + ":"; c.trace();
    for (int op : h) {
      if (op <= top) {
        std::vector<F> in; for (int i = 0; i < op; ++i) { in.push_back(F(next)); next = (next * 5 + 3) % 13; } log += " absorb " + std::to_string(op);
        for (F x : in) r.Absorb1(x);
        bool ok = sponge.Absorb(st, in); MC_CHECK(c, ok, "absorb", log);
      } else {
        int n = op - top; log += " squeeze " + std::to_string(n); std::vector<F> want; for (int i = 0; i < n; ++i) want.push_back(r.Squeeze1());
        std::vector<F> got = sponge.SqueezeNativeFieldElements(st, size_t(n)); MC_CHECK(c, got == want, "squeeze", log << ": " << Show(got) << " instead of " << Show(want));
      }
      c.step(); bool ok = true; uint64_t hs = 0; for (size_t i = 0; i < R + C; ++i) { ok &= st[i] == r.s[i]; hs = mc::mix(hs, std::hash<std::string>()(st[i].ToString())); }
      c.state(mc::mix(hs, st.mode.next_index * 2 + (st.mode.type == DuplexSpongeMode::Type::kSqueezing)));
      MC_CHECK(c, ok, "state", log << ": " << st.ToString() << " instead of " << Show(r.s));
      // states survive a buffer, mode included
      base::Uint8VectorBuffer buf; SpongeState<P> back; bool io = buf.Grow(base::EstimateSize(st)) && buf.Write(st); buf.set_buffer_offset(0); io = io && buf.Read(&back); MC_CHECK(c, io && buf.Done() && back == st && !(back != st), "state-copyable", log); st = back;
    }
  });
}
MC_SECTION(histories, 8) {
  Histories<P17, 1, 1, 3>(c, "P17", 3, c.thorough ? 7 : 5); Histories<P17, 2, 1, 3>(c, "P17", 5, c.thorough ? 5 : 4); Histories<M97, 3, 1, 5>(c, "M97", 7, c.thorough ? 4 : 3); Histories<M97, 2, 2, 5>(c, "M97", 5, c.thorough ? 5 : 3); Histories<M257, 4, 3, 3>(c, "M257", 9, 3);
}
// Hash and compress.
template <typename F, size_t Wd, size_t R, size_t O, uint32_t A> void Hashes(mc::Ctx& c, const char* field, int len, int alphabet) {
  F::Init(); using P = PoseidonParams<F, Wd - 1, A, 4, 3>; RefPoseidon<F> ref(int{Wd}, A, 4, 3, 0); PoseidonSponge<P> sponge(PoseidonConfig<P>::Create(ref.skip)); PaddingFreeSponge<PoseidonSponge<P>, R, O> hasher(sponge); uint64_t id = 0;
  for (int n = 0; n <= len; ++n) mc::tuples(n, alphabet, [&](const std::vector<int>& e) {
    if (!c.mine(id++)) return; mc::at_s("hash in", field); std::vector<F> in; for (int x : e) in.push_back(F(uint32_t(x * 3 + 1)));
    std::vector<F> s(Wd, F::Zero()); for (size_t i = 0; i < in.size(); ++i) { s[i % R] = in[i]; if (i % R == R - 1 || i + 1 == in.size()) ref.Permute(s); }
    auto h = hasher.Hash(in); bool ok = h.size() == O; for (size_t i = 0; i < O; ++i) ok &= h[i] == s[i]; MC_CHECK(c, ok, "hash", field << " width " << Wd << " rate " << R << " of " << mc::vstr(e)); auto h2 = hasher.Hash(in); MC_CHECK(c, h == h2, "hash-again", field << " of " << mc::vstr(e));
    // the rows of a matrix, as the Merkle tree feeds them
    c.state(mc::hash_bytes(e.data(), e.size() * 4, Wd * 10 + R)); c.step(2); c.trace();
  });
}
template <typename F, size_t Wd, size_t Chunk, size_t N, uint32_t A> void Compress(mc::Ctx& c, const char* field, int alphabet) {
  F::Init(); using P = PoseidonParams<F, Wd - 1, A, 4, 3>; RefPoseidon<F> ref(int{Wd}, A, 4, 3, 0); PoseidonSponge<P> sponge(PoseidonConfig<P>::Create(ref.skip)); TruncatedPermutation<PoseidonSponge<P>, Chunk, N> comp(sponge); uint64_t id = 0;
  mc::tuples(int(Chunk * N), alphabet, [&](const std::vector<int>& e) {
    if (!c.mine(id++)) return; mc::at_s("compress in", field); std::vector<F> s(Wd, F::Zero()); std::array<std::array<F, Chunk>, N> in; std::vector<std::vector<F>> inv(N, std::vector<F>(Chunk)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < Chunk; ++j) inv[i][j] = in[i][j] = s[i * Chunk + j] = F(uint32_t(e[i * Chunk + j] * 3 + 1));
    ref.Permute(s); auto o = comp.Compress(in), o2 = comp.Compress(inv); bool ok = true; for (size_t i = 0; i < Chunk; ++i) ok &= o[i] == s[i]; MC_CHECK(c, ok && o == o2, "compress", field << " width " << Wd << " of " << mc::vstr(e)); c.state(mc::hash_bytes(e.data(), e.size() * 4, Wd)); c.step(2); c.trace();
  });
}
MC_SECTION(hashers, 4) {
  Hashes<P17, 2, 1, 1, 3>(c, "P17", 5, 5); Hashes<P17, 3, 2, 2, 3>(c, "P17", 6, 4); Hashes<M97, 4, 2, 3, 5>(c, "M97", 7, 3); Hashes<M97, 4, 4, 2, 5>(c, "M97", 9, 2); Hashes<M97, 8, 4, 4, 5>(c, "M97", 9, 2); Hashes<M257, 3, 3, 1, 3>(c, "M257", 7, 3);
  Compress<P17, 2, 1, 2, 3>(c, "P17", 5); Compress<P17, 3, 1, 2, 3>(c, "P17", 5); Compress<M97, 4, 2, 2, 5>(c, "M97", 5); Compress<M97, 6, 2, 3, 5>(c, "M97", 3); Compress<M97, 8, 3, 2, 5>(c, "M97", 3); Compress<M257, 4, 1, 4, 3>(c, "M257", 5);
}
// Integers become field elements exactly when they lie in [0, p).
template <typename F, typename T> void Integers(mc::Ctx& c, const char* name) {
  using B = typename F::BigIntTy; constexpr size_t bits = F::Config::kModulusBits; B m(F::Config::kModulus); unsigned __int128 p = m[0]; bool big = bits > 64;
  std::vector<T> vals; auto lim = std::numeric_limits<T>(); auto put = [&](__int128 v) { if (v >= __int128(lim.min()) && v <= __int128(lim.max())) vals.push_back(T(v)); };
  if (sizeof(T) <= 2) { for (int v = int(lim.min()); v <= int(lim.max()); ++v) vals.push_back(T(v)); }
  else { for (int d = -3; d <= 3; ++d) { put(d); put(__int128(lim.min()) + d); put(__int128(lim.max()) + d); for (int s : {7, 8, 15, 16, 31, 32, 63}) { put((__int128(1) << s) + d); put(-(__int128(1) << s) + d); } if (!big) for (int k : {-1, 1, 2, 3}) { put(__int128(p) * k + d); put(__int128(p) * k + d + (__int128(1) << 32)); } } for (int v = -300; v <= 300; ++v) put(v); }
  mc::at_s("integers into", name);
  for (T v : vals) {
    bool in = v >= T(0) && (big || (unsigned __int128)(v) < p); std::vector<F> out{F::One()}; bool ok = SerializeToFieldElements(v, &out); c.step();
    MC_CHECK(c, ok == in, "integer-range", name << " value " << std::to_string(v) << (in ? " rejected" : " accepted")); if (!in || !ok) continue;
    F e = F::Zero(); for (int b = 63; b >= 0; --b) { e = e + e; if (uint64_t(v) >> b & 1) e += F::One(); } MC_CHECK(c, out.size() == 2 && out[0] == F::One() && out[1] == e, "integer-value", name << " value " << std::to_string(v) << " became " << out.back().ToString());
  }
  // containers hold the elements in order, and fail with any of their elements
  auto valid = [&](T v) { return v >= T(0) && (big || (unsigned __int128)(v) < p); };
  std::vector<T> few; for (T v : vals) if (few.size() < 3 || (!valid(v) && few.size() < 5)) few.push_back(v); few.push_back(T(0)); few.push_back(T(1)); few.push_back(T(2));
  for (int n = 0; n <= 3; ++n) mc::tuples(n, int(few.size()), [&](const std::vector<int>& e) {
    std::vector<T> v; bool all = true; for (int x : e) { v.push_back(few[size_t(x)]); all &= valid(v.back()); } std::vector<F> single; for (T x : v) if (all) SerializeToFieldElements(x, &single);
    std::vector<F> o1, o2, o3, o4; bool k1 = SerializeToFieldElements(v, &o1), k2 = SerializeToFieldElements(absl::Span<const T>(v), &o2), k3 = SerializeToFieldElements(absl::InlinedVector<T, 2>(v.begin(), v.end()), &o3), k4 = SerializeBatchToFieldElements(absl::Span<const T>(v), &o4); c.step(); c.trace();
    MC_CHECK(c, k1 == all && k2 == all && k3 == all && k4 == all, "container-range", name << " " << mc::vstr(e)); if (all && k1 && k2 && k3 && k4) MC_CHECK(c, o1 == single && o2 == single && o3 == single && o4 == single, "container-value", name << " " << mc::vstr(e));
    if (n == 3) { std::array<T, 3> a{v[0], v[1], v[2]}; std::vector<F> o5; bool k5 = SerializeToFieldElements(a, &o5); MC_CHECK(c, k5 == all && (!all || o5 == single), "container-array", name << " " << mc::vstr(e)); }
  });
  c.states(vals.size());
}
template <typename F> void AllIntegers(mc::Ctx& c, const char* name) { F::Init(); Integers<F, uint8_t>(c, name); Integers<F, int8_t>(c, name); Integers<F, uint16_t>(c, name); Integers<F, int16_t>(c, name); Integers<F, uint32_t>(c, name); Integers<F, int32_t>(c, name); Integers<F, uint64_t>(c, name); Integers<F, int64_t>(c, name); }
MC_SECTION(serialize, 4) {
  if (c.shard == 0) { AllIntegers<P17>(c, "P17"); AllIntegers<M97>(c, "M97"); }
  if (c.shard == 1) { AllIntegers<M257>(c, "M257"); AllIntegers<math::BabyBear>(c, "BabyBear"); }
  if (c.shard == 2) AllIntegers<math::Goldilocks>(c, "Goldilocks");
  if (c.shard == 3) AllIntegers<math::bn254::Fr>(c, "BN254");
}
// Values absorbed through their serialization; a failed absorption changes nothing.
MC_SECTION(absorb_values, 2) {
  using F = M97; F::Init(); using P = PoseidonParams<F, 2, 5, 4, 3>; RefPoseidon<F> ref(3, 5, 4, 3, 0); PoseidonSponge<P> sponge(PoseidonConfig<P>::Create(ref.skip)); uint64_t id = 0;
  const int vals[] = {0, 1, 96, 97, 255, -1};
  for (int n = 0; n <= 4; ++n) mc::tuples(n, 6, [&](const std::vector<int>& e) {
    if (!c.mine(id++)) return; std::vector<uint8_t> bytes; std::vector<int> ints; bool okb = true, oki = true; for (int x : e) { bytes.push_back(uint8_t(vals[x])); ints.push_back(vals[x]); okb &= bytes.back() < 97; oki &= vals[x] >= 0 && vals[x] < 97; }
    for (int phase = 0; phase < 3; ++phase) {
      RefSponge<F> r(&ref, 2, 1); SpongeState<P> st; if (phase > 0) { r.Absorb1(F(5)); sponge.Absorb(st, std::vector<F>{F(5)}); } if (phase > 1) { r.Squeeze1(); sponge.SqueezeNativeFieldElements(st, 1); }
      SpongeState<P> before = st, s2 = st; RefSponge<F> r2 = r; bool a = sponge.Absorb(st, bytes), b = sponge.Absorb(s2, ints); c.step(2); c.trace();
      MC_CHECK(c, a == okb && b == oki, "absorb-range", mc::vstr(e)); if (!a) MC_CHECK(c, st == before, "absorb-failed", mc::vstr(e)); if (!b) MC_CHECK(c, s2 == before, "absorb-failed", mc::vstr(e));
      if (a && okb) { for (uint8_t x : bytes) r.Absorb1(F(uint32_t(x))); bool same = true; for (int i = 0; i < 3; ++i) same &= st[size_t(i)] == r.s[size_t(i)]; MC_CHECK(c, same, "absorb-bytes", mc::vstr(e)); }
      if (b && oki) { for (int x : ints) r2.Absorb1(F(uint32_t(x))); bool same = true; for (int i = 0; i < 3; ++i) same &= s2[size_t(i)] == r2.s[size_t(i)]; MC_CHECK(c, same, "absorb-ints", mc::vstr(e)); }
    }
    c.state(mc::hash_bytes(e.data(), e.size() * 4, 0));
  });
}
}  // namespace
