// C36: generators against their published definitions, for every short history
// of draws, saves and restores from several positions and seeds.
#include <map>

#include "glog/logging.h"

#include "mc/mc.h"
#include "tachyon/base/buffer/buffer.h"
#include "tachyon/c/crypto/random/rng.h"
#include "tachyon/crypto/random/cha_cha20/cha_cha20_rng.h"
#include "tachyon/crypto/random/rng_type.h"
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"

namespace {
using namespace tachyon; using namespace tachyon::crypto; using Bytes = std::vector<uint8_t>;
uint32_t le(const uint8_t* p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }
// Marsaglia's xorshift128, seeded as rand_xorshift does.
struct RefXor {
  static constexpr size_t kSeed = 16, kState = 16; using Real = XORShiftRNG; static constexpr uint8_t kType = uint8_t(RNGType::kXORShift); static constexpr const char* kName = "xorshift";
  uint32_t s[4] = {0xBAD5EED, 0xBAD5EED, 0xBAD5EED, 0xBAD5EED};
  void Seed(const Bytes& b) { bool z = true; for (int i = 0; i < 4; ++i) { s[i] = le(&b[size_t(i) * 4]); z &= !s[i]; } if (z) for (auto& x : s) x = 0xBAD5EED; }
  uint32_t Next() { uint32_t t = s[0] ^ (s[0] << 11); s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; return s[3] = s[3] ^ (s[3] >> 19) ^ (t ^ (t >> 8)); }
};
// RFC 8439's block function with a 64-bit counter and a zero nonce, read a word at a time.
struct RefCha {
  static constexpr size_t kSeed = 32, kState = 136; using Real = ChaCha20RNG; static constexpr uint8_t kType = uint8_t(RNGType::kChaCha20); static constexpr const char* kName = "chacha20";
  uint32_t key[8] = {}; uint64_t word = 0, base = 0;
  void Seed(const Bytes& b) { for (size_t i = 0; i < 8; ++i) key[i] = le(&b[i * 4]); word = 0; base = 0; }
  uint32_t Next() {
    uint64_t ctr = base + word / 16; uint32_t in[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574, key[0], key[1], key[2], key[3], key[4], key[5], key[6], key[7], uint32_t(ctr), uint32_t(ctr >> 32), 0, 0}, x[16]; memcpy(x, in, 64);
    auto q = [&](int a, int b, int c, int d) { auto step = [](uint32_t& u, uint32_t& v, uint32_t w, int n) { u += w; v ^= u; v = v << n | v >> (32 - n); }; step(x[a], x[d], x[b], 16); step(x[c], x[b], x[d], 12); step(x[a], x[d], x[b], 8); step(x[c], x[b], x[d], 7); };
    for (int r = 0; r < 20; ++r) for (int i = 0; i < 4; ++i) { if (r & 1) q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); else q(i, 4 + i, 8 + i, 12 + i); }
    size_t k = word++ % 16; return x[k] + in[k];
  }
};
[[maybe_unused]] const bool quiet = (FLAGS_minloglevel = 3, true);
Bytes MakeSeed(size_t n, int k) { Bytes b(n, 0); if (k == 1) b.assign(n, 0xff); if (k == 2) for (size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 17 + 3); if (k == 3) for (size_t i = 0; i < n; i += 4) { b[i] = 0x80 + uint8_t(i); b[i + 3] = 0x81; } if (k == 4) b[n - 1] = 0x80; return b; }
template <typename R> std::unique_ptr<typename R::Real> Copy(mc::Ctx& c, const typename R::Real& g, const std::string& log, bool* ok) {
  Bytes st(R::kState + 8, 0xaa); base::Buffer w(st.data(), R::kState); *ok = g.WriteToBuffer(w) && w.buffer_offset() == R::kState; MC_CHECK(c, *ok, "save", log);
  auto n = std::make_unique<typename R::Real>(); base::ReadOnlyBuffer r(st.data(), R::kState); bool rd = n->ReadFromBuffer(r); MC_CHECK(c, rd, "restore", log); *ok = *ok && rd; return n;
}
// Operations: 0 draw 32, 1 draw 64, 2 save and restore into a new generator, 3 a failing
// restore, 4 seed again, 5 a seed of a wrong length, 6 draw 15 words.
template <typename R> void Histories(mc::Ctx& c, int depth) {
  uint64_t id = 0;
  for (int seed = -1; seed < 5; ++seed) for (int skip : {0, 1, 14, 15, 16, 17, 31}) {
    if (R::kSeed == 16 && skip > 15) continue;
    mc::tuples(depth, 7, [&](const std::vector<int>& h) {
      if (!c.mine(id++)) return; mc::at("history", seed + 1, skip, id); R ref; auto g = std::make_unique<typename R::Real>(); std::string log = std::string(R::kName) + " seed " + std::to_string(seed) + " after " + std::to_string(skip) + ":"; c.trace();
      if (seed >= 0) { auto s = MakeSeed(R::kSeed, seed); bool ok = g->SetSeed(s); MC_CHECK(c, ok, "seed", log); ref.Seed(s); }
      for (int i = 0; i < skip; ++i) { uint32_t a = g->NextUint32(), b = ref.Next(); MC_CHECK(c, a == b, "stream", log << " skipping " << i); }
      for (int op : h) {
        c.step(); log += " "; log += std::to_string(op); bool ok = true;
        if (op == 0) { uint32_t a = g->NextUint32(), b = ref.Next(); MC_CHECK(c, a == b, "draw-32", log << ": " << a << " instead of " << b); }
        if (op == 1) { uint64_t a = g->NextUint64(), b = ref.Next(); b |= uint64_t(ref.Next()) << 32; MC_CHECK(c, a == b, "draw-64", log << ": " << a << " instead of " << b); }
        if (op == 2) { auto n = Copy<R>(c, *g, log, &ok); uint32_t peek = g->NextUint32(); g = std::move(n); R r2 = ref; MC_CHECK(c, peek == r2.Next(), "save-disturbs", log); }
        if (op == 3) { Bytes few(R::kState - 1, 0x11); base::ReadOnlyBuffer r(few.data(), few.size()); ok = g->ReadFromBuffer(r); MC_CHECK(c, !ok, "restore-short", log); Bytes out(R::kState - 1); base::Buffer w(out.data(), out.size()); ok = g->WriteToBuffer(w); MC_CHECK(c, !ok, "save-short", log); }
        if (op == 4) { auto s = MakeSeed(R::kSeed, 2); ok = g->SetSeed(s); ref.Seed(s); MC_CHECK(c, ok, "seed", log); }
        if (op == 5) for (size_t n : {size_t(0), R::kSeed - 1, R::kSeed + 1, R::kSeed == 16 ? size_t(32) : size_t(16)}) { ok = g->SetSeed(Bytes(n, 7)); MC_CHECK(c, !ok, "seed-length", log << " " << n); }
        if (op == 6) for (int i = 0; i < 15; ++i) { uint32_t a = g->NextUint32(), b = ref.Next(); MC_CHECK(c, a == b, "draw-many", log << " word " << i << ": " << a << " instead of " << b); }
      }
      uint32_t a = g->NextUint32(), b = ref.Next(); MC_CHECK(c, a == b, "after", log << ": " << a << " instead of " << b); c.state(mc::hash_bytes(h.data(), h.size() * 4, uint64_t(seed * 64 + skip)));
    });
  }
}
MC_SECTION(xorshift, 4) { Histories<RefXor>(c, c.thorough ? 6 : 5); }
MC_SECTION(chacha20, 4) { Histories<RefCha>(c, c.thorough ? 5 : 4); }
// Every seed with at most two bits set or cleared: right stream, and no two alike.
template <typename R> void Seeds(mc::Ctx& c) {
  std::map<std::vector<uint32_t>, std::string> seen; size_t n = R::kSeed * 8;
  for (int inv = 0; inv < 2; ++inv) for (size_t i = 0; i < n; ++i) for (size_t j = i; j < (R::kSeed == 16 || c.thorough ? n : std::min(n, i + 9)); ++j) {
    mc::at("seed", i, j, inv); Bytes s(R::kSeed, inv ? 0xff : 0); s[i / 8] ^= uint8_t(1 << i % 8); if (j != i) s[j / 8] ^= uint8_t(1 << j % 8); typename R::Real g; R ref; bool ok = g.SetSeed(s); ref.Seed(s); std::vector<uint32_t> v; for (int k = 0; k < 20; ++k) { v.push_back(g.NextUint32()); ok &= v.back() == ref.Next(); }
    std::string name = std::string(R::kName) + " bits " + std::to_string(i) + "," + std::to_string(j) + (inv ? " cleared" : " set"); MC_CHECK(c, ok, "seed-stream", name); auto [it, fresh] = seen.emplace(v, name); MC_CHECK(c, fresh, "seed-distinct", name << " and " << it->second); c.step(); c.trace();
  }
  c.states(seen.size());
}
MC_SECTION(seeds, 2) { if (c.shard == 0) Seeds<RefXor>(c); if (c.shard == 1) Seeds<RefCha>(c); }
// The block counter carries; a state whose position lies beyond the block is refused.
MC_SECTION(counter, 1) {
  for (uint64_t ctr : {uint64_t(0), uint64_t(1), uint64_t(0xfffffffe), uint64_t(0xffffffff), uint64_t(0x100000000), uint64_t(0x1ffffffff), uint64_t(0xfffffffeffffffff)}) for (size_t index = 0; index <= 40; ++index) {
    mc::at("counter", ctr, index); ChaCha20RNG g; bool ok; auto seed = MakeSeed(32, 2); (void)g.SetSeed(seed); Bytes st(136); base::Buffer w(st.data(), 136); ok = g.WriteToBuffer(w); MC_CHECK(c, ok, "save", "fresh generator");
    for (size_t i = 0; i < 8; ++i) st[i] = uint8_t(uint64_t(index) >> (8 * i)); for (size_t i = 0; i < 8; ++i) st[8 + 48 + i] = uint8_t(ctr >> (8 * i)); for (size_t i = 72; i < 136; ++i) st[i] = uint8_t(i);
    base::ReadOnlyBuffer r(st.data(), 136); ok = g.ReadFromBuffer(r); c.state(ctr * 64 + index); c.trace(); MC_CHECK(c, ok == (index <= 16), "restore-position", "position " << index << (ok ? " accepted" : " refused")); if (!ok || index > 16) continue;
    for (size_t i = index; i < 16; ++i) { c.step(); MC_CHECK(c, g.NextUint32() == le(&st[72 + i * 4]), "restored-block", "position " << index << " word " << i); }
    RefCha ref; ref.Seed(seed); ref.base = ctr; for (int i = 0; i < 40; ++i) { c.step(); MC_CHECK(c, g.NextUint32() == ref.Next(), "counter", "counter " << ctr << " word " << i); }
  }
  for (uint64_t index : {uint64_t(1) << 32, ~uint64_t(0), uint64_t(1) << 63}) { Bytes st(136, 0); for (size_t i = 0; i < 8; ++i) st[i] = uint8_t(index >> (8 * i)); ChaCha20RNG g; base::ReadOnlyBuffer r(st.data(), 136); bool ok = g.ReadFromBuffer(r); MC_CHECK(c, !ok, "restore-position", "position " << index); c.step(); }
}
// The C interface is the same generator.
template <typename R> void CApi(mc::Ctx& c) {
  uint64_t id = 0;
  for (int seed = 0; seed < 5; ++seed) for (int skip : {0, 15, 16}) mc::tuples(4, 3, [&](const std::vector<int>& h) {
    if (!c.mine(id++)) return; mc::at("c", seed, skip, id); auto s = MakeSeed(R::kSeed, seed); R ref; ref.Seed(s); tachyon_rng* g = tachyon_rng_create_from_seed(R::kType, s.data(), s.size()); for (int i = 0; i < skip; ++i) MC_CHECK(c, tachyon_rng_get_next_u32(g) == ref.Next(), "c-draw-32", R::kName << " skip");
    for (int op : h) { c.step();
      if (op == 0) { uint32_t a = tachyon_rng_get_next_u32(g), b = ref.Next(); MC_CHECK(c, a == b, "c-draw-32", R::kName << " seed " << seed << " " << mc::vstr(h)); }
      if (op == 1) { uint64_t a = tachyon_rng_get_next_u64(g), b = ref.Next(); b |= uint64_t(ref.Next()) << 32; MC_CHECK(c, a == b, "c-draw-64", R::kName << " seed " << seed << " " << mc::vstr(h)); }
      if (op == 2) { size_t n = 0; tachyon_rng_get_state(g, nullptr, &n); MC_CHECK(c, n == R::kState, "c-state-size", R::kName); Bytes st(n); tachyon_rng_get_state(g, st.data(), &n); tachyon_rng* g2 = tachyon_rng_create_from_state(R::kType, st.data(), n); tachyon_rng_destroy(g); g = g2; }
    }
    MC_CHECK(c, tachyon_rng_get_next_u32(g) == ref.Next(), "c-after", R::kName << " seed " << seed << " " << mc::vstr(h)); tachyon_rng_destroy(g); c.state(mc::hash_bytes(h.data(), h.size() * 4, uint64_t(seed * 64 + skip))); c.trace();
  });
}
MC_SECTION(c_interface, 1) { CApi<RefXor>(c); CApi<RefCha>(c); }
}  // namespace
