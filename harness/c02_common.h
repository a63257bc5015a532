// C02: for one value, every endianness, preceding content, truncation length,
// buffer capacity and single-byte corruption.
#ifndef MC_C02_COMMON_H_
#define MC_C02_COMMON_H_
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <sstream>
#include "mc/mc.h"
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/base/buffer/string_buffer.h"
#include "tachyon/base/buffer/vector_buffer.h"

namespace c02 {
using namespace tachyon::base;
inline const Endian kEndians[] = {Endian::kNative, Endian::kLittle, Endian::kBig};
inline const char* Name(Endian e) { return e == Endian::kNative ? "native" : e == Endian::kBig ? "big" : "little"; }

// Heap block of exactly n bytes inside a canary frame (the frame is only used
// without ASan; with it the block is exact so that any overrun is reported).
struct Block {
#if defined(__SANITIZE_ADDRESS__)
  static constexpr size_t kPad = 0;
#else
  static constexpr size_t kPad = 32;
#endif
  uint8_t* raw; size_t n;
  explicit Block(size_t n) : raw((uint8_t*)malloc(n + 2 * kPad + (n + kPad == 0))), n(n) { memset(raw, 0xA5, n + 2 * kPad); }
  ~Block() { free(raw); }
  uint8_t* data() { return raw + kPad; }
  bool intact() const { for (size_t i = 0; i < kPad; ++i) if (raw[i] != 0xA5 || raw[kPad + n + i] != 0xA5) return false; return true; }
};

template <typename T> struct Ops {
  std::string (*show)(const T&);
  bool (*eq)(const T&, const T&);
};

// The encoding of v by a growable buffer.
template <typename T> std::vector<uint8_t> Enc(const T& v, Endian e, bool* ok) {
  Uint8VectorBuffer w; w.set_endian(e); *ok = w.Write(v); return std::move(w).TakeOwnedBuffer();
}

template <typename T, typename Eq, typename Show>
void Check(mc::Ctx& c, const T& v, const T& dirty, Eq eq, Show show, bool endian = true, bool corrupt = true) {
  for (Endian e : kEndians) {
    if (!endian && e != Endian::kNative) continue;
    auto d = [&] { return show(v) + " (" + Name(e) + " endian)"; };
    if (c.want_sample()) c.sample("write, read, truncate and corrupt " + d());
    c.states(1); c.trace(1);
    mc::at("value", (uint64_t)e);
    const size_t est = EstimateSize(v);
    bool ok; std::vector<uint8_t> enc = Enc(v, e, &ok);
    MC_CHECK(c, ok, "write", d());
    MC_CHECK(c, enc.size() == est, "estimate", d() << " estimated " << est << " wrote " << enc.size());
    { std::string s; StringBuffer w; w.set_endian(e); bool o2 = w.Write(v); s = std::string(w.owned_buffer());
      MC_CHECK(c, o2, "write", d() << " string buffer"); MC_CHECK(c, s == std::string(enc.begin(), enc.end()), "string-buffer", d()); }
    const size_t n = enc.size();
    // Position independence.
    for (size_t pre : {size_t(1), size_t(3), size_t(8)}) {
      Uint8VectorBuffer w; w.set_endian(e);
      for (size_t i = 0; i < pre; ++i) if (!w.Write(uint8_t(0xC0 + i))) MC_CHECK(c, false, "write", "byte");
      bool o2 = w.Write(v); o2 = w.Write(uint8_t(0x77)) && o2;
      MC_CHECK(c, o2, "write", d() << " at " << pre);
      const auto& b = w.owned_buffer();
      MC_CHECK(c, b.size() == pre + n + 1 && w.buffer_offset() == b.size() && w.Done(), "offset", d() << " at " << pre);
      MC_CHECK(c, b.size() == pre + n + 1 && std::equal(enc.begin(), enc.end(), b.begin() + pre) && b.back() == 0x77, "position", d() << " at " << pre);
      ReadOnlyBuffer r(b.data(), b.size()); r.set_endian(e); T x = dirty;
      bool o3 = r.ReadAt(pre, &x);
      MC_CHECK(c, o3 && eq(x, v), "read-at", d() << " at " << pre);
      uint8_t last = 0; bool o4 = r.Read(&last);
      MC_CHECK(c, o4 && last == 0x77 && r.Done(), "read-following", d() << " at " << pre);
      c.step(3);
    }
    // Every capacity.
    for (size_t cap = 0; cap <= n + 2; ++cap) {
      if (n > 200 && cap > 24 && cap + 24 < n && cap % 37) continue;
      Block b(cap); mc::at("capacity", cap);
      Buffer w(b.data(), cap); w.set_endian(e); bool o = w.Write(v);
      MC_CHECK(c, o == (cap >= n), "capacity", d() << " capacity " << cap << " of " << n << " returned " << o);
      MC_CHECK(c, b.intact(), "overwrite", d() << " capacity " << cap);
      if (o) MC_CHECK(c, w.buffer_offset() == n, "offset", d() << " capacity " << cap);
      if (o && cap >= n) MC_CHECK(c, !memcmp(b.data(), enc.data(), n), "fixed-bytes", d() << " capacity " << cap);
      if (o && cap > n) MC_CHECK(c, b.data()[n] == 0xA5, "overwrite", d() << " after the value, capacity " << cap);
      c.step(1);
    }
    // Every truncation.
    for (size_t k = 0; k <= n; ++k) {
      if (n > 200 && k > 24 && k + 24 < n && k % 37) continue;
      Block b(k); memcpy(b.data(), enc.data(), k); mc::at("truncated", k);
      ReadOnlyBuffer r(b.data(), k); r.set_endian(e); T x = dirty; bool o = r.Read(&x);
      MC_CHECK(c, o == (k == n), "truncation", d() << " first " << k << " of " << n << " bytes returned " << o);
      MC_CHECK(c, b.intact() && r.buffer_offset() <= k, "overread", d() << " first " << k);
      if (k == n) { MC_CHECK(c, r.Done(), "offset", d()); MC_CHECK(c, eq(x, v), "round-trip", d() << " read " << show(x)); T y{}; ReadOnlyBuffer r2(b.data(), k); r2.set_endian(e); bool o2 = r2.Read(&y); MC_CHECK(c, o2 && eq(y, v), "round-trip", d() << " into a default value"); }
      c.step(1);
    }
    // Every single-byte corruption: an answer, never an abort or an over-read;
    // an accepted value is well formed (it round-trips again).
    if (corrupt) for (size_t i = 0; i < n; ++i) {
      if (n > 160 && i > 40 && i + 24 < n && i % 11) continue;
      for (int m : {0x01, 0x80, 0xff, 0x7f}) {
        Block b(n); memcpy(b.data(), enc.data(), n); b.data()[i] ^= (uint8_t)m;
        mc::at("corrupt", i, (uint64_t)m);
        ReadOnlyBuffer r(b.data(), n); r.set_endian(e); T x = dirty; bool o = false, threw = false;
        try { o = r.Read(&x); } catch (const std::exception&) { threw = true; }
        MC_CHECK(c, !threw, "malformed-abort", d() << " byte " << i << " ^ " << m);
        MC_CHECK(c, b.intact() && r.buffer_offset() <= n, "overread", d() << " byte " << i << " ^ " << m);
        if (o) { bool w; auto e2 = Enc(x, e, &w); MC_CHECK(c, w && e2.size() == EstimateSize(x), "malformed-estimate", d() << " byte " << i << " ^ " << m);
          T y = dirty; ReadOnlyBuffer r2(e2.data(), e2.size()); r2.set_endian(e); bool o2 = r2.Read(&y);
          MC_CHECK(c, o2 && eq(x, y), "malformed-accepted", d() << " byte " << i << " ^ " << m << " accepted as " << show(x)); }
        c.step(1);
      }
    }
  }
}
}  // namespace c02
#endif
