// C02: buffers and the serialization of built-in types and containers.
#include <array>
#include <cmath>
#include <limits>
#include <set>
#include <string>
#include "mc/c02_common.h"

namespace {
using namespace c02;

template <typename T> std::string ShowN(const T& v) { std::ostringstream o; o << sizeof(T) << "-byte number " << +v; return o.str(); }
template <typename T> bool Bits(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
template <typename T> std::vector<T> Values() {
  using L = std::numeric_limits<T>; std::vector<T> v;
  if constexpr (std::is_same_v<T, bool>) return {false, true};
  else if constexpr (std::is_floating_point_v<T>) return {T(0), -T(0), T(1), T(-1), T(0.1), T(-2.5), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(1e18), T(16777217)};
  else {
    using U = std::make_unsigned_t<T>; std::set<T> s{T(0), T(1), T(2), L::max(), L::min(), T(L::max() - 1), T(-1)};
    for (unsigned b = 0; b < sizeof(T) * 8; ++b) s.insert(T(U(U(1) << b)));
    for (unsigned b = 0; b < sizeof(T); ++b) s.insert(T(U(U(0xA7) << (8 * b))));
    U x = 0; for (unsigned b = 0; b < sizeof(T); ++b) x = U(x << (sizeof(T) > 1 ? 8 : 0)) | U(b + 1);
    s.insert(T(x));
    return std::vector<T>(s.begin(), s.end());
  }
}
template <typename T> void Num(mc::Ctx& c) { for (T v : Values<T>()) Check<T>(c, v, T(v == T(1)), Bits<T>, ShowN<T>, true, !std::is_same_v<T, bool>); }
MC_SECTION(integers, 1) {
  Num<bool>(c); Num<char>(c); Num<int8_t>(c); Num<uint8_t>(c); Num<int16_t>(c); Num<uint16_t>(c); Num<int32_t>(c); Num<uint32_t>(c); Num<int64_t>(c); Num<uint64_t>(c); Num<size_t>(c); Num<long long>(c);
}
template <typename T> void Chars(mc::Ctx& c) { for (T v : {T(0), T('a'), T(0x7f), std::numeric_limits<T>::max()}) Check<T>(c, v, T(1), [](const T& a, const T& b) { return a == b; }, [](const T& a) { return mc::vstr(std::vector<uint32_t>{uint32_t(a)}) + " character"; }); }
MC_SECTION(characters, 1) { Chars<wchar_t>(c); Chars<char16_t>(c); Chars<char32_t>(c); }
MC_SECTION(floats, 1) { Num<float>(c); Num<double>(c); }
enum class E8 : uint8_t { a, b = 200 }; enum class E16 : int16_t { a = -3, b = 0x1234 }; enum class E32 { a, b = -7 }; enum class E64 : uint64_t { a = 1, b = 0x123456789abcdef0 }; enum Plain { p0, p1 = 77 };
template <typename T> void Enum(mc::Ctx& c, T a, T b) { for (T v : {a, b}) Check<T>(c, v, a, [](const T& x, const T& y) { return x == y; }, [](const T& x) { return "enum " + std::to_string((long long)x); }); }
MC_SECTION(enums, 1) { Enum(c, E8::a, E8::b); Enum(c, E16::a, E16::b); Enum(c, E32::a, E32::b); Enum(c, E64::a, E64::b); Enum(c, p0, p1); }

// ---- strings
template <typename C> std::vector<std::basic_string<C>> Strings() {
  std::vector<std::basic_string<C>> v; std::vector<C> al{C(0), C('x'), std::numeric_limits<C>::max()};
  for (int n = 0; n <= 3; ++n) mc::tuples(n, 3, [&](const std::vector<int>& t) { std::basic_string<C> s; for (int i : t) s += al[i]; v.push_back(s); });
  v.push_back(std::basic_string<C>(15, C('y'))); v.push_back(std::basic_string<C>(16, C('z'))); v.push_back(std::basic_string<C>(40, C('w')));
  return v;
}
template <typename C> std::string ShowS(const std::basic_string<C>& s) { std::ostringstream o; o << "string of " << sizeof(C) << "-byte characters ["; for (C x : s) o << uint32_t(x) << " "; o << "]"; return o.str(); }
template <typename C> void Str(mc::Ctx& c) {
  using S = std::basic_string<C>; using V = std::basic_string_view<C>;
  for (auto& s : Strings<C>()) {
    Check<S>(c, s, S(5, C('q')), [](const S& a, const S& b) { return a == b; }, ShowS<C>);
    for (Endian e : kEndians) {
      bool o1, o2; auto a = Enc(s, e, &o1); auto b = Enc(V(s), e, &o2);
      MC_CHECK(c, o1 && o2 && a == b, "view", ShowS(s)); MC_CHECK(c, EstimateSize(V(s)) == b.size(), "view-estimate", ShowS(s));
      if constexpr (!std::is_same_v<C, unsigned char>) if (s.find(C(0)) == S::npos) { const C* p = s.c_str(); bool o3; auto d = Enc(p, e, &o3); MC_CHECK(c, o3 && a == d, "c-string", ShowS(s)); MC_CHECK(c, EstimateSize(p) == d.size(), "c-string-estimate", ShowS(s)); }
      c.step(2);
    }
  }
}
MC_SECTION(strings, 1) { Str<char>(c); Str<char16_t>(c); Str<char32_t>(c); Str<wchar_t>(c); }

// ---- containers
template <typename T> std::string Sh(const T& v);
template <typename T> struct Show { static std::string s(const T& v) { std::ostringstream o; if constexpr (std::is_enum_v<T>) o << (long long)v; else if constexpr (std::is_same_v<T, std::string>) o << '"' << v << '"'; else o << +v; return o.str(); } };
template <typename T> struct Show<std::vector<T>> { static std::string s(const std::vector<T>& v) { std::string r = "["; for (auto& x : v) r += Show<T>::s(x) + ","; return r + "]"; } };
template <typename T, size_t N> struct Show<std::array<T, N>> { static std::string s(const std::array<T, N>& v) { std::string r = "{"; for (auto& x : v) r += Show<T>::s(x) + ","; return r + "}"; } };
template <typename T> std::string Sh(const T& v) { return Show<T>::s(v); }
template <typename T> void Plainly(mc::Ctx& c, const std::vector<T>& vs) { for (auto& v : vs) Check<T>(c, v, vs.back(), [](const T& a, const T& b) { return a == b; }, Sh<T>); }
template <typename T> std::vector<std::vector<T>> Vecs(const std::vector<T>& al, int maxn) { std::vector<std::vector<T>> r; for (int n = 0; n <= maxn; ++n) mc::tuples(n, al.size(), [&](const std::vector<int>& t) { std::vector<T> v; for (int i : t) v.push_back(al[i]); r.push_back(v); }); return r; }
MC_SECTION(vectors, 1) {
  Plainly(c, Vecs<uint8_t>({0, 255}, 3)); Plainly(c, Vecs<uint16_t>({1, 0xff00}, 3)); Plainly(c, Vecs<int32_t>({-1, 7}, 3)); Plainly(c, Vecs<uint64_t>({1, ~0ull - 1}, 3));
  Plainly(c, Vecs<std::string>({"", "ab"}, 3)); Plainly(c, Vecs<E16>({E16::a, E16::b}, 2));
}
MC_SECTION(nested, 1) {
  Plainly(c, Vecs<std::vector<uint16_t>>(Vecs<uint16_t>({3, 0x1234}, 1), 2)); Plainly(c, Vecs<std::vector<std::string>>(Vecs<std::string>({"", "q"}, 1), 2));
  Plainly(c, std::vector<std::array<uint32_t, 3>>{{1, 2, 3}, {~0u, 0, 5}}); Plainly(c, std::vector<std::array<std::string, 2>>{{"a", ""}, {"xyz", "w"}});
  Plainly(c, Vecs<std::array<uint16_t, 2>>({{1, 2}, {0xffff, 3}}, 2)); Plainly(c, std::vector<std::array<std::vector<uint8_t>, 2>>{{std::vector<uint8_t>{1}, {}}, {std::vector<uint8_t>{}, {2, 3}}});
  Plainly(c, std::vector<std::array<uint8_t, 0>>{{}}); Plainly(c, std::vector<std::array<double, 2>>{{1.5, -2.25}});
}
// C arrays and spans: same encoding as the equivalent std::array / vector.
MC_SECTION(arrays_spans, 1) {
  mc::tuples(3, 4, [&](const std::vector<int>& t) {
    uint32_t al[] = {0, 1, 0x01020304, ~0u}; uint32_t raw[3] = {al[t[0]], al[t[1]], al[t[2]]}; std::array<uint32_t, 3> ar{raw[0], raw[1], raw[2]}; std::vector<uint32_t> ve(raw, raw + 3);
    std::string sa[2] = {std::string(t[0], 'a'), std::string(t[1], 'b')};
    for (Endian e : kEndians) {
      c.states(1); c.trace(1); bool o1, o2, o3, o4; auto d = [&] { return "array " + Sh(ve) + " " + Name(e); };
      Uint8VectorBuffer w; w.set_endian(e); o1 = w.Write(raw); auto b = Enc(ar, e, &o2);
      MC_CHECK(c, o1 && o2 && w.owned_buffer() == b, "c-array", d()); MC_CHECK(c, EstimateSize(raw) == b.size(), "c-array-estimate", d());
      uint32_t back[3] = {9, 9, 9}; ReadOnlyBuffer r(b.data(), b.size()); r.set_endian(e); bool o = r.Read(back);
      MC_CHECK(c, o && !memcmp(back, raw, sizeof raw) && r.Done(), "c-array-read", d());
      for (size_t k = 0; k < b.size(); ++k) { Block bl(k); memcpy(bl.data(), b.data(), k); ReadOnlyBuffer r2(bl.data(), k); r2.set_endian(e); uint32_t z[3]; MC_CHECK(c, !r2.Read(z), "c-array-truncation", d() << " " << k); c.step(1); }
      absl::Span<const uint32_t> sp(ve); auto s1 = Enc(sp, e, &o3); auto v1 = Enc(ve, e, &o4);
      MC_CHECK(c, o3 && o4 && s1 == v1, "span", d()); MC_CHECK(c, EstimateSize(sp) == s1.size(), "span-estimate", d());
      Uint8VectorBuffer w2; w2.set_endian(e); o1 = w2.Write(sa); std::string sb[2] = {"z", "zz"}; w2.set_buffer_offset(0); o2 = w2.Read(&sb[0]) && w2.Read(&sb[1]);
      MC_CHECK(c, o1 && o2 && sb[0] == sa[0] && sb[1] == sa[1] && w2.Done(), "c-array-strings", d()); MC_CHECK(c, EstimateSize(sa) == w2.owned_buffer().size(), "c-array-estimate", d());
    }
  });
}

// ---- sequences of writes then reads, mixed endianness, one or many calls
enum Kind { kU8, kU16, kU32, kU64, kF64, kStr, kVec, kEnum, kArr, kKinds };
struct Val { Kind k; int i; Endian e; };
struct Data { uint8_t u8[2] = {0, 0xfe}; uint16_t u16[2] = {0x0102, 0xfffe}; uint32_t u32[2] = {0x01020304, 0xfffffffe}; uint64_t u64[2] = {0x0102030405060708, ~1ull}; double f64[2] = {1.5, -1e-3}; std::string str[2] = {"", "hello"}; std::vector<uint16_t> vec[2] = {{}, {1, 0x203}}; E16 en[2] = {E16::a, E16::b}; std::array<uint32_t, 2> arr[2] = {{1, 2}, {~0u, 7}}; } kData;
template <typename F> auto With(const Val& v, F f) {
  switch (v.k) { case kU8: return f(kData.u8[v.i]); case kU16: return f(kData.u16[v.i]); case kU32: return f(kData.u32[v.i]); case kU64: return f(kData.u64[v.i]); case kF64: return f(kData.f64[v.i]); case kStr: return f(kData.str[v.i]); case kVec: return f(kData.vec[v.i]); case kEnum: return f(kData.en[v.i]); default: return f(kData.arr[v.i]); }
}
MC_SECTION(sequences, 8) {
  uint64_t no = 0;
  for (int n = 1; n <= (c.thorough ? 4 : 3); ++n) mc::tuples(n, kKinds * 3, [&](const std::vector<int>& t) {
    if (!c.mine(no++)) return;
    c.states(1); c.trace(1); std::vector<Val> vs; std::string d = "values"; size_t total = 0;
    for (size_t j = 0; j < t.size(); ++j) { vs.push_back({Kind(t[j] / 3), int((t[j] + j) % 2), kEndians[t[j] % 3]}); d += " " + std::to_string(t[j]); }
    std::vector<size_t> pos{0};
    Uint8VectorBuffer w;
    for (auto& v : vs) { With(v, [&](auto& x) { total += EstimateSize(x); EndianAutoReset r(w, v.e); MC_CHECK(c, w.Write(x), "seq-write", d); c.step(1); }); pos.push_back(total); MC_CHECK(c, w.buffer_offset() == total, "seq-offset", d); }
    MC_CHECK(c, w.endian() == Endian::kNative, "endian-reset", d); MC_CHECK(c, w.owned_buffer().size() == total, "seq-size", d);
    w.set_buffer_offset(0);
    for (size_t j = 0; j < vs.size(); ++j) With(vs[j], [&](auto& x) { typename std::decay<decltype(x)>::type y{}; EndianAutoReset r(w, vs[j].e); bool o = w.Read(&y); MC_CHECK(c, o && y == x && w.buffer_offset() == pos[j + 1], "seq-read", d << " item " << j); c.step(1); });
    MC_CHECK(c, w.Done(), "seq-done", d);
    // Random access in reverse order; overwriting in place leaves neighbours alone.
    for (size_t j = vs.size(); j-- > 0;) With(vs[j], [&](auto& x) { typename std::decay<decltype(x)>::type y{}; EndianAutoReset r(w, vs[j].e); bool o = w.ReadAt(pos[j], &y); MC_CHECK(c, o && y == x, "seq-read-at", d << " item " << j); });
    auto before = w.owned_buffer();
    for (size_t j = 0; j < vs.size(); ++j) With(vs[j], [&](auto& x) { EndianAutoReset r(w, vs[j].e); bool o = w.WriteAt(pos[j], x); MC_CHECK(c, o && w.owned_buffer() == before && w.buffer_offset() == pos[j + 1], "seq-rewrite", d << " item " << j); });
    // Moving buffers keeps content, position and endianness.
    auto half = pos[1]; w.set_buffer_offset(half); w.set_endian(Endian::kBig);
    Uint8VectorBuffer m(std::move(w)); MC_CHECK(c, m.owned_buffer() == before && m.buffer() == (const void*)m.owned_buffer().data() && m.buffer_offset() == half && m.buffer_len() == total && m.endian() == Endian::kBig, "move", d);
    Uint8VectorBuffer m2; m2 = std::move(m); MC_CHECK(c, m2.owned_buffer() == before && m2.buffer() == (const void*)m2.owned_buffer().data() && m2.buffer_offset() == half && m2.buffer_len() == total && m2.endian() == Endian::kBig, "move-assign", d);
    StringBuffer sb; sb.set_endian(Endian::kLittle); for (auto& v : vs) With(v, [&](auto& x) { EndianAutoReset r(sb, v.e); if (!sb.Write(x)) MC_CHECK(c, false, "seq-write", d); });
    std::string sbefore = sb.owned_buffer(); sb.set_buffer_offset(half);
    StringBuffer sm(std::move(sb)); MC_CHECK(c, sm.owned_buffer() == sbefore && sm.buffer_len() == total && sm.buffer_offset() == half && sm.endian() == Endian::kLittle, "string-move", d);
    MC_CHECK(c, sm.buffer() == (const void*)sm.owned_buffer().data(), "string-move-data", d);
    StringBuffer sm2; sm2 = std::move(sm); MC_CHECK(c, sm2.owned_buffer() == sbefore && sm2.buffer_len() == total && sm2.buffer() == (const void*)sm2.owned_buffer().data() && sm2.buffer_offset() == half, "string-move-assign", d);
    With(vs[0], [&](auto& x) { typename std::decay<decltype(x)>::type y{}; EndianAutoReset r(sm2, vs[0].e); bool o = sm2.ReadAt(0, &y); MC_CHECK(c, o && y == x, "string-move-read", d); });
  });
}
MC_SECTION(many, 1) {
  mc::tuples(4, 2, [&](const std::vector<int>& t) {
    uint8_t a = kData.u8[t[0]]; std::string b = kData.str[t[1]]; uint32_t g = kData.u32[t[2]]; std::vector<uint16_t> h = kData.vec[t[3]];
    size_t n = EstimateSize(a, b, g, h);
    for (Endian e : kEndians) for (size_t cap = 0; cap <= n + 1; ++cap) {
      c.states(1); c.trace(1); auto d = [&] { return "many " + mc::vstr(t) + Name(e) + " capacity " + std::to_string(cap); };
      Block bl(cap); Buffer w(bl.data(), cap); w.set_endian(e); bool o = w.WriteMany(a, b, g, h);
      MC_CHECK(c, o == (cap >= n) && bl.intact(), "write-many", d()); if (o) MC_CHECK(c, w.buffer_offset() == n, "offset", d());
      // Several values at an explicit offset follow one another.
      for (size_t off : {size_t(0), size_t(2)}) { Block b2(cap); Buffer w2(b2.data(), cap); w2.set_endian(e); bool o2 = w2.WriteManyAt(off, a, b, g, h);
        MC_CHECK(c, b2.intact(), "overwrite", d()); MC_CHECK(c, o2 == (cap >= off + n), "write-many-at", d() << " at " << off);
        if (o2 && cap >= off + n) MC_CHECK(c, w2.buffer_offset() == off + n, "write-many-at-offset", d() << " at " << off);
        if (o && o2 && cap >= off + n) MC_CHECK(c, !memcmp(bl.data(), b2.data() + off, n), "write-many-at-bytes", d() << " at " << off); }
      Uint8VectorBuffer full; full.set_endian(e); bool of = full.WriteMany(a, b, g, h); MC_CHECK(c, of, "write-many", d());
      size_t k = std::min(cap, n); Block b3(k); memcpy(b3.data(), full.owned_buffer().data(), k); ReadOnlyBuffer r(b3.data(), k); r.set_endian(e);
      uint8_t a2 = 9; std::string s2 = "zz"; uint32_t g2 = 9; std::vector<uint16_t> h2{9}; bool o3 = r.ReadMany(&a2, &s2, &g2, &h2);
      MC_CHECK(c, o3 == (k == n), "read-many", d()); if (k == n) MC_CHECK(c, a2 == a && s2 == b && g2 == g && h2 == h && r.Done(), "read-many-values", d());
      a2 = 9; s2 = "z"; g2 = 9; h2 = {9}; r.set_buffer_offset(0); bool o4 = r.ReadManyAt(0, &a2, &s2, &g2, &h2);
      MC_CHECK(c, o4 == (k == n), "read-many-at", d()); if (o4 && k == n) MC_CHECK(c, a2 == a && s2 == b && g2 == g && h2 == h && r.Done(), "read-many-at-values", d());
      c.step(4);
    }
  });
}
// ---- raw bytes, explicit endianness and pointers at every offset, including overflowing ones
MC_SECTION(offsets, 1) {
  std::vector<size_t> offs; for (size_t i = 0; i < 20; ++i) offs.push_back(i); for (size_t i = 0; i < 12; ++i) { offs.push_back(SIZE_MAX - i); offs.push_back(SIZE_MAX / 2 - 2 + i); }
  for (size_t cap = 0; cap <= 12; ++cap) for (size_t off : offs) {
    c.states(1); c.trace(1); Block b(cap); for (size_t i = 0; i < cap; ++i) b.data()[i] = uint8_t(i * 17 + 3); std::vector<uint8_t> orig(b.data(), b.data() + cap);
    auto fits = [&](size_t n) { return off <= cap && n <= cap - off; };
    auto d = [&](size_t n) { return std::to_string(n) + " bytes at " + std::to_string(off) + " of " + std::to_string(cap); };
    ReadOnlyBuffer r(b.data(), cap);
    for (size_t n : {size_t(0), size_t(1), size_t(3), size_t(12), SIZE_MAX, SIZE_MAX - off, SIZE_MAX - off + 1}) {
      if (n > 12 && fits(n)) continue;
      uint8_t dst[12]; bool o = r.ReadAt(off, dst, n); MC_CHECK(c, o == fits(n), "raw-read", d(n)); if (o && fits(n)) MC_CHECK(c, !memcmp(dst, orig.data() + off, n) && r.buffer_offset() == off + n, "raw-read-bytes", d(n));
      uint8_t src[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; if (n <= 12 || !fits(n)) { Buffer w(b.data(), cap); bool o2 = w.WriteAt(off, src, n); MC_CHECK(c, o2 == fits(n) && b.intact(), "raw-write", d(n)); if (fits(n)) MC_CHECK(c, !memcmp(b.data() + off, src, n) && w.buffer_offset() == off + n, "raw-write-bytes", d(n)); for (size_t i = 0; i < cap; ++i) if (!fits(n) || i < off || i >= off + n) MC_CHECK(c, b.data()[i] == orig[i], "raw-write-neighbour", d(n)); memcpy(b.data(), orig.data(), cap); }
      c.step(2);
    }
    for (size_t n : {size_t(0), size_t(1), size_t(2), size_t(3), SIZE_MAX, SIZE_MAX / 4, SIZE_MAX / 4 + 1, SIZE_MAX / 4 + 2, SIZE_MAX / 2 + 1}) {
      uint32_t* p = nullptr; bool ok = off <= cap && n <= (cap - off) / 4; r.set_buffer_offset(0); bool o = r.ReadPtrAt(off, &p, n);
      MC_CHECK(c, o == ok, "read-ptr", d(n) << " (4-byte elements) returned " << o); if (o && ok) MC_CHECK(c, (void*)p == (void*)(b.data() + off) && r.buffer_offset() == off + 4 * n, "read-ptr-value", d(n)); c.step(1);
    }
#define X(bits, type) { \
      const size_t n = bits / 8; type v = 0, le = 0, be = 0; if (fits(n)) for (size_t i = 0; i < n; ++i) { le |= type(type(orig[off + i]) << (8 * i)); be = type(be << 8) | orig[off + i]; } \
      bool o = r.Read##bits##LEAt(off, &v); MC_CHECK(c, o == fits(n) && (!o || v == le), "le" #bits, d(n)); v = 0; o = r.Read##bits##BEAt(off, &v); MC_CHECK(c, o == fits(n) && (!o || v == be), "be" #bits, d(n)); \
      Buffer w(b.data(), cap); o = w.Write##bits##LEAt(off, be); MC_CHECK(c, o == fits(n) && b.intact(), "wle" #bits, d(n)); if (fits(n)) for (size_t i = 0; i < n; ++i) MC_CHECK(c, b.data()[off + i] == orig[off + n - 1 - i], "wle-bytes" #bits, d(n)); memcpy(b.data(), orig.data(), cap); \
      o = w.Write##bits##BEAt(off, be); MC_CHECK(c, o == fits(n) && b.intact() && !memcmp(b.data(), orig.data(), cap), "wbe" #bits, d(n)); memcpy(b.data(), orig.data(), cap); \
      if (off <= cap) { w.set_buffer_offset(off); o = w.Write##bits##LE(le); MC_CHECK(c, o == fits(n) && (!o || w.buffer_offset() == off + n) && !memcmp(b.data(), orig.data(), cap), "wle-seq" #bits, d(n)); memcpy(b.data(), orig.data(), cap); w.set_buffer_offset(off); v = 0; o = w.Read##bits##BE(&v); MC_CHECK(c, o == fits(n) && (!o || (v == be && w.buffer_offset() == off + n)), "be-seq" #bits, d(n)); w.set_buffer_offset(off); v = 0; o = w.Read##bits##LE(&v); MC_CHECK(c, o == fits(n) && (!o || v == le), "le-seq" #bits, d(n)); } c.step(4); }
    X(16, uint16_t) X(32, uint32_t) X(64, uint64_t)
#undef X
    // A growable buffer extends to the written range (gap zero-filled).
    if (off < 20) { Uint8VectorBuffer g(orig); StringBuffer sg; uint8_t src[3] = {7, 8, 9}; bool o = g.WriteAt(off, src, 3); MC_CHECK(c, o && g.owned_buffer().size() == std::max(cap, off + 3) && g.buffer_len() == g.owned_buffer().size(), "grow", d(3)); if (o) { bool same = true; for (size_t i = 0; i < g.owned_buffer().size(); ++i) { uint8_t w = i >= off && i < off + 3 ? src[i - off] : i < cap ? orig[i] : 0; same = same && g.owned_buffer()[i] == w; } MC_CHECK(c, same, "grow-bytes", d(3)); }
      o = sg.WriteAt(off, src, 3); MC_CHECK(c, o && sg.owned_buffer().size() == off + 3 && !memcmp(sg.owned_buffer().data() + off, src, 3), "grow-string", d(3)); }
    else { Uint8VectorBuffer g(orig); if (off > SIZE_MAX - 2) { uint8_t src[3] = {7, 8, 9}; MC_CHECK(c, !g.WriteAt(off, src, 3) && g.owned_buffer() == orig, "grow-overflow", d(3)); } }
  }
}
}  // namespace
