// C31: number <-> text conversions and string helpers against naive parsers and printers.
#include <cmath>
#include <cstdlib>
#include <cstring>
#include "tachyon/base/strings/rust_stringifier.h"
#include "tachyon/base/strings/string_number_conversions.h"
#include "tachyon/base/strings/string_util.h"
#include "mc/mc.h"
using namespace tachyon::base;
namespace {
using I = __int128;
std::string Q(std::string_view s) { std::string r = "\""; char b[8]; for (unsigned char ch : s) if (ch >= 32 && ch < 127) r += ch; else { snprintf(b, 8, "\\x%02x", ch); r += b; } return r + "\""; }
bool Ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// The numeral grammar: optional surrounding white space, optional sign, digits (hexadecimal: optional 0x before them).
// Returns 0: malformed, 1: in range, 2: out of range (v clipped).
template <typename T> int Parse(std::string_view s, bool hex, I* out) {
  size_t b = 0, e = s.size(); while (b < e && Ws(s[b])) ++b; while (e > b && Ws(s[e - 1])) --e;
  bool neg = false; if (b < e && (s[b] == '+' || s[b] == '-')) neg = s[b++] == '-';
  if (hex && e - b >= 2 && s[b] == '0' && (s[b + 1] == 'x' || s[b + 1] == 'X')) b += 2;
  if (b == e || (neg && std::is_unsigned_v<T>)) return 0;
  I v = 0, lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); bool over = false; int radix = hex ? 16 : 10;
  for (; b < e; ++b) {
    char c = s[b]; int d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    if (d < 0) return over ? 3 : 0;  // 3: out of range digits before the stray character; failing either way
    v = v * radix + (neg ? -d : d); if (v < lo) { v = lo; over = true; } if (v > hi) { v = hi; over = true; }
  }
  *out = v; return over ? 2 : 1;
}
template <typename T, typename F> void TryInt(mc::Ctx& c, std::string_view s, bool hex, F f, const char* key) {
  I want = 0; int k = Parse<T>(s, hex, &want); T got = T(77); c.step();
  // the view must not be read beyond its end: hand out an exactly sized heap copy
  std::unique_ptr<char[]> copy(new char[s.size()]); memcpy(copy.get(), s.data(), s.size());
  bool ok = f(std::string_view(copy.get(), s.size()), &got);
  MC_CHECK(c, ok == (k == 1) && (k == 0 || k == 3 || (I)got == want), key, Q(s) + " returned " + std::to_string(ok) + " value " + std::to_string(got));
}
void TryAll(mc::Ctx& c, std::string_view s) {
  mc::at("text", s.size()); c.states(1);
  TryInt<int>(c, s, false, StringToInt, "to_int"); TryInt<unsigned>(c, s, false, StringToUint, "to_uint"); TryInt<int64_t>(c, s, false, StringToInt64, "to_int64");
  TryInt<uint64_t>(c, s, false, StringToUint64, "to_uint64"); TryInt<size_t>(c, s, false, StringToSizeT, "to_size_t");
  TryInt<int>(c, s, true, HexStringToInt, "hex_to_int"); TryInt<unsigned>(c, s, true, HexStringToUint, "hex_to_uint"); TryInt<int64_t>(c, s, true, HexStringToInt64, "hex_to_int64"); TryInt<uint64_t>(c, s, true, HexStringToUint64, "hex_to_uint64");
}
std::string Print(I v, int radix) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(int)(u % radix)]); u /= radix; } while (u); return n ? "-" + s : s; }
template <typename T, typename F, typename H> void Round(mc::Ctx& c, T v, F f, H h) {
  std::string s = NumberToString(v); T g = T(v + 1); c.states(1); c.step(2);
  MC_CHECK(c, s == Print(v, 10) && f(s, &g) && g == v, "round_trip", s);
  auto hs = HexToString(v); MC_CHECK(c, hs == Print((I)(std::make_unsigned_t<T>)v, 16), "hex_print", hs);
  if (v >= 0) { T k = T(v + 1); MC_CHECK(c, h(hs, &k) && k == v, "hex_round_trip", hs); T k2 = T(v + 1); MC_CHECK(c, h("0x" + hs, &k2) && k2 == v, "hex_round_trip_0x", hs); }
}
// floating point numeral grammar
bool FloatText(std::string_view s, bool* special) {
  size_t i = 0, e = s.size(); *special = false; while (i < e && Ws(s[i])) ++i; while (e > i && Ws(s[e - 1])) --e;
  if (i < e && s[i] == '+') { ++i; if (i < e && s[i] == '-') return false; }
  if (i < e && s[i] == '-') ++i;
  size_t d = 0; while (i < e && isdigit(s[i])) ++i, ++d; if (i < e && s[i] == '.') { ++i; while (i < e && isdigit(s[i])) ++i, ++d; }
  if (!d) return false;
  if (i < e && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < e && (s[i] == '+' || s[i] == '-')) ++i; size_t x = i; while (i < e && isdigit(s[i])) ++i; if (x == i) return false; }
  return i == e;
}
void TryFloat(mc::Ctx& c, const std::string& s) {
  bool sp; bool want = FloatText(s, &sp); double d = 77; float f = 77; c.states(1); c.step(2);
  bool okd = StringToDouble(s, &d), okf = StringToFloat(s, &f);
  std::string t = s; while (!t.empty() && Ws(t[0])) t.erase(0, 1);
  MC_CHECK(c, okd == want && (!want || (d == strtod(t.c_str(), nullptr) && std::signbit(d) == std::signbit(strtod(t.c_str(), nullptr)))), "to_double", Q(s) + " " + std::to_string(okd) + " " + std::to_string(d));
  MC_CHECK(c, okf == want && (!want || f == strtof(t.c_str(), nullptr)), "to_float", Q(s) + " " + std::to_string(okf) + " " + std::to_string(f));
}
template <typename F> void Words(const char* alpha, size_t k, int maxlen, mc::Ctx& c, F f) {
  uint64_t id = 0; for (int n = 0; n <= maxlen; ++n) mc::tuples(n, (int)k, [&](const std::vector<int>& t) { if (!c.mine(id++ / 64)) return; std::string s; for (int i : t) s += alpha[i]; f(s); });
}
char Lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char Upper(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
std::string Map(std::string s, char (*f)(char)) { for (char& c : s) c = f(c); return s; }
}  // namespace
MC_SECTION(short_texts, 8) { static const char a[] = "019-+ xaF\t\0.g"; Words(a, 13, c.thorough ? 6 : 5, c, [&](const std::string& s) { TryAll(c, s); }); c.trace(); }
MC_SECTION(all_bytes, 8) { for (int b = 0; b < 256; ++b) { if (!c.mine(b)) continue; for (const char* base : {"", "1", "12", "0x1", "-7", "0x", " 3 "}) { std::string s = base; for (size_t i = 0; i <= s.size(); ++i) { std::string t = s; t.insert(t.begin() + i, (char)b); TryAll(c, t); for (int b2 : {0, 9, 32, 43, 45, 48, 88, 102, 128, 255}) { std::string u = t; u.insert(u.begin() + (b * 3 + b2) % (u.size() + 1), (char)b2); TryAll(c, u); } } } } c.trace(); }
MC_SECTION(limits, 8) {
  std::vector<I> ms; for (I lim : {(I)INT32_MAX, (I)INT32_MIN, (I)UINT32_MAX, (I)INT64_MAX, (I)INT64_MIN, (I)UINT64_MAX, (I)0, -(I)UINT32_MAX, -(I)UINT64_MAX, (I)1 << 65}) for (int d = -40; d <= 40; ++d) ms.push_back(lim + d);
  for (int k = 1; k < 70; ++k) for (int d = -1; d <= 1; ++d) { ms.push_back(((I)1 << k) + d); ms.push_back(-((I)1 << k) + d); }
  { I p = 1; for (int k = 0; k < 25; ++k, p *= 10) { ms.push_back(p); ms.push_back(p - 1); ms.push_back(-p); ms.push_back(p * 3); } }
  for (size_t i = 0; i < ms.size(); ++i) { if (!c.mine(i)) continue; for (int radix : {10, 16}) { std::string s = Print(ms[i], radix); bool n = s[0] == '-'; std::string d = s.substr(n), sg = n ? "-" : "";
      for (auto t : {s, "+" + d, sg + "0" + d, sg + "0000000000000000000000" + d, sg + "0x" + d, sg + "0X" + d, s + "0", s + " ", " " + s, s + "g", sg + " " + d, sg + sg + d, "0" + s, sg + "0x0x" + d, s + std::string(1, '\0')}) TryAll(c, t);
      std::string U = Map(s, Upper); TryAll(c, U); } }
  c.trace();
}
MC_SECTION(round_trip, 8) {
  auto one = [&](uint32_t u) { Round<int>(c, (int)u, StringToInt, HexStringToInt); Round<unsigned>(c, u, StringToUint, HexStringToUint); };
  uint64_t stride = c.thorough ? 1021 : 65521; for (uint64_t u = c.shard * stride; u < (1ull << 32); u += stride * c.nshards) one((uint32_t)u);
  for (uint32_t u = 0; u < 40000; ++u) if (c.mine(u)) { one(u); one(0u - u); one(0x7fffffffu - u); one(0x80000000u + u); }
  for (int i = 0; i < 64; ++i) for (int j = 0; j <= i; ++j) { if (!c.mine(i)) continue; for (int d = -2; d <= 2; ++d) { uint64_t u = (1ull << i) + (1ull << j) + d; Round<int64_t>(c, (int64_t)u, StringToInt64, HexStringToInt64); Round<int64_t>(c, -(int64_t)u, StringToInt64, HexStringToInt64); Round<uint64_t>(c, u, StringToUint64, HexStringToUint64); Round<uint64_t>(c, ~u, StringToUint64, HexStringToUint64); Round<size_t>(c, u, StringToSizeT, HexStringToUint64); } }
  for (int v = -32768; v < 32768; ++v) if (c.mine(v & 7)) { c.step(2); MC_CHECK(c, NumberToString((int16_t)v) == Print(v, 10) && NumberToString((uint16_t)v) == Print((uint16_t)v, 10), "short_print", Print(v, 10)); }
  c.trace();
}
MC_SECTION(floats, 8) {
  Words("10.e-+ 5", 8, c.thorough ? 7 : 6, c, [&](const std::string& s) { TryFloat(c, s); });
  // decimal text of every binary exponent parses back to the very same double
  for (int e = -1074; e <= 1023; ++e) { if (!c.mine(e & 1023)) continue; for (double m : {1.0, 1.5, 1.0 + 0x1p-52, 2.0 - 0x1p-52, 1.3333333333333333, 1.1}) for (int sg = -1; sg <= 1; sg += 2) { double v = sg * ldexp(m, e); if (!std::isfinite(v)) continue; char b[64]; snprintf(b, 64, "%.17g", v); double r = 0; c.states(1); c.step(3);
      MC_CHECK(c, StringToDouble(b, &r) && r == v, "double_17g", b); float fv = (float)v; if (std::isfinite(fv)) { snprintf(b, 64, "%.9g", (double)fv); float fr = 1; MC_CHECK(c, StringToFloat(b, &fr) && fr == fv, "float_9g", b); }
      snprintf(b, 64, "%.6g", v); MC_CHECK(c, NumberToString(v) == b, "double_print", b); } }
  if (c.mine(3)) for (const char* s : {"inf", "-inf", "nan", "INF", "Infinity", "-NaN"}) { double d = 0; c.step(); bool n = tolower(s[s[0] == '-']) == 'n'; MC_CHECK(c, StringToDouble(s, &d) && (n ? std::isnan(d) : std::isinf(d) && (d < 0) == (s[0] == '-')), "special", s); }
  if (c.mine(4)) for (const char* s : {"1f", "1e", "infi", "1.5.2", "--1", "1 2", ".", "e5", "1_0", ""}) { double d = 0; float f; c.step(); MC_CHECK(c, !StringToDouble(s, &d) && !StringToFloat(s, &f), "float_reject", s); }
  c.trace();
}
MC_SECTION(bytes, 8) {
  // encoding: every byte value in every position of 1..4, both cases; decoding: every text of length <= 5
  for (int n = 0; n <= 4; ++n) for (int pos = 0; pos < std::max(n, 1); ++pos) for (int b = 0; b < 256; ++b) { if (!c.mine(b)) continue; std::vector<uint8_t> v(n, 0x5a); if (n) v[pos] = b; std::string e; for (uint8_t x : v) { char t[4]; snprintf(t, 4, "%02x", x); e += t; }
      c.states(1); c.step(4); MC_CHECK(c, HexEncode(v.data(), v.size(), true) == e && HexEncode(absl::MakeConstSpan(v), true) == e && HexEncode(v.data(), v.size(), false) == Map(e, Upper) && HexEncode(absl::MakeConstSpan(v), false) == Map(e, Upper), "hex_encode", e);
      std::vector<uint8_t> o; std::string os; std::vector<uint8_t> sp(n, 1); bool w = n > 0; MC_CHECK(c, HexStringToBytes(e, &o) == w && o == v && HexStringToString(e, &os) == w && os == std::string(v.begin(), v.end()) && HexStringToSpan(e, absl::MakeSpan(sp)) == w && (!w || sp == v), "hex_decode", e); }
  static const char a[] = "09aAfFgG/:@`x \0"; Words(a, 15, 5, c, [&](const std::string& s) {
    std::vector<uint8_t> want; bool ok = !s.empty() && s.size() % 2 == 0; auto dig = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; };
    if (ok) for (size_t i = 0; i < s.size(); i += 2) { int h = dig(s[i]), l = dig(s[i + 1]); if (h < 0 || l < 0) { ok = false; break; } want.push_back(h * 16 + l); }
    std::vector<uint8_t> o; std::string os; c.states(1); c.step(3); MC_CHECK(c, HexStringToBytes(s, &o) == ok && o == want, "bytes_text", Q(s)); MC_CHECK(c, HexStringToString(s, &os) == ok && os == std::string(want.begin(), want.end()), "string_text", Q(s));
    for (size_t n = 0; n <= 3; ++n) { std::vector<uint8_t> sp(n + 1, 0xcc); bool r = HexStringToSpan(s, absl::MakeSpan(sp.data(), n)); bool sz = s.size() / 2 == n; bool good = r == (ok && sz) && sp[n] == 0xcc; if (sz) { for (size_t i = 0; i < want.size(); ++i) good = good && sp[i] == want[i]; } else for (uint8_t x : sp) good = good && x == 0xcc; MC_CHECK(c, good, "span_text", Q(s) + " into " + std::to_string(n)); } });
  c.trace();
}
MC_SECTION(helpers, 8) {
  static const char a[] = "aAzZ[`0x\xe1\xc1"; std::vector<std::string> ws; for (int n = 0; n <= 3; ++n) mc::tuples(n, 10, [&](const std::vector<int>& t) { std::string s; for (int i : t) s += a[i]; ws.push_back(s); });
  for (size_t i = 0; i < ws.size(); ++i) { if (!c.mine(i)) continue; const std::string& s = ws[i]; c.states(1); c.step(8);
    std::u16string u; for (char ch : s) u += (char16_t)(unsigned char)ch; auto u16 = [](const std::string& t) { std::u16string r; for (char ch : t) r += (char16_t)(unsigned char)ch; return r; };
    std::string lo = Map(s, Lower), up = Map(s, Upper), cap = s; if (!s.empty()) cap[0] = Upper(cap[0]);
    MC_CHECK(c, ToLowerASCII(s) == lo && ToUpperASCII(s) == up && CapitalizeASCII(s) == cap, "case", Q(s)); MC_CHECK(c, ToLowerASCII(u) == u16(lo) && ToUpperASCII(u) == u16(up) && CapitalizeASCII(u) == u16(cap), "case16", Q(s));
    std::string pre = s.substr(0, 2) == "0x" ? s : "0x" + s; std::string tmp = s; MC_CHECK(c, MaybePrepend0x(s) == pre && MaybePrepend0x(std::string_view(s)) == pre && MaybePrepend0x(std::move(tmp)) == pre, "prepend0x", Q(s));
    { std::string_view v = s; bool r = ConsumePrefix0x(&v); MC_CHECK(c, r == (s.substr(0, 2) == "0x") && v == (r ? s.substr(2) : s), "consume0x", Q(s)); }
    bool p = s.substr(0, 2) == "0x"; std::string body = p ? s.substr(2) : s; for (size_t n = s.size(); n < 9; ++n) { c.step(); MC_CHECK(c, ToHexStringWithLeadingZero(s, n) == (p ? "0x" : "") + std::string(n - body.size(), '0') + body, "leading_zero", Q(s) + " " + std::to_string(n)); }
    for (size_t j = 0; j < ws.size(); ++j) { const std::string& t = ws[j]; c.states(1); c.step(6); std::string lt = Map(t, Lower), w = Q(s) + " " + Q(t);
      int cmp = 0; { size_t k = 0; while (k < lo.size() && k < lt.size() && lo[k] == lt[k]) ++k; if (k < lo.size() && k < lt.size()) cmp = (unsigned char)lo[k] < (unsigned char)lt[k] ? -1 : 1; else cmp = lo.size() < lt.size() ? -1 : lo.size() > lt.size(); }
      MC_CHECK(c, CompareCaseInsensitiveASCII(s, t) == cmp && EqualsCaseInsensitiveASCII(s, t) == (lo == lt), "compare_ci", w);
      bool sw = s.size() >= t.size() && s.compare(0, t.size(), t) == 0, ew = s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
      bool swi = s.size() >= t.size() && lo.compare(0, t.size(), lt) == 0, ewi = s.size() >= t.size() && lo.compare(lo.size() - t.size(), t.size(), lt) == 0;
      MC_CHECK(c, StartsWith(s, t) == sw && EndsWith(s, t) == ew, "starts_ends", w); MC_CHECK(c, StartsWith(s, t, CompareCase::INSENSITIVE_ASCII) == swi && EndsWith(s, t, CompareCase::INSENSITIVE_ASCII) == ewi, "starts_ends_ci", w);
      auto cons = [&](bool prefix, CompareCase cc, bool want, const char* key) { std::string_view v = s; bool r = prefix ? ConsumePrefix(&v, t, cc) : ConsumeSuffix(&v, t, cc); std::string rest = !want ? s : prefix ? s.substr(t.size()) : s.substr(0, s.size() - t.size()); MC_CHECK(c, r == want && v == rest, key, w); };
      cons(true, CompareCase::SENSITIVE, sw, "consume_prefix"); cons(false, CompareCase::SENSITIVE, ew, "consume_suffix"); cons(true, CompareCase::INSENSITIVE_ASCII, swi, "consume_prefix_ci"); cons(false, CompareCase::INSENSITIVE_ASCII, ewi, "consume_suffix_ci"); } }
  c.trace();
}
struct HexItem { std::string s; std::string ToHexString(bool pad) const { return pad ? "0x0" + s : "0x" + s; } };
struct Pair2 { int a; std::vector<bool> b; };
namespace tachyon::base::internal {
template <> class RustDebugStringifier<Pair2> { public: static std::ostream& AppendToStream(std::ostream& os, RustFormatter& fmt, const Pair2& v) { auto s = fmt.DebugStruct("Pair2"); s.Field("a", v.a); for (bool x : v.b) s.Field("b", x); return os << s.Finish(); } };
template <> class RustDebugStringifier<HexItem> { public: static std::ostream& AppendToStream(std::ostream& os, RustFormatter& fmt, const HexItem& v) { auto t = fmt.DebugTuple("Hex"); for (char ch : v.s) t.Field((int)ch - '0'); return os << t.Finish(); } };
}
MC_SECTION(printers, 2) {
  // nested containers: every shape of depth 3 with rows of 0..2 entries
  std::vector<std::vector<int>> rows = {{}, {1}, {-2, 30}}; auto l1 = [](const std::vector<int>& r) { std::string s = "["; for (size_t i = 0; i < r.size(); ++i) s += (i ? ", " : "") + std::to_string(r[i]); return s + "]"; };
  auto join = [](const std::vector<std::string>& p) { std::string s = "["; for (size_t i = 0; i < p.size(); ++i) s += (i ? ", " : "") + p[i]; return s + "]"; };
  std::vector<std::vector<std::vector<int>>> d2; std::vector<std::string> s2; for (int n = 0; n <= 3; ++n) mc::tuples(n, 3, [&](const std::vector<int>& t) { std::vector<std::vector<int>> m; std::vector<std::string> p; for (int i : t) { m.push_back(rows[i]); p.push_back(l1(rows[i])); } d2.push_back(m); s2.push_back(join(p)); });
  for (size_t i = 0; i < d2.size(); ++i) { c.states(1); c.step(2); MC_CHECK(c, Container2DToString(d2[i]) == s2[i] && ToRustDebugString(d2[i]) == s2[i], "c2d", s2[i]);
    for (size_t j = 0; j < d2.size(); ++j) { std::vector<decltype(d2)::value_type> d3{d2[i], d2[j]}; std::string s3 = join({s2[i], s2[j]}); c.states(1); c.step(3); MC_CHECK(c, Container3DToString(d3) == s3 && ToRustDebugString(d3) == s3, "c3d", s3); std::vector<decltype(d3)> d4{d3, {}, d3}; std::string s4 = join({s3, "[]", s3}); MC_CHECK(c, Container4DToString(d4) == s4, "c4d", s4); } }
  for (auto& r : rows) { c.step(); MC_CHECK(c, ContainerToString(r) == l1(r), "c1d", l1(r)); std::vector<HexItem> h; std::vector<std::string> p, q; for (int x : r) { h.push_back({std::to_string(x)}); p.push_back("0x" + std::to_string(x)); q.push_back("0x0" + std::to_string(x)); }
    std::vector<std::vector<HexItem>> h2{h, {}, h}; auto H2 = join({join(p), "[]", join(p)}), P2 = join({join(q), "[]", join(q)}); std::vector<decltype(h2)> h3{h2, h2}; std::vector<decltype(h3)> h4{{}, h3};
    MC_CHECK(c, ContainerToHexString(h) == join(p) && ContainerToHexString(h, true) == join(q) && Container2DToHexString(h2) == H2 && Container2DToHexString(h2, true) == P2 && Container3DToHexString(h3) == join({H2, H2}) && Container3DToHexString(h3, true) == join({P2, P2}) && Container4DToHexString(h4) == join({"[]", join({H2, H2})}) && Container4DToHexString(h4, true) == join({"[]", join({P2, P2})}), "hex_lists", H2); }
  MC_CHECK(c, std::string(BoolToString(true)) == "true" && std::string(BoolToString(false)) == "false" && OptionalToString(std::optional<int>()) == "None" && OptionalToString(std::optional<int>(-3)) == "Some(-3)" && EmptyString().empty(), "small", "");
  for (int n = 0; n <= 3; ++n) mc::tuples(n, 2, [&](const std::vector<int>& t) { Pair2 p{n - 1, {}}; std::string e = "Pair2 { a: " + std::to_string(n - 1); HexItem h; std::string f = "Hex("; for (size_t i = 0; i < t.size(); ++i) { p.b.push_back(t[i]); e += t[i] ? ", b: true" : ", b: false"; h.s += '0' + t[i]; f += (i ? ", " : "") + std::to_string(t[i]); } c.states(1); c.step(4);
    MC_CHECK(c, ToRustDebugString(p) == e + " }", "rust_struct", e); MC_CHECK(c, ToRustDebugString(h) == f + ")", "rust_tuple", f);
    std::vector<std::optional<std::string>> vo; absl::btree_map<int, std::vector<std::string>> m; std::string g = "[", k = "{"; for (size_t i = 0; i < t.size(); ++i) { if (t[i]) vo.push_back("q" + std::to_string(i)); else vo.push_back(std::nullopt); g += (i ? ", " : "") + (t[i] ? "Some(\"q" + std::to_string(i) + "\")" : std::string("None")); m[(int)t.size() - (int)i] = std::vector<std::string>(t[t.size() - 1 - i], "v"); k += (i ? ", " : "") + std::to_string(i + 1) + ": " + (t[i] ? "[\"v\"]" : "[]"); }
    MC_CHECK(c, ToRustDebugString(vo) == g + "]", "rust_list", g + "] got " + ToRustDebugString(vo)); MC_CHECK(c, ToRustDebugString(m) == k + "}", "rust_map", k + "} got " + ToRustDebugString(m)); });
  c.trace();
}
