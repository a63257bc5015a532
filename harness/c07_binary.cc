// C07: the binary tower fields against the recursive tower definition.
#include "mc/mc.h"
#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"

namespace {
using namespace tachyon::math;
using U = unsigned __int128;

// T_0 = GF(2), T_{k+1} = T_k[X] / (X^2 + a_k X + 1) with a_0 = 1 and a_k the X
// of the step before; X is the bit in the middle.
U MulRec(U a, U b, int bits); U TMul(U a, U b, int h);
U Mul(U a, U b, int bits) {
  static uint8_t* t = [] { auto* t = new uint8_t[65536]; for (int i = 0; i < 65536; ++i) t[i] = (uint8_t)MulRec(i >> 8, i & 255, 8); return t; }();
  return bits == 8 ? t[a << 8 | b] : MulRec(a, b, bits);
}
U TMul(U a, U b, int h) { return Mul(a, b, h); }
U MulRec(U a, U b, int bits) {
  auto Mul = [](U a, U b, int h) { return h >= 8 ? TMul(a, b, h) : MulRec(a, b, h); };
  if (bits == 1) return a & b & 1;
  int h = bits / 2; U m = ((U)1 << h) - 1;
  U al = a & m, ah = a >> h, bl = b & m, bh = b >> h;
  if (!ah && !bh) return Mul(al, bl, h);
  U hh = Mul(ah, bh, h), alpha = h == 1 ? 1 : (U)1 << (h / 2);
  return (Mul(al, bl, h) ^ hh) | (Mul(al, bh, h) ^ Mul(ah, bl, h) ^ Mul(hh, alpha, h)) << h;
}
std::string S(U v) { char b[40]; snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
std::string Dec(U v) { std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
std::string Hex(U v) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(int)(v % 16)]); v /= 16; } while (v); return s; }

template <typename F> F Make(U v) { if constexpr (F::kBits == 128) return F(BigInt<2>({(uint64_t)v, (uint64_t)(v >> 64)})); else return F((typename F::value_type)v); }
template <typename F> U Val(const F& f) { if constexpr (F::kBits == 128) return (U)f.value()[1] << 64 | f.value()[0]; else return f.value(); }

template <typename F> void Unary(mc::Ctx& c, U v) {
  constexpr int B = F::kBits; F a = Make<F>(v); c.state(mc::mix((uint64_t)v, (uint64_t)(v >> 64) + B));
  mc::at("unary", B, (uint64_t)v, (uint64_t)(v >> 64));
  auto d = [&] { return "bits=" + std::to_string(B) + " a=" + S(v); };
  if (c.want_sample()) c.sample("unary " + d());
  U sq = Mul(v, v, B), al = Mul(v, B == 1 ? 1 : (U)1 << (B / 2), B);
  using Ops = BinaryTowerOperations<F>;
  MC_CHECK(c, Val(a) == v, "value", d());
  MC_CHECK(c, Val(a.Square()) == sq, "square", d() << " gives " << S(Val(a.Square())) << " expected " << S(sq));
  F t = a; t.SquareInPlace(); MC_CHECK(c, Val(t) == sq, "square_in_place", d());
  t = a; t *= t; MC_CHECK(c, Val(t) == sq, "mul_self", d());
  MC_CHECK(c, Val(Ops::MulByAlpha(a)) == al, "mul_by_alpha", d() << " gives " << S(Val(Ops::MulByAlpha(a))) << " expected " << S(al));
  MC_CHECK(c, a.Double().IsZero() && (a + a).IsZero() && (a - a).IsZero() && -a == a, "characteristic_two", d());
  t = a; t.DoubleInPlace(); MC_CHECK(c, t.IsZero(), "double_in_place", d());
  t = a; t += t; MC_CHECK(c, t.IsZero(), "add_self", d());
  t = a; t.NegateInPlace(); MC_CHECK(c, t == a, "negate_in_place", d());
  auto inv = a.Inverse(); MC_CHECK(c, inv.has_value() == (v != 0), "inverse_exists", d());
  if (inv) MC_CHECK(c, Mul(Val(*inv), v, B) == 1, "inverse", d() << " gives " << S(Val(*inv)));
  t = a; auto ii = t.InverseInPlace(); MC_CHECK(c, ii.has_value() == (v != 0) && (!inv || t == *inv), "inverse_in_place", d());
  if (v) { t = a; (void)(t /= t); MC_CHECK(c, t.IsOne(), "div_self", d()); }
  MC_CHECK(c, a.IsZero() == (v == 0) && a.IsOne() == (v == 1) && a.IsMinusOne() == (v == 1), "predicates", d());
  // strings
  MC_CHECK(c, a.ToString() == Dec(v), "to_string", d() << " gives " << a.ToString());
  MC_CHECK(c, a.ToHexString() == "0x" + Hex(v), "to_hex", d() << " gives " << a.ToHexString());
  auto f = F::FromDecString(Dec(v)); MC_CHECK(c, f && *f == a, "from_dec", d());
  f = F::FromHexString("0x" + Hex(v)); MC_CHECK(c, f && *f == a, "from_hex", d());
  BigInt<F::N> bi = a.ToBigInt(); MC_CHECK(c, F::FromBigInt(bi) == a, "big_int", d());
  if constexpr (B >= 16) {
    auto [lo, hi] = a.Decompose(); U m = ((U)1 << (B / 2)) - 1;
    MC_CHECK(c, Val(lo) == (v & m) && Val(hi) == v >> (B / 2), "decompose", d());
    MC_CHECK(c, F::Compose(lo, hi) == a, "compose", d());
  }
  // powers
  U p = 1; for (int e = 0; e < 6; ++e) { MC_CHECK(c, Val(a.Pow(e)) == p, "pow", d() << " e=" << e); p = Mul(p, v, B); }
}
template <typename F> void Binary(mc::Ctx& c, U x, U y) {
  constexpr int B = F::kBits; F a = Make<F>(x), b = Make<F>(y); U w = Mul(x, y, B);
  c.state(mc::mix(mc::mix((uint64_t)x, (uint64_t)(x >> 64)), mc::mix((uint64_t)y, (uint64_t)(y >> 64) + B)));
  mc::at("binary", B, (uint64_t)x, (uint64_t)(x >> 64), (uint64_t)y, (uint64_t)(y >> 64));
  auto d = [&] { return "bits=" + std::to_string(B) + " a=" + S(x) + " b=" + S(y); };
  MC_CHECK(c, Val(a + b) == (x ^ y) && Val(a - b) == (x ^ y), "add", d());
  F t = a; t += b; MC_CHECK(c, Val(t) == (x ^ y), "add_in_place", d());
  t = a; t -= b; MC_CHECK(c, Val(t) == (x ^ y), "sub_in_place", d());
  MC_CHECK(c, Val(a * b) == w, "mul", d() << " gives " << S(Val(a * b)) << " expected " << S(w));
  t = a; t *= b; MC_CHECK(c, Val(t) == w, "mul_in_place", d());
  MC_CHECK(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "compare", d());
}
template <typename F> void Div(mc::Ctx& c, U x, U y) {
  constexpr int B = F::kBits; F a = Make<F>(x), b = Make<F>(y); auto q = a / b;
  MC_CHECK(c, q.has_value() == (y != 0) && (!q || Mul(Val(*q), y, B) == x), "div", "bits=" << B << " a=" << S(x) << " b=" << S(y));
  F t = a; auto r = (t /= b); MC_CHECK(c, r.has_value() == (y != 0) && (!r || t == *q), "div_in_place", "bits=" << B << " a=" << S(x) << " b=" << S(y));
}
// x, y of the smaller field G read as elements of F
template <typename F, typename G> void Embed(mc::Ctx& c, U x, U y) {
  F a = Make<F>(x), b = Make<F>(y); G g = Make<G>(x), h = Make<G>(y);
  MC_CHECK(c, Val(a * b) == Val(g * h) && Val(a + b) == Val(g + h) && Val(a.Square()) == Val(g.Square()), "embedding", "bits=" << F::kBits << "/" << G::kBits << " a=" << S(x) << " b=" << S(y));
  if (x) MC_CHECK(c, Val(*a.Inverse()) == Val(*g.Inverse()), "embedding_inverse", "bits=" << F::kBits << "/" << G::kBits << " a=" << S(x));
}

template <typename F> void All(mc::Ctx& c) {
  U n = (U)1 << F::kBits; F::Init();
  for (U x = 0; x < n; ++x) { if (!c.mine((uint64_t)x)) continue; Unary<F>(c, x); c.trace(); for (U y = 0; y < n; ++y) { Binary<F>(c, x, y); Div<F>(c, x, y); } }
  if (c.shard == 0) {
    std::vector<bool> seen((size_t)n); for (U x = 1; x < n; ++x) { U i = Val(*Make<F>(x).Inverse()); MC_CHECK(c, i < n && !seen[(size_t)i], "inverse_unique", F::kBits << " bits, x=" << S(x)); if (i < n) seen[(size_t)i] = true; }
    for (U v = n; v < n * 4 + 3 && F::kBits <= 16; ++v) { MC_CHECK(c, !F::FromDecString(Dec(v)) && !F::FromHexString(Hex(v)), "out_of_range_string", F::kBits << " bits " << S(v)); }
    for (const char* s : {"", "x", "-1", "1x", "0x"}) MC_CHECK(c, !F::FromDecString(s), "bad_string", F::kBits << " bits '" << s << "'");
  }
}
// Patterns: every single bit, pairs of bits, runs from either end, byte/limb edges, table-driven bytes.
std::vector<U> Patterns(int B, bool wide) {
  std::vector<U> v{0}; U m = B == 128 ? ~(U)0 : ((U)1 << B) - 1;
  for (int i = 0; i < B; ++i) { v.push_back((U)1 << i); v.push_back(m >> i); v.push_back((m << i) & m); }
  for (int i = 0; i < B; ++i) for (int j = 0; j < i; ++j) if (wide || (i - j) % 7 == 1 || i == B / 2 || j == B / 2) v.push_back((U)1 << i | (U)1 << j);
  for (int k = 2; k < 256; k += wide ? 1 : 9) { U p = 0; for (int i = 0; i < B; i += 8) p |= (U)k << i; v.push_back(p); v.push_back((U)k << (B - 8)); v.push_back((U)(k * 0x9e3779b97f4a7c15ull) * (U)(0xff51afd7ed558ccdull) & m); }
  std::vector<U> r; std::vector<U> s = v; for (U x : s) { bool dup = false; for (U y : r) if (x == y) { dup = true; break; } if (!dup) r.push_back(x); }
  return r;
}
template <typename F, typename G> void Big(mc::Ctx& c) {
  F::Init(); auto un = Patterns(F::kBits, true), bi = Patterns(F::kBits, c.thorough && F::kBits < 128);
  for (size_t i = 0; i < un.size(); ++i) if (c.mine(i)) Unary<F>(c, un[i]);
  for (size_t i = 0; i < bi.size(); ++i) if (c.mine(i)) { c.trace(); for (U y : bi) Binary<F>(c, bi[i], y); for (size_t j = 0; j < bi.size(); j += 8) Div<F>(c, bi[i], bi[j]); }
  auto sub = Patterns(G::kBits, false);
  for (size_t i = 0; i < sub.size(); ++i) if (c.mine(i)) for (U y : sub) Embed<F, G>(c, sub[i], y);
}
}  // namespace

MC_SECTION(bits1, 1) { All<BinaryField1>(c); }
MC_SECTION(bits2, 1) { All<BinaryField2>(c); for (U x = 0; x < 2; ++x) for (U y = 0; y < 2; ++y) Embed<BinaryField2, BinaryField1>(c, x, y); }
MC_SECTION(bits4, 1) { All<BinaryField4>(c); for (U x = 0; x < 4; ++x) for (U y = 0; y < 4; ++y) Embed<BinaryField4, BinaryField2>(c, x, y); }
MC_SECTION(bits8, 2) { All<BinaryField8>(c); for (U x = 0; x < 16; ++x) for (U y = 0; y < 16; ++y) Embed<BinaryField8, BinaryField4>(c, x, y); }
MC_SECTION(bits16, 8) {
  // every element: unary, and times every byte-aligned value; every pair of the 8-bit subfield
  for (U x = 0; x < 65536; ++x) if (c.mine((uint64_t)x)) {
    Unary<BinaryField16>(c, x); c.trace();
    for (int i = 0; i < 16; ++i) Binary<BinaryField16>(c, x, (U)1 << i);
    for (int k = 3; k < 65536; k += 1021) { Binary<BinaryField16>(c, x, k); Div<BinaryField16>(c, k, x); }
  }
  for (U x = 0; x < 256; ++x) if (c.mine((uint64_t)x)) for (U y = 0; y < 256; ++y) Embed<BinaryField16, BinaryField8>(c, x, y);
  if (c.shard == 0) for (U v = 65536; v < 70000; ++v) MC_CHECK(c, !BinaryField16::FromDecString(Dec(v)) && !BinaryField16::FromHexString(Hex(v)), "out_of_range_string", S(v));
}
MC_SECTION(bits32, 8) { Big<BinaryField32, BinaryField16>(c); if (c.shard == 0) MC_CHECK(c, !BinaryField32::FromDecString("4294967296") && !BinaryField32::FromHexString("100000000"), "out_of_range_string", "2^32"); }
MC_SECTION(bits64, 8) { Big<BinaryField64, BinaryField32>(c); if (c.shard == 0) MC_CHECK(c, !BinaryField64::FromDecString("18446744073709551616") && !BinaryField64::FromHexString("10000000000000000"), "out_of_range_string", "2^64"); }
MC_SECTION(bits128, 16) { Big<BinaryField128, BinaryField64>(c); if (c.shard == 0) MC_CHECK(c, !BinaryField128::FromDecString("340282366920938463463374607431768211456") && !BinaryField128::FromHexString("100000000000000000000000000000000"), "out_of_range_string", "2^128"); }
