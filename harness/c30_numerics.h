// C30: checked / clamped / saturating numerics against exact 128-bit arithmetic; bit helpers.
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
#include <set>
#include "tachyon/base/bits.h"
#include "tachyon/base/numerics/checked_math.h"
#include "tachyon/base/numerics/clamped_math.h"
#include "tachyon/base/numerics/ranges.h"
#include "tachyon/base/numerics/safe_conversions.h"
#include "mc/mc.h"
using namespace tachyon::base;
namespace {
using I = __int128;
constexpr I kInf = (I)1 << 126;  // anything at or beyond +-kInf stands for "too large for every type"
template <typename T> const char* Name() {
  if constexpr (std::is_same_v<T, int8_t>) return "i8"; else if constexpr (std::is_same_v<T, uint8_t>) return "u8";
  else if constexpr (std::is_same_v<T, int16_t>) return "i16"; else if constexpr (std::is_same_v<T, uint16_t>) return "u16";
  else if constexpr (std::is_same_v<T, int32_t>) return "i32"; else if constexpr (std::is_same_v<T, uint32_t>) return "u32";
  else if constexpr (std::is_same_v<T, int64_t>) return "i64"; else if constexpr (std::is_same_v<T, uint64_t>) return "u64";
  else if constexpr (std::is_same_v<T, float>) return "f32"; else return "f64";
}
template <typename T> constexpr I Lo() { return std::numeric_limits<T>::lowest(); }
template <typename T> constexpr I Hi() { return std::numeric_limits<T>::max(); }
template <typename T> bool Fits(I v) { return Lo<T>() <= v && v <= Hi<T>(); }
template <typename T> T Clip(I v) { return v < Lo<T>() ? std::numeric_limits<T>::lowest() : v > Hi<T>() ? std::numeric_limits<T>::max() : (T)v; }
std::string Str(I v) { if (v >= kInf) return "+huge"; if (v <= -kInf) return "-huge"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; std::string s; do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u); return n ? "-" + s : s; }
template <typename T> const std::vector<T>& Vals(bool wide) {
  static std::vector<T> v[2];
  auto& r = v[wide]; if (!r.empty()) return r;
  std::set<T> s;
  if (sizeof(T) == 1 || (sizeof(T) == 2 && wide)) { for (I x = Lo<T>(); x <= Hi<T>(); ++x) s.insert((T)x); }
  else {
    for (int x = -12; x <= 12; ++x) if (Fits<T>(x)) s.insert((T)x);
    for (int k = 2; k <= 64; ++k) { if (!wide && k > 8 && k % 8 > 1 && k % 8 < 7) continue; for (int d = -1; d <= 1; ++d) for (int g = -1; g <= 1; g += 2) { I x = g * (((I)1 << k) + d); if (Fits<T>(x)) s.insert((T)x); } }
    for (I x : {(I)100, (I)3037000499LL, (I)3037000500LL, (I)4294967291LL, (I)46340, (I)46341, (I)65521, (I)0x123456789ABCDEFLL, (I)6148914691236517205LL, (I)1000000007}) for (int g = -1; g <= 1; g += 2) if (Fits<T>(g * x)) s.insert((T)(g * x));
  }
  r.assign(s.begin(), s.end()); return r;
}
enum Op { kAdd, kSub, kMul, kDiv, kMod, kLsh, kRsh, kAnd, kOr, kXor, kMax, kMin, kOps };
const char* kOpName[] = {"add", "sub", "mul", "div", "mod", "lsh", "rsh", "and", "or", "xor", "max", "min"};
struct R { bool def; I v; };
// The exact result; P is the unsigned type in which bitwise operations are specified to work.
template <typename P> R Exact(Op op, I x, I y, int bits, bool is_signed) {
  switch (op) {
    case kAdd: return {true, x + y}; case kSub: return {true, x - y};
    case kMul: { I r; if (__builtin_mul_overflow(x, y, &r)) return {true, (x < 0) ^ (y < 0) ? -kInf : kInf}; return {true, r}; }
    case kDiv: return y ? R{true, x / y} : R{false, 0}; case kMod: return y ? R{true, x % y} : R{false, 0};
    case kLsh: {  // shifting needs a non-negative left side and a distance below the number of value bits (or 0 << digits for signed)
      int digits = bits - is_signed;
      if (y < 0 || x < 0) return {false, 0};
      if (y >= digits) return {is_signed && x == 0 && y == digits, 0};
      return {true, x << (int)y}; }
    case kRsh: return y < 0 || y >= bits ? R{false, 0} : R{true, x >> (int)y};
    case kAnd: return {true, (I)(P)((P)x & (P)y)}; case kOr: return {true, (I)(P)((P)x | (P)y)}; case kXor: return {true, (I)(P)((P)x ^ (P)y)};
    case kMax: return {true, x > y ? x : y}; case kMin: return {true, x < y ? x : y}; default: return {false, 0};
  }
}
// What clamped arithmetic documents: the true result clipped; x / 0 takes the sign of x, x % 0 is x, long shifts saturate.
template <typename P> I ClampExact(Op op, I x, I y) {
  if (op == kDiv && !y) return x > 0 ? kInf : x < 0 ? -kInf : 0;
  if (op == kMod && !y) return x;
  if (op == kLsh) return x == 0 ? (I)0 : y > 63 ? (x > 0 ? kInf : -kInf) : x * ((I)1 << (int)y);
  if (op == kRsh) return x >> (int)(y > 100 ? (I)100 : y);
  return Exact<P>(op, x, y, 0, 0).v;
}
template <typename N> struct TypeOf { using type = N; };
template <typename N> struct TypeOf<CheckedNumeric<N>> { using type = N; };
template <typename N> struct TypeOf<ClampedNumeric<N>> { using type = N; };
template <typename C, typename V = typename C::type> std::string CStr(const C& r) { return r.IsValid() ? Str((I)(V)r.ValueOrDie()) : "invalid"; }
template <typename T, typename U, typename C> void CheckChecked(mc::Ctx& c, Op op, const char* form, T x, U y, const C& r) {
  using V = typename C::type; using P = std::make_unsigned_t<typename internal::MaxExponentPromotion<T, U>::type>;
  R e = Exact<P>(op, x, y, sizeof(T) * 8, std::is_signed_v<T>);
  bool want = e.def && Fits<V>(e.v), got = r.IsValid();
  c.step();
  bool same = want == got && (!got || (I)(V)r.ValueOrDie() == e.v);
  MC_CHECK(c, same, std::string("checked_") + kOpName[op], std::string(form) + " " + Name<T>() + " " + Str(x) + " , " + Name<U>() + " " + Str(y) + " -> " + Name<V>() + " " + CStr(r) + " want " + (want ? Str(e.v) : "invalid"));
}
template <typename T, typename U, typename V> void CheckClamped(mc::Ctx& c, Op op, const char* form, T x, U y, ClampedNumeric<V> r) {
  using P = std::make_unsigned_t<typename internal::MaxExponentPromotion<T, U>::type>;
  V want = Clip<V>(ClampExact<P>(op, x, y)), got = r.RawValue(); c.step();
  MC_CHECK(c, want == got, std::string("clamped_") + kOpName[op], std::string(form) + " " + Name<T>() + " " + Str(x) + " , " + Name<U>() + " " + Str(y) + " -> " + Name<V>() + " " + Str(got) + " want " + Str(want));
}
// x += y and x -= y compile only when the clipped side can be told from the types; bitwise assignment narrows by design
template <typename T, typename U, Op k> constexpr bool kCanAssign = !(k >= kAnd && k <= kXor) && ((k != kAdd && k != kSub) || std::is_same_v<T, typename internal::MaxExponentPromotion<T, U>::type> || IsTypeInRangeForNumericType<U, T>::value);
template <typename T, typename U> void Pair(mc::Ctx& c, T x, U y) {
  CheckedNumeric<T> a(x); CheckedNumeric<U> b(y); c.states(1);
#define OPS(F) F(kAdd, Add, +) F(kSub, Sub, -) F(kMul, Mul, *) F(kDiv, Div, /) F(kMod, Mod, %) F(kAnd, And, &) F(kOr, Or, |) F(kXor, Xor, ^)
#define F(k, N, O) { CheckChecked(c, k, "x op y", x, y, a O b); CheckChecked(c, k, "x op raw", x, y, a O y); CheckChecked(c, k, "raw op y", x, y, x O b); CheckChecked(c, k, "call", x, y, Check##N(x, y)); CheckedNumeric<T> t(x); t O##= y; CheckChecked(c, k, "assign", x, y, t); }
  OPS(F) F(kLsh, Lsh, <<) F(kRsh, Rsh, >>)
#undef F
  CheckChecked(c, kMax, "call", x, y, CheckMax(x, y)); CheckChecked(c, kMin, "call", x, y, CheckMin(x, y));
  CheckChecked(c, kMax, "method", x, y, a.Max(y)); CheckChecked(c, kMin, "method", x, y, a.Min(b));
  ClampedNumeric<T> p(x); ClampedNumeric<U> q(y);
#define F(k, N, O) { CheckClamped<T, U>(c, k, "x op y", x, y, p O q); CheckClamped<T, U>(c, k, "raw op y", x, y, x O q); CheckClamped<T, U>(c, k, "call", x, y, Clamp##N(x, y)); if constexpr (kCanAssign<T, U, k>) { ClampedNumeric<T> t(x); t O##= y; CheckClamped<T, U>(c, k, "assign", x, y, t); } }
  OPS(F) if constexpr (std::is_unsigned_v<U>) { F(kLsh, Lsh, <<) F(kRsh, Rsh, >>) }
#undef F
  CheckClamped<T, U>(c, kMax, "call", x, y, ClampMax(x, y)); CheckClamped<T, U>(c, kMin, "call", x, y, ClampMin(x, y));
  // comparisons of mixed types are comparisons of the numbers
  I X = x, Y = y; StrictNumeric<T> s(x); StrictNumeric<U> t(y); c.step(2);
  MC_CHECK(c, (p < q) == (X < Y) && (p <= q) == (X <= Y) && (p > q) == (X > Y) && (p >= q) == (X >= Y) && (p == q) == (X == Y) && (p != q) == (X != Y), "clamped_compare", std::string(Name<T>()) + Str(X) + " ? " + Name<U>() + Str(Y));
  MC_CHECK(c, (s < t) == (X < Y) && (s <= t) == (X <= Y) && (s > t) == (X > Y) && (s >= t) == (X >= Y) && (s == t) == (X == Y) && (s != t) == (X != Y), "strict_compare", std::string(Name<T>()) + Str(X) + " ? " + Name<U>() + Str(Y));
}
struct Died { template <typename T> static T HandleFailure() { hit = true; return T{}; } static bool hit; };
bool Died::hit = false;
template <typename T, typename D> void Conv(mc::Ctx& c, T x) {
  c.step(8); std::string w = std::string(Name<T>()) + " " + Str(x) + " to " + Name<D>(); bool fit = Fits<D>(x);
  MC_CHECK(c, IsValueInRangeForNumericType<D>(x) == fit, "in_range", w);
  MC_CHECK(c, saturated_cast<D>(x) == Clip<D>(x), "saturated_cast", w);
  MC_CHECK(c, (D)ClampedNumeric<D>(x) == Clip<D>(x) && ClampedNumeric<D>(ClampedNumeric<T>(x)).RawValue() == Clip<D>(x) && static_cast<D>(ClampedNumeric<T>(x)) == Clip<D>(x), "clamped_convert", w);
  Died::hit = false; D r = checked_cast<D, Died>(x); MC_CHECK(c, Died::hit == !fit && (!fit || (I)r == (I)x), "checked_cast", w);
  CheckedNumeric<T> n(x); D out = D(77); bool ok = n.template AssignIfValid<D>(&out);
  MC_CHECK(c, ok == fit && (I)out == (fit ? (I)x : 77) && n.template IsValid<D>() == fit && CheckedNumeric<D>(x).IsValid() == fit && n.template Cast<D>().IsValid() == fit, "checked_convert", w);
  Died::hit = false; D d = n.template ValueOrDie<D, Died>(); MC_CHECK(c, Died::hit == !fit && (!fit || (I)d == (I)x), "value_or_die", w);
  D e = n.template ValueOrDefault<D>(D(5)); MC_CHECK(c, (I)e == (fit ? (I)x : 5), "value_or_default", w);
  CheckedNumeric<D> bad(x); bad += 0; bad = bad * 1; MC_CHECK(c, bad.IsValid() == fit, "sticky_invalid", w);
  if constexpr (sizeof(T) < sizeof(D) && (std::is_signed_v<D> || std::is_unsigned_v<T>)) MC_CHECK(c, strict_cast<D>(x) == (D)x, "strict_cast", w);
}
template <typename T> void Unary(mc::Ctx& c) {
  for (T x : Vals<T>(true)) {
    c.states(1); c.step(12); I X = x; std::string w = std::string(Name<T>()) + " " + Str(x);
    CheckedNumeric<T> a(x); ClampedNumeric<T> p(x); I A = X < 0 ? -X : X;
    auto ck = [&](auto r, I want, const char* key) { using V = typename decltype(r)::type; bool fit = Fits<V>(want); MC_CHECK(c, r.IsValid() == fit && (!fit || (I)(V)r.ValueOrDie() == want), key, w + " got " + CStr(r)); };
    ck(-a, -X, "checked_neg"); ck(a.Abs(), A, "checked_abs"); ck(a.UnsignedAbs(), A, "checked_unsigned_abs"); ck(~a, (I)(std::make_unsigned_t<T>)(~X), "checked_not");
    { auto b = a; ck(++b, X + 1, "checked_preinc"); b = a; ck(--b, X - 1, "checked_predec"); b = a; ck(b++, X, "checked_postinc"); ck(b, X + 1, "checked_postinc2"); b = a; ck(b--, X, "checked_postdec"); ck(b, X - 1, "checked_postdec2"); }
    auto cl = [&](auto r, I want, const char* key) { using V = typename decltype(r)::type; MC_CHECK(c, r.RawValue() == Clip<V>(want), key, w + " got " + Str(r.RawValue())); };
    cl(-p, -X, "clamped_neg"); cl(p.Abs(), A, "clamped_abs"); cl(p.UnsignedAbs(), A, "clamped_unsigned_abs"); cl(~p, (I)(std::make_unsigned_t<T>)(~X), "clamped_not");
    { auto b = p; cl(++b, X + 1, "clamped_preinc"); b = p; cl(--b, X - 1, "clamped_predec"); b = p; cl(b++, X, "clamped_postinc"); cl(b, X + 1, "clamped_postinc2"); b = p; cl(b--, X, "clamped_postdec"); cl(b, X - 1, "clamped_postdec2"); }
    MC_CHECK(c, (I)SafeUnsignedAbs(x) == A && IsValueNegative(x) == (X < 0), "safe_abs", w);
    Conv<T, int8_t>(c, x); Conv<T, uint8_t>(c, x); Conv<T, int16_t>(c, x); Conv<T, uint16_t>(c, x); Conv<T, int32_t>(c, x); Conv<T, uint32_t>(c, x); Conv<T, int64_t>(c, x); Conv<T, uint64_t>(c, x);
    MC_CHECK(c, IsValueInRangeForNumericType<double>(x) && IsValueInRangeForNumericType<float>(x) && saturated_cast<double>(x) == (double)x && saturated_cast<float>(x) == (float)x, "to_float", w);
  }
  c.trace();
}
// ---- floating point ----
using L = long double;
template <typename F> const std::vector<F>& FVals() {
  static std::vector<F> r; if (!r.empty()) return r; std::set<F> s;
  auto add = [&](F v) { if (!std::isnan(v)) { F u = v, d = v; s.insert(v); for (int i = 0; i < 2; ++i) { u = std::nextafter(u, (F)INFINITY); d = std::nextafter(d, (F)-INFINITY); s.insert(u); s.insert(d); } } };
  for (int k = -2; k <= 130; ++k) for (L d : {-1.0L, -0.5L, 0.0L, 0.5L, 1.0L}) for (int g = -1; g <= 1; g += 2) add((F)(g * (ldexpl(1, k) + d)));
  for (F v : {(F)0, (F)FLT_MAX, (F)FLT_MIN, std::numeric_limits<F>::max(), std::numeric_limits<F>::denorm_min(), (F)INFINITY, (F)0.3, (F)1.5, (F)2.5, (F)1e20, (F)0.49999997}) { add(v); add(-v); }
  r.assign(s.begin(), s.end()); r.push_back((F)-0.0); r.push_back(std::numeric_limits<F>::quiet_NaN()); return r;
}
template <typename F, typename D> void FConv(mc::Ctx& c, F x) {
  L v = x; std::string w = std::string(Name<F>()) + " " + std::to_string(x) + " to " + Name<D>(); c.step(4);
  L lo = std::numeric_limits<D>::lowest(), hi = std::numeric_limits<D>::max();
  // every value of the source, infinities and NaN included, is a value of an equal or wider floating type
  bool nan = std::isnan(x), contained = std::is_floating_point_v<D> && sizeof(D) >= sizeof(F), fit = contained || (!nan && (lo <= v || (lo == 0 && v > -1)) && v <= hi);  // (-1, 0) truncates to 0, which unsigned types hold
  MC_CHECK(c, IsValueInRangeForNumericType<D>(x) == fit, "float_in_range", w);
  Died::hit = false; D r = checked_cast<D, Died>(x); MC_CHECK(c, Died::hit == !fit && (!fit || r == (D)x || nan), "float_checked_cast", w);
  D s = saturated_cast<D>(x);
  if constexpr (std::is_integral_v<D>) {
    auto clip = [&](L t) -> D { return std::isnan(t) ? D(0) : t < lo ? std::numeric_limits<D>::lowest() : t > hi ? std::numeric_limits<D>::max() : (D)t; };
    MC_CHECK(c, s == clip(v), "float_saturated_cast", w + " got " + Str(s));
    MC_CHECK(c, ClampFloor<D>(x) == clip(floorl(v)), "clamp_floor", w); MC_CHECK(c, ClampCeil<D>(x) == clip(ceill(v)), "clamp_ceil", w);
    L rd = v >= 0 ? floorl(x + (F)0.5) : ceill(x - (F)0.5); MC_CHECK(c, ClampRound<D>(x) == clip(rd), "clamp_round", w);
    MC_CHECK(c, CheckedNumeric<D>(x).IsValid() == fit, "float_construct_checked", w); MC_CHECK(c, (D)ClampedNumeric<D>(x) == clip(v), "float_construct_clamped", w);
  } else {
    bool ok = nan ? std::isnan(s) : s == (fit ? (D)x : v > 0 ? std::numeric_limits<D>::infinity() : -std::numeric_limits<D>::infinity());
    MC_CHECK(c, ok, "float_float_saturated", w + " got " + std::to_string(s));
    MC_CHECK(c, CheckedNumeric<D>(x).IsValid() == (fit && std::isfinite(x)), "float_construct_float", w);
  }
}
template <typename F> void Floats(mc::Ctx& c) {
  for (F x : FVals<F>()) { c.states(1);
    FConv<F, int8_t>(c, x); FConv<F, uint8_t>(c, x); FConv<F, int16_t>(c, x); FConv<F, uint16_t>(c, x); FConv<F, int32_t>(c, x); FConv<F, uint32_t>(c, x); FConv<F, int64_t>(c, x); FConv<F, uint64_t>(c, x); FConv<F, float>(c, x); FConv<F, double>(c, x); }
  c.trace();
}
template <typename F, typename G> void FPair(mc::Ctx& c) {
  using V = typename internal::MaxExponentPromotion<F, G>::type;
  auto pick = [](auto& all) { std::decay_t<decltype(all)> r; for (size_t i = 0; i < all.size(); ++i) if (i % 7 == 0 || i + 12 >= all.size() || i < 8 || all[i] == 0 || all[i] == 1) r.push_back(all[i]); return r; };
  std::vector<F> xs; std::vector<G> ys;
  if constexpr (std::is_integral_v<F>) xs = Vals<F>(false); else xs = pick(FVals<F>());
  if constexpr (std::is_integral_v<G>) ys = Vals<G>(false); else ys = pick(FVals<G>());
  for (F x : xs) for (G y : ys) {
    c.states(1); c.step(8);
    V want[4] = {(V)(x + y), (V)(x - y), (V)(x * y), (V)(x / y)};
    CheckedNumeric<V> got[4] = {CheckAdd(x, y), CheckSub(x, y), CheckMul(x, y), CheckDiv(x, y)};
    ClampedNumeric<V> cl[4] = {ClampAdd(x, y), ClampSub(x, y), ClampMul(x, y), ClampDiv(x, y)};
    for (int i = 0; i < 4; ++i) { std::string w = std::string(Name<F>()) + " " + std::to_string(x) + " " + "+-*/"[i] + " " + Name<G>() + " " + std::to_string(y);
      MC_CHECK(c, got[i].IsValid() == (bool)std::isfinite(want[i]) && (!got[i].IsValid() || (V)got[i].ValueOrDie() == want[i]), "float_checked_arith", w);
      V r = cl[i].RawValue(); MC_CHECK(c, std::isnan(want[i]) ? std::isnan(r) : r == want[i], "float_clamped_arith", w); }
  }
  c.trace();
}
template <typename T> void Bits(mc::Ctx& c) {
  using namespace bits; constexpr int B = sizeof(T) * 8;
  std::vector<T> vs = Vals<T>(true);
  for (T x : vs) { uint64_t u = x; c.states(1); c.step(9); std::string w = std::string(Name<T>()) + " " + std::to_string(u);
    int top = -1, low = B, pop = 0; for (int i = 0; i < B; ++i) if (u >> i & 1) { top = i; if (low == B) low = i; ++pop; }
    MC_CHECK(c, CountLeadingZeroBits<T>(x) == B - 1 - top, "clz", w); MC_CHECK(c, CountTrailingZeroBits<T>(x) == low, "ctz", w);
    MC_CHECK(c, Log2Floor<T>(x) == top, "log2_floor", w); MC_CHECK(c, IsPowerOfTwo<T>(x) == (pop == 1), "is_pow2", w);
    if constexpr (B >= 32) { int ce = u == 0 ? -1 : pop == 1 ? top : top + 1; MC_CHECK(c, Log2Ceiling<T>(x) == ce, "log2_ceiling", w); MC_CHECK(c, SafeLog2Ceiling<T>(x) == (uint32_t)std::max(ce, 0), "safe_log2_ceiling", w);
      if (pop == 1) MC_CHECK(c, CheckedLog2<T>(x) == (uint32_t)top, "checked_log2", w); }
    for (int k = 0; k < B; ++k) { T al = (T)((T)1 << k); I dn = (I)u / ((I)1 << k) * ((I)1 << k), up = ((I)u + ((I)1 << k) - 1) / ((I)1 << k) * ((I)1 << k); c.step();
      MC_CHECK(c, (I)AlignDown<T>(x, al) == dn && (!Fits<T>(up) || (I)AlignUp<T>(x, al) == up), "align", w + " to 2^" + std::to_string(k)); } }
  MC_CHECK(c, LeftmostBit<T>() == (T)((T)1 << (B - 1)), "leftmost", Name<T>()); c.trace();
}
}  // namespace
#define P2(T, U) { for (T x : Vals<T>(c.thorough)) for (U y : Vals<U>(c.thorough)) { if (sizeof(T) == 2 && sizeof(U) == 2 && c.thorough && (uint16_t)(x * 7 + y) % 16) continue; mc::at("pair", (int64_t)x, (int64_t)y); Pair<T, U>(c, x, y); } c.trace(); }
#define ALLU(T) { if (c.mine(k++)) P2(T, int8_t) if (c.mine(k++)) P2(T, uint8_t) if (c.mine(k++)) P2(T, int16_t) if (c.mine(k++)) P2(T, uint16_t) if (c.mine(k++)) P2(T, int32_t) if (c.mine(k++)) P2(T, uint32_t) if (c.mine(k++)) P2(T, int64_t) if (c.mine(k++)) P2(T, uint64_t) }
#ifdef C30_PART
#if C30_PART == 0
MC_SECTION(pairs0, 8) { int k = 0; ALLU(int8_t) ALLU(uint8_t) }
#elif C30_PART == 1
MC_SECTION(pairs1, 8) { int k = 0; ALLU(int16_t) ALLU(uint16_t) }
#elif C30_PART == 2
MC_SECTION(pairs2, 8) { int k = 0; ALLU(int32_t) ALLU(uint32_t) }
#else
MC_SECTION(pairs3, 8) { int k = 0; ALLU(int64_t) ALLU(uint64_t) }
#endif
#else
MC_SECTION(unary, 8) { int k = 0;
  if (c.mine(k++)) Unary<int8_t>(c); if (c.mine(k++)) Unary<uint8_t>(c); if (c.mine(k++)) Unary<int16_t>(c); if (c.mine(k++)) Unary<uint16_t>(c);
  if (c.mine(k++)) Unary<int32_t>(c); if (c.mine(k++)) Unary<uint32_t>(c); if (c.mine(k++)) Unary<int64_t>(c); if (c.mine(k++)) Unary<uint64_t>(c); }
MC_SECTION(floats, 2) { if (c.mine(0)) Floats<float>(c); if (c.mine(1)) Floats<double>(c); }
MC_SECTION(float_pairs, 8) { int k = 0;
  if (c.mine(k++)) FPair<float, float>(c); if (c.mine(k++)) FPair<double, double>(c); if (c.mine(k++)) FPair<float, double>(c); if (c.mine(k++)) FPair<double, float>(c);
  if (c.mine(k++)) FPair<double, int32_t>(c); if (c.mine(k++)) FPair<int64_t, double>(c); if (c.mine(k++)) FPair<float, uint64_t>(c); if (c.mine(k++)) FPair<int8_t, float>(c); }
MC_SECTION(bits, 4) { if (c.mine(0)) Bits<uint8_t>(c); if (c.mine(1)) Bits<uint16_t>(c); if (c.mine(2)) Bits<uint32_t>(c); if (c.mine(3)) Bits<uint64_t>(c); }
MC_SECTION(bitrev, 1) {
  auto rev = [](uint64_t x, int n) { uint64_t r = 0; for (int i = 0; i < n; ++i) if (x >> i & 1) r |= (uint64_t)1 << (n - 1 - i); return r; };
  for (uint64_t x : Vals<uint64_t>(true)) { c.states(1); c.step(); MC_CHECK(c, bits::BitRev(x) == rev(x, 64), "bitrev", std::to_string(x)); }
  for (int n = 1; n <= 16; ++n) for (uint64_t x = 0; x < (1u << n); ++x) { c.states(1); c.step(); MC_CHECK(c, bits::ReverseBitsLen(x, n) == rev(x, n), "reverse_bits_len", std::to_string(x) + "/" + std::to_string(n)); }
  for (int n = 17; n <= 64; ++n) for (uint64_t x : Vals<uint64_t>(true)) { uint64_t m = n == 64 ? x : x & (((uint64_t)1 << n) - 1); c.step(); MC_CHECK(c, bits::ReverseBitsLen(m, n) == rev(m, n), "reverse_bits_len", std::to_string(m) + "/" + std::to_string(n)); }
  c.trace();
}
MC_SECTION(approx, 1) { for (int a = -40; a <= 40; ++a) for (int b = -40; b <= 40; ++b) for (int t = 0; t <= 80; ++t) { c.states(1); c.step(); MC_CHECK(c, IsApproximatelyEqual(a, b, t) == (std::abs(a - b) <= t) && IsApproximatelyEqual(a * 0.5, b * 0.5, t * 0.5) == (std::abs(a - b) <= t), "approx", std::to_string(a)); } c.trace(); }
#endif
