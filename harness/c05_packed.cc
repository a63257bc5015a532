// C05: packed fields, lane by lane, against the scalar fields.
#include "mc/mc.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx2.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx512.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx2.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx512.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx2.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx512.h"

namespace {
using namespace tachyon::math;
template <typename T, typename = void> struct HasExp : std::false_type {};
template <typename T> struct HasExp<T, std::void_t<decltype(std::declval<T>().Exp7())>> : std::true_type {};
template <typename T, typename = void> struct HasRaw : std::false_type {};
template <typename T> struct HasRaw<T, std::void_t<decltype(T::RawOne())>> : std::true_type {};
template <typename T> constexpr bool HasMulBase = std::is_same_v<decltype(std::declval<T>() * std::declval<typename T::BaseField>()), T>;
template <typename S> uint32_t Raw(const S& s) { uint32_t v; memcpy(&v, &s, 4); return v; }
template <typename S> S FromRaw(uint32_t v) { S s; memcpy(&s, &v, 4); return s; }

// Interesting stored values (the representation the SIMD code works on).
template <typename S> std::vector<S> Alphabet() {
  uint32_t p = S::Config::kModulus; std::vector<uint32_t> r{0, 1, 2, 3, 7, p - 1, p - 2, p - 3, p / 2, p / 2 + 1, p / 2 - 1, p / 3, 0xffff, 0x10000, 0x10001, 0x7fff, 0x8000, 0x8000000, 0x7ffffff, 1u << 30, (1u << 30) - 1, p - 0x10000, p - 0xffff, 0x55555555, 0x2aaaaaaa};
  for (S s : {S::One(), S::MinusOne(), S::TwoInv(), S::One() + S::One()}) r.push_back(Raw(s));
  std::vector<S> v; std::vector<uint32_t> seen;
  for (uint32_t x : r) if (x < p) { bool d = false; for (uint32_t y : seen) d |= x == y; if (!d) { seen.push_back(x); v.push_back(FromRaw<S>(x)); } }
  return v;
}
template <typename P, typename S> bool Is(const P& p, const S* w) { for (size_t i = 0; i < P::N; ++i) if (Raw(p[i]) != Raw(w[i])) return false; return true; }

template <typename P> struct Lanes {
  using S = typename P::PrimeField; static constexpr size_t N = P::N;
  S a[N], b[N]; P pa, pb;
  void load() { for (size_t i = 0; i < N; ++i) { pa[i] = a[i]; pb[i] = b[i]; } }
  std::string show() const { std::string s = "lanes "; for (size_t i = 0; i < N; ++i) s += std::to_string(Raw(a[i])) + "/" + std::to_string(Raw(b[i])) + " "; return s; }
  template <typename F> void bin(mc::Ctx& c, const char* key, const P& got, F f) {
    S w[N]; for (size_t i = 0; i < N; ++i) w[i] = f(a[i], b[i]);
    MC_CHECK(c, Is(got, w), key, show() << " gives " << got.ToString());
  }
  void core(mc::Ctx& c) {
    bin(c, "add", pa + pb, [](S x, S y) { return x + y; });
    bin(c, "sub", pa - pb, [](S x, S y) { return x - y; });
    bin(c, "mul", pa * pb, [](S x, S y) { return x * y; });
    bin(c, "negate", -pa, [](S x, S) { return -x; });
  }
  void all(mc::Ctx& c) {
    core(c);
    P t = pa; t += pb; bin(c, "add_in_place", t, [](S x, S y) { return x + y; });
    t = pa; t -= pb; bin(c, "sub_in_place", t, [](S x, S y) { return x - y; });
    t = pa; t *= pb; bin(c, "mul_in_place", t, [](S x, S y) { return x * y; });
    t = pa; t *= t; bin(c, "mul_self", t, [](S x, S) { return x * x; });
    t = pa; t += t; bin(c, "add_self", t, [](S x, S) { return x + x; });
    t = pa; t -= t; bin(c, "sub_self", t, [](S, S) { return S::Zero(); });
    t = pa; t.NegateInPlace(); bin(c, "negate_in_place", t, [](S x, S) { return -x; });
    bin(c, "double", pa.Double(), [](S x, S) { return x.Double(); });
    t = pa; t.DoubleInPlace(); bin(c, "double_in_place", t, [](S x, S) { return x.Double(); });
    bin(c, "square", pa.Square(), [](S x, S) { return x.Square(); });
    t = pa; t.SquareInPlace(); bin(c, "square_in_place", t, [](S x, S) { return x.Square(); });
    auto pw = [](S x, int e) { S r = S::One(); for (int i = 0; i < e; ++i) r *= x; return r; };
    if constexpr (HasExp<P>::value) {
      bin(c, "exp3", pa.Exp3(), [&](S x, S) { return pw(x, 3); });
      bin(c, "exp5", pa.Exp5(), [&](S x, S) { return pw(x, 5); });
      bin(c, "exp7", pa.Exp7(), [&](S x, S) { return pw(x, 7); });
    }
    for (int e : {0, 1, 2, 11}) bin(c, "pow", pa.Pow(e), [&](S x, S) { return pw(x, e); });
    auto inv = pa.Inverse(); if (inv) bin(c, "inverse", *inv, [](S x, S) { return x.IsZero() ? S::Zero() : *x.Inverse(); });
    t = pa; if (t.InverseInPlace()) bin(c, "inverse_in_place", t, [](S x, S) { return x.IsZero() ? S::Zero() : *x.Inverse(); });
    // mixed with a broadcast scalar
    S s = b[0]; P br = P::Broadcast(s);
    bin(c, "broadcast", br, [&](S, S) { return s; });
    bin(c, "mul_broadcast", pa * br, [&](S x, S) { return x * s; });
    bin(c, "add_broadcast", br + pa, [&](S x, S) { return x + s; });
    bin(c, "sub_broadcast", br - pa, [&](S x, S) { return s - x; });
    bool eq = true, lt = false, gt = false, done = false;
    for (size_t i = 0; i < N; ++i) { eq &= a[i] == b[i]; if (!done && a[i] != b[i]) { lt = a[i] < b[i]; gt = a[i] > b[i]; done = true; } }
    MC_CHECK(c, (pa == pb) == eq && (pa != pb) == !eq && (pa < pb) == lt && (pa > pb) == gt && (pa <= pb) == !gt && (pa >= pb) == !lt, "compare", show());
    bool z = true, o = true, m = true; for (size_t i = 0; i < N; ++i) { z &= a[i].IsZero(); o &= a[i].IsOne(); m &= a[i].IsMinusOne(); }
    MC_CHECK(c, pa.IsZero() == z && pa.IsOne() == o && pa.IsMinusOne() == m, "predicates", show());
  }
};

template <typename P> void Consts(mc::Ctx& c) {
  using S = typename P::PrimeField;
  auto all = [](const P& p, S s) { for (size_t i = 0; i < P::N; ++i) if (Raw(p[i]) != Raw(s)) return false; return true; };
  MC_CHECK(c, all(P::Zero(), S::Zero()) && all(P::One(), S::One()) && all(P::MinusOne(), S::MinusOne()) && all(P::TwoInv(), S::TwoInv()), "constants", P::One().ToString());
  if constexpr (HasRaw<P>::value) MC_CHECK(c, all(P::RawOne(), FromRaw<S>(1)), "raw_one", P::RawOne().ToString());
  for (uint32_t v : {0u, 1u, 2u, 5u, 1000u, S::Config::kModulus - 1}) MC_CHECK(c, all(P(v), S(v)), "from_integer", v);
  auto g = P::From([](size_t i) { return S((uint32_t)(3 * i + 1)); }); for (size_t i = 0; i < P::N; ++i) MC_CHECK(c, g[i] == S((uint32_t)(3 * i + 1)), "generator", i);
}

template <typename P> void Pairs(mc::Ctx& c, const char* cpu) {
  if (cpu && !__builtin_cpu_supports("avx512f")) return;
  using S = typename P::PrimeField; S::Init(); P::Init();
  if (c.shard == 0) Consts<P>(c);
  auto al = Alphabet<S>(); size_t n = al.size(), N = P::N; uint64_t id = 0;
  Lanes<P> l;
  // every pair in every lane next to other pairs
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t st = 0; st < 3; ++st) {
    if (!c.mine(id++)) continue;
    for (size_t k = 0; k < N; ++k) { l.a[k] = al[(i + st * k) % n]; l.b[k] = al[(j + st * st * k) % n]; }
    l.load(); c.state(mc::hash_bytes(&l.a, sizeof l.a, mc::hash_bytes(&l.b, sizeof l.b))); c.trace(); mc::at("pair", i, j, st);
    if (c.want_sample()) c.sample(l.show());
    l.all(c);
  }
  // one active lane, every pair, every lane, quiet and loud neighbours
  for (size_t k = 0; k < N; ++k) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (int q = 0; q < 2; ++q) {
    if (!c.mine(id++)) continue;
    for (size_t x = 0; x < N; ++x) l.a[x] = l.b[x] = q ? S::MinusOne() : S::Zero();
    l.a[k] = al[i]; l.b[k] = al[j]; l.load(); c.state(mc::hash_bytes(&l.a, sizeof l.a, mc::hash_bytes(&l.b, sizeof l.b))); mc::at("lane", k, i, j, q);
    l.core(c);
  }
}

// Stored values x, x+stride, ... against fixed partners.
template <typename P> void Sweep(mc::Ctx& c, const char* cpu) {
  if (cpu && !__builtin_cpu_supports("avx512f")) return;
  using S = typename P::PrimeField; S::Init(); P::Init(); constexpr size_t N = P::N;
  uint64_t p = S::Config::kModulus, stride = c.thorough ? 1 : 17;
  S part[] = {FromRaw<S>((uint32_t)p - 1), FromRaw<S>((uint32_t)(p / 2)), FromRaw<S>(0x5a5a5a5a % (uint32_t)p)};
  uint64_t step = stride * N, lo = p * c.shard / c.nshards, hi = p * (c.shard + 1) / c.nshards; uint64_t n = 0;
  P pb[3]; for (int q = 0; q < 3; ++q) for (size_t i = 0; i < N; ++i) pb[q][i] = part[(q + i) % 3];
  for (uint64_t v = lo; v < hi; v += step) {
    P a; S s[N], w[N]; for (size_t i = 0; i < N; ++i) { uint64_t x = v + i * stride; s[i] = FromRaw<S>((uint32_t)(x < hi ? x : lo)); a[i] = s[i]; }
    int q = (v / step) % 3; ++n; mc::at("sweep", v);
    P r = a * pb[q]; for (size_t i = 0; i < N; ++i) w[i] = s[i] * pb[q][i];
    if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_mul", "stored values from " << v);
    r = a + pb[q]; for (size_t i = 0; i < N; ++i) w[i] = s[i] + pb[q][i];
    if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_add", "stored values from " << v);
    r = a - pb[q]; for (size_t i = 0; i < N; ++i) w[i] = s[i] - pb[q][i];
    if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_sub", "stored values from " << v);
    r = -a; for (size_t i = 0; i < N; ++i) w[i] = -s[i];
    if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_negate", "stored values from " << v);
    r = a * a; for (size_t i = 0; i < N; ++i) w[i] = s[i] * s[i];
    if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_square", "stored values from " << v);
    if constexpr (HasExp<P>::value) {
      r = a.Exp7(); for (size_t i = 0; i < N; ++i) { S sq = s[i] * s[i]; w[i] = sq * sq * sq * s[i]; }
      if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_exp7", "stored values from " << v);
      r = a.Exp5(); for (size_t i = 0; i < N; ++i) { S sq = s[i] * s[i]; w[i] = sq * sq * s[i]; }
      if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_exp5", "stored values from " << v);
      r = a.Exp3(); for (size_t i = 0; i < N; ++i) w[i] = s[i] * s[i] * s[i];
      if (__builtin_expect(!Is(r, w), 0)) MC_CHECK(c, false, "sweep_exp3", "stored values from " << v);
    }
  }
  c.states(n * N); c.step(n * 8); c.trace();
}

// Extension fields over packed base fields, lane by lane against the scalar extension field.
template <typename E, typename PE> void Ext(mc::Ctx& c) {
  using S = typename E::BaseField; using P = typename PE::BaseField; constexpr size_t N = P::N, D = 4;
  E::Init(); P::Init(); PE::Init();
  auto al = Alphabet<S>(); size_t n = al.size(); uint64_t id = 0;
  auto lane = [](const PE& x, size_t i) { E r; for (size_t j = 0; j < D; ++j) r[j] = x[j][i]; return r; };
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t st = 1; st < 4; ++st) {
    if (!c.mine(id++)) continue;
    E a[N], b[N]; PE pa, pb;
    for (size_t k = 0; k < N; ++k) for (size_t m = 0; m < D; ++m) {
      a[k][m] = al[(i + st * k + m * (st + k)) % n]; b[k][m] = al[(j + st * st * k + m * m * st) % n]; if (st == 3 && m && k % 2) a[k][m] = S::Zero();
      pa[m][k] = a[k][m]; pb[m][k] = b[k][m];
    }
    c.state(mc::hash_bytes(a, sizeof a, mc::hash_bytes(b, sizeof b))); c.trace(); mc::at("ext", i, j, st);
    auto chk = [&](const char* key, const PE& got, auto f) {
      for (size_t k = 0; k < N; ++k) { E w = f(a[k], b[k]); MC_CHECK(c, lane(got, k) == w, key, "lane " << k << " a=" << a[k].ToString() << " b=" << b[k].ToString() << " gives " << lane(got, k).ToString() << " expected " << w.ToString()); }
    };
    chk("ext_add", pa + pb, [](E x, E y) { return x + y; });
    chk("ext_sub", pa - pb, [](E x, E y) { return x - y; });
    chk("ext_mul", pa * pb, [](E x, E y) { return x * y; });
    chk("ext_negate", -pa, [](E x, E) { return -x; });
    chk("ext_square", pa.Square(), [](E x, E) { return x.Square(); });
    chk("ext_double", pa.Double(), [](E x, E) { return x.Double(); });
    PE t = pa; t *= pb; chk("ext_mul_in_place", t, [](E x, E y) { return x * y; });
    t = pa; t *= t; chk("ext_mul_self", t, [](E x, E) { return x * x; });
    t = pa; t.SquareInPlace(); chk("ext_square_in_place", t, [](E x, E) { return x * x; });
    t = pa; t += t; chk("ext_add_self", t, [](E x, E) { return x + x; });
    t = pa; t -= pb; chk("ext_sub_in_place", t, [](E x, E y) { return x - y; });
    bool zero = false; for (size_t k = 0; k < N; ++k) zero |= a[k].IsZero();
    if (!zero) { auto inv = pa.Inverse(); MC_CHECK(c, inv.has_value(), "ext_inverse_exists", i << " " << j); if (inv) chk("ext_inverse", *inv, [](E x, E) { return *x.Inverse(); }); }
    if constexpr (HasMulBase<PE>) { PE m = pa * pb[0]; for (size_t k = 0; k < N; ++k) MC_CHECK(c, lane(m, k) == a[k] * b[k][0], "ext_mul_base", "lane " << k); }
    // powers of one lane spread over packs
    if (st == 1 && j < 4) for (size_t sz = 1; sz < 6; ++sz) {
      auto v = E::GetExtendedPackedPowers(a[j], sz); E w = E::One(); MC_CHECK(c, v.size() == sz, "packed_powers_size", sz);
      for (size_t x = 0; x < v.size(); ++x) for (size_t k = 0; k < N; ++k) { MC_CHECK(c, lane(v[x], k) == w, "packed_powers", "pack " << x << " lane " << k); w *= a[j]; }
    }
  }
}
}  // namespace

MC_SECTION(baby_bear_avx2, 4) { Pairs<PackedBabyBearAVX2>(c, nullptr); }
MC_SECTION(koala_bear_avx2, 4) { Pairs<PackedKoalaBearAVX2>(c, nullptr); }
MC_SECTION(mersenne31_avx2, 4) { Pairs<PackedMersenne31AVX2>(c, nullptr); }
MC_SECTION(baby_bear_avx512, 4) { Pairs<PackedBabyBearAVX512>(c, "avx512f"); }
MC_SECTION(koala_bear_avx512, 4) { Pairs<PackedKoalaBearAVX512>(c, "avx512f"); }
MC_SECTION(mersenne31_avx512, 4) { Pairs<PackedMersenne31AVX512>(c, "avx512f"); }
MC_SECTION(sweep_baby_bear_avx2, 8) { Sweep<PackedBabyBearAVX2>(c, nullptr); }
MC_SECTION(sweep_koala_bear_avx2, 8) { Sweep<PackedKoalaBearAVX2>(c, nullptr); }
MC_SECTION(sweep_mersenne31_avx2, 8) { Sweep<PackedMersenne31AVX2>(c, nullptr); }
MC_SECTION(sweep_baby_bear_avx512, 8) { Sweep<PackedBabyBearAVX512>(c, "avx512f"); }
MC_SECTION(sweep_koala_bear_avx512, 8) { Sweep<PackedKoalaBearAVX512>(c, "avx512f"); }
MC_SECTION(sweep_mersenne31_avx512, 8) { Sweep<PackedMersenne31AVX512>(c, "avx512f"); }
MC_SECTION(baby_bear4, 4) { Ext<BabyBear4, PackedBabyBear4>(c); }
MC_SECTION(koala_bear4, 4) { Ext<KoalaBear4, PackedKoalaBear4>(c); }
