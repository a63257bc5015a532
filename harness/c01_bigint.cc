// C01: BigInt<N> against exact integers (GMP), over complete limb alphabets.
#include <gmpxx.h>

#include <algorithm>
#include <string>
#include <vector>

#include "mc/mc.h"
#include "tachyon/math/base/arithmetics.h"
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/base/egcd.h"
#include "tachyon/math/base/byinverter.h"

using namespace tachyon::math;

namespace {
constexpr uint64_t M = ~uint64_t{0};

template <size_t N> mpz_class Z(const BigInt<N>& a) {
  mpz_class r; mpz_import(r.get_mpz_t(), N, -1, 8, 0, 0, a.limbs); return r;
}
template <size_t N> BigInt<N> B(const mpz_class& z) {  // z reduced mod 2^(64N)
  mpz_class t = z, m = 1; m <<= 64 * N; mpz_mod(t.get_mpz_t(), t.get_mpz_t(), m.get_mpz_t());
  BigInt<N> r(0); size_t c; mpz_export(r.limbs, &c, -1, 8, 0, 0, t.get_mpz_t()); return r;
}
template <size_t N> bool Eq(const BigInt<N>& a, const mpz_class& z) {
  uint64_t t[N] = {0}; size_t c = 0;
  if (sgn(z) < 0 || mpz_sizeinbase(z.get_mpz_t(), 2) > 64 * N) return false;
  mpz_export(t, &c, -1, 8, 0, 0, z.get_mpz_t());
  for (size_t i = 0; i < N; ++i) if (a.limbs[i] != t[i]) return false;
  return true;
}
template <size_t N> mpz_class Low(mpz_class z) { mpz_fdiv_r_2exp(z.get_mpz_t(), z.get_mpz_t(), 64 * N); return z; }
template <size_t N> std::string H(const BigInt<N>& a) { return Z(a).get_str(16); }

std::vector<uint64_t> Alphabet(size_t n) {
  switch (n) {
    case 1: {
      std::vector<uint64_t> r;
      for (uint64_t i = 0; i < 20; ++i) { r.push_back(i); r.push_back(M - i); }
      for (int k = 5; k < 64; ++k) for (int d = -1; d <= 1; ++d) r.push_back((uint64_t{1} << k) + d);
      for (uint64_t v : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0xffffffff00000001ull, 0x0123456789abcdefull, 0xfffffffefffffffeull}) r.push_back(v);
      std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
      return r;
    }
    case 2: return {0, 1, 2, 3, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xaaaaaaaaaaaaaaaaull, M - 1, M};
    case 3: return {0, 1, 0xffffffff00000000ull, 0x8000000000000000ull, M - 1, M};
    case 4: return {0, 1, 0x8000000000000000ull, M};
    case 5: return {0, 1, M};
    case 6: return {0, M};
    default: return {0, M};
  }
}
template <size_t N> std::vector<BigInt<N>> Values() {
  std::vector<uint64_t> al = Alphabet(N);
  std::vector<BigInt<N>> r;
  mc::tuples(N, al.size(), [&](const std::vector<int>& v) {
    BigInt<N> b(0); for (size_t i = 0; i < N; ++i) b[i] = al[v[N - 1 - i]]; r.push_back(b); });
  if (N > 4) {  // single odd-ball limb at each position, rest zero or ones
    for (size_t i = 0; i < N; ++i) for (uint64_t x : {uint64_t{1}, uint64_t{0x8000000000000000ull}, uint64_t{0x123456789abcdef1ull}, M - 1})
      for (uint64_t rest : {uint64_t{0}, M}) { BigInt<N> b(0); for (size_t j = 0; j < N; ++j) b[j] = j == i ? x : rest; r.push_back(b); }
  }
  return r;
}

template <size_t N> void Pairs(mc::Ctx& c) {
  std::vector<BigInt<N>> vs = Values<N>();
  std::vector<mpz_class> zs; for (auto& v : vs) zs.push_back(Z(v));
  mpz_class W = 1; W <<= 64 * N;
  mpz_class t, q, r2;
  for (size_t i = 0; i < vs.size(); ++i) {
    if (!c.mine(i)) continue;
    for (size_t j = 0; j < vs.size(); ++j) {
      const BigInt<N>&a = vs[i], &b = vs[j];
      mc::at("pair", N, a[0], a[N - 1], b[0], b[N - 1], i, j);
      auto desc = [&] { return H(a) + " , " + H(b) + " (limbs " + std::to_string(N) + ")"; };
      uint64_t cy = 0; t = zs[i] + zs[j];
      BigInt<N> s = a.Add(b, cy);
      MC_CHECK(c, Eq(s, Low<N>(t)) && cy == (t >= W ? 1u : 0u), "add", desc());
      MC_CHECK(c, a + b == s, "operator+", desc());
      BigInt<N> x = a; cy = 0; x.AddInPlace(b, cy);
      MC_CHECK(c, x == s && cy == (t >= W ? 1u : 0u), "add_in_place", desc());
      x = b; x += a; MC_CHECK(c, x == s, "+=", desc());
      uint64_t bw = 0; t = zs[i] - zs[j];
      BigInt<N> d = a.Sub(b, bw);
      MC_CHECK(c, Eq(d, Low<N>(t)) && bw == (sgn(t) < 0 ? 1u : 0u), "sub", desc());
      MC_CHECK(c, a - b == d, "operator-", desc());
      x = a; bw = 0; x.SubInPlace(b, bw); MC_CHECK(c, x == d && bw == (sgn(t) < 0 ? 1u : 0u), "sub_in_place", desc());
      x = a; x -= b; MC_CHECK(c, x == d, "-=", desc());
      t = zs[i] * zs[j];
      auto m = a.Multiply(b);
      MC_CHECK(c, Eq(m.lo, Low<N>(t)) && Eq(m.hi, mpz_class(t >> (64 * N))), "multiply", desc());
      MC_CHECK(c, a * b == m.lo && a.Mul(b) == m.lo, "operator*", desc());
      x = a; x *= b; MC_CHECK(c, x == m.lo, "*=", desc());
      MC_CHECK(c, Eq(a.MulExtend(b), t), "mul_extend", desc());
      int o = cmp(zs[i], zs[j]);
      MC_CHECK(c, (a == b) == (o == 0) && (a != b) == (o != 0) && (a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "compare", desc());
      MC_CHECK(c, Eq(a & b, mpz_class(zs[i] & zs[j])), "and", desc());
      MC_CHECK(c, Eq(a | b, mpz_class(zs[i] | zs[j])), "or", desc());
      MC_CHECK(c, Eq(a ^ b, mpz_class(zs[i] ^ zs[j])), "xor", desc());
      x = a; x &= b; MC_CHECK(c, x == (a & b), "&=", desc());
      x = a; x |= b; MC_CHECK(c, x == (a | b), "|=", desc());
      x = a; x ^= b; MC_CHECK(c, x == (a ^ b), "^=", desc());
      // Clamp: (carry, value) reduced once by a modulus
      if (!b.IsZero()) {
        x = a; BigInt<N>::template Clamp<true>(b, &x);
        MC_CHECK(c, Eq(x, zs[i] >= zs[j] ? mpz_class(zs[i] - zs[j]) : zs[i]), "clamp_spare", desc());
        x = a; BigInt<N>::template Clamp<false>(b, &x, false);
        MC_CHECK(c, Eq(x, zs[i] >= zs[j] ? mpz_class(zs[i] - zs[j]) : zs[i]), "clamp_nospare", desc());
        if (zs[i] < zs[j]) { x = a; BigInt<N>::template Clamp<false>(b, &x, true);
          MC_CHECK(c, Eq(x, mpz_class(zs[i] + W - zs[j])), "clamp_carry", desc()); }
      }
      if (N <= 4 || c.thorough || (i * 31 + j) % (N >= 8 ? 13 : N >= 6 ? 17 : 5) == 0) {
        if (b.IsZero()) {
          DivResult<BigInt<N>> dr;
          MC_CHECK(c, !a.Divide(b, dr) && !a.Div(b).has_value() && !(a / b).has_value(), "div_by_zero", desc());
          x = a; MC_CHECK(c, !(x /= b).has_value() && x == a, "/=0", desc());
        } else {
          q = zs[i] / zs[j]; r2 = zs[i] % zs[j];
          DivResult<BigInt<N>> dr; bool ok = a.Divide(b, dr);
          MC_CHECK(c, ok && Eq(dr.quotient, q) && Eq(dr.remainder, r2), "divide", desc());
          if (i % 4 == 0 || N == 1) {
            auto dv = a / b; MC_CHECK(c, dv && Eq(*dv, q), "operator/", desc());
            MC_CHECK(c, Eq(a % b, r2), "operator%", desc());
            x = a; MC_CHECK(c, (x /= b).has_value() && Eq(x, q), "/=", desc());
            x = a; x %= b; MC_CHECK(c, Eq(x, r2), "%=", desc());
          }
        }
      }
      c.states(1);
    }
    c.trace();
    if (i == 1) c.sample("all ops on (" + H(vs[i]) + ", every of " + std::to_string(vs.size()) + " values), N=" + std::to_string(N));
  }
}

// A bit-level model: vector<bool> of the value.
template <size_t N> void Unary(mc::Ctx& c) {
  std::vector<BigInt<N>> vs = Values<N>();
  // all powers of two and neighbours, too
  for (size_t k = 0; k < 64 * N; ++k) for (int d = -1; d <= 1; ++d) { mpz_class z = 1; z <<= k; z += d; vs.push_back(B<N>(z)); mpz_class y = 1; y <<= 64 * N; vs.push_back(B<N>(y - z)); }
  size_t stride = N <= 2 || c.thorough ? 1 : 1 + vs.size() / 500;
  for (size_t i = 0; i < vs.size(); ++i) {
    if (!c.mine(i)) continue;
    const BigInt<N> a = vs[i]; mpz_class z = Z(a), t;
    mc::at("unary", N, a[0], a[N - 1], i);
    auto desc = [&] { return H(a) + " (limbs " + std::to_string(N) + ")"; };
    c.state(mc::hash_bytes(a.limbs, sizeof a.limbs, N)); c.trace();
    MC_CHECK(c, a.IsZero() == (z == 0) && a.IsOne() == (z == 1) && a.IsEven() == !mpz_odd_p(z.get_mpz_t()) && a.IsOdd() == (bool)mpz_odd_p(z.get_mpz_t()), "predicates", desc());
    uint64_t cy = 0; t = z * 2; BigInt<N> x = a.MulBy2(cy);
    MC_CHECK(c, Eq(x, Low<N>(t)) && cy == a[N - 1] >> 63, "mul_by_2", desc());
    MC_CHECK(c, a.MulBy2() == x, "mul_by_2b", desc());
    BigInt<N> y = a; cy = 0; y.MulBy2InPlace(cy); MC_CHECK(c, y == x && cy == a[N - 1] >> 63, "mul_by_2_in_place", desc());
    y = a; y.DivBy2InPlace(); MC_CHECK(c, Eq(y, z / 2), "div_by_2", desc());
    // aliasing
    y = a; y += y; MC_CHECK(c, y == x, "a+=a", desc());
    y = a; y -= y; MC_CHECK(c, y.IsZero(), "a-=a", desc());
    y = a; y *= y; MC_CHECK(c, Eq(y, Low<N>(z * z)), "a*=a", desc());
    if (i % stride == 0) {
      for (uint32_t n = 0; n <= 64 * N + 70; ++n) {
        mc::at("shift", N, n, a[0], a[N - 1]);
        t = z << n;
        MC_CHECK(c, Eq(a << n, Low<N>(t)), "shl", desc() << " << " << n);
        y = a; y <<= n; MC_CHECK(c, Eq(y, Low<N>(t)), "shl=", desc() << " <<= " << n);
        t = z >> n;
        MC_CHECK(c, Eq(a >> n, t), "shr", desc() << " >> " << n);
        y = a; y >>= n; MC_CHECK(c, Eq(y, t), "shr=", desc() << " >>= " << n);
      }
      for (size_t k = 0; k < 64 * N; ++k) {
        MC_CHECK(c, BitTraits<BigInt<N>>::TestBit(a, k) == (bool)mpz_tstbit(z.get_mpz_t(), k), "test_bit", desc() << " bit " << k);
        for (int v = 0; v < 2; ++v) {
          y = a; BitTraits<BigInt<N>>::SetBit(y, k, v); t = z; if (v) mpz_setbit(t.get_mpz_t(), k); else mpz_clrbit(t.get_mpz_t(), k);
          MC_CHECK(c, Eq(y, t), "set_bit", desc() << " bit " << k << " := " << v);
        }
        for (size_t n : {size_t{1}, size_t{2}, size_t{3}, size_t{7}, size_t{8}, size_t{16}, size_t{17}, size_t{31}, size_t{32}, size_t{33}, size_t{63}, size_t{64}}) {
          mpz_class w = z >> k; mpz_fdiv_r_2exp(w.get_mpz_t(), w.get_mpz_t(), n);
          MC_CHECK(c, a.ExtractBits64(k, n) == (n == 64 ? [&]{ uint64_t o = 0; size_t cc; mpz_export(&o, &cc, -1, 8, 0, 0, w.get_mpz_t()); return o; }() : w.get_ui()), "extract64", desc() << " offset " << k << " count " << n);
          if (n <= 32) MC_CHECK(c, a.ExtractBits32(k, n) == (uint32_t)w.get_ui(), "extract32", desc() << " offset " << k << " count " << n);
        }
      }
    }
    // bits and bytes
    auto le = a.ToBitsLE(); auto be = a.ToBitsBE(); bool ok = true;
    for (size_t k = 0; k < 64 * N; ++k) ok &= le[k] == (bool)mpz_tstbit(z.get_mpz_t(), k) && be[64 * N - 1 - k] == le[k];
    MC_CHECK(c, ok, "to_bits", desc());
    MC_CHECK(c, BigInt<N>::FromBitsLE(le) == a, "from_bits_le", desc());
    MC_CHECK(c, BigInt<N>::FromBitsBE(be) == a, "from_bits_be", desc());
    auto bl = a.ToBytesLE(); auto bb = a.ToBytesBE(); ok = true;
    for (size_t k = 0; k < 8 * N; ++k) ok &= bl[k] == ((a[k / 8] >> (8 * (k % 8))) & 255) && bb[8 * N - 1 - k] == bl[k];
    MC_CHECK(c, ok, "to_bytes", desc());
    MC_CHECK(c, BigInt<N>::FromBytesLE(bl) == a, "from_bytes_le", desc());
    MC_CHECK(c, BigInt<N>::FromBytesBE(bb) == a, "from_bytes_be", desc());
    for (size_t k = 0; k <= 8 * N; k += (k < 17 ? 1 : 5)) {  // short byte containers
      std::vector<uint8_t> v(bl.begin(), bl.begin() + k); t = z; mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 8 * k);
      MC_CHECK(c, Eq(BigInt<N>::FromBytesLE(v), t), "from_bytes_le_short", desc() << " " << k << " bytes");
      std::reverse(v.begin(), v.end());
      MC_CHECK(c, Eq(BigInt<N>::FromBytesBE(v), t), "from_bytes_be_short", desc() << " " << k << " bytes");
    }
    {
      std::bitset<40> s = a.template ToBitsLE<40>(); std::bitset<40> sb = a.template ToBitsBE<40>(); t = z; mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 40);
      MC_CHECK(c, s.to_ullong() == t.get_ui() && Eq(BigInt<N>::template FromBitsLE<40>(s), t) && Eq(BigInt<N>::template FromBitsBE<40>(sb), t), "bits40", desc());
    }
    if constexpr (N >= 2) {
      std::bitset<100> s = a.template ToBitsLE<100>(); std::bitset<100> sb = a.template ToBitsBE<100>(); t = z; mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 100);
      MC_CHECK(c, Eq(BigInt<N>::template FromBitsLE<100>(s), t) && Eq(BigInt<N>::template FromBitsBE<100>(sb), t), "bits100", desc());
      MC_CHECK(c, Eq(a.template Shrink<1>(), Low<1>(z)), "shrink", desc());
    }
    MC_CHECK(c, Eq(a.template Extend<N + 1>(), z) && Eq(a.template Extend<N + 3>(), z), "extend", desc());
    // non-adjacent form: digits in {-1,0,1}, no two adjacent non-zero, value
    {
      auto naf = a.ToNAF(); t = 0; ok = true;
      for (size_t k = naf.size(); k-- > 0;) { t = t * 2 + naf[k]; ok &= naf[k] >= -1 && naf[k] <= 1 && !(k && naf[k] && naf[k - 1]); }
      MC_CHECK(c, ok && t == z, "naf", desc());
    }
    // bit iterators
    {
      t = 0; size_t n = 0;
      for (auto it = BitIteratorBE<BigInt<N>>::begin(&a), e = BitIteratorBE<BigInt<N>>::end(&a); it != e; ++it, ++n) t = t * 2 + (*it ? 1 : 0);
      MC_CHECK(c, t == z && n == 64 * N, "bit_iterator_be", desc());
      t = 0; n = 0;
      for (auto it = BitIteratorBE<BigInt<N>>::begin(&a, true), e = BitIteratorBE<BigInt<N>>::end(&a); it != e; ++it, ++n) t = t * 2 + (*it ? 1 : 0);
      MC_CHECK(c, t == z && n == (z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2)), "bit_iterator_be_skip", desc());
      t = 0; n = 0;
      for (auto it = BitIteratorLE<BigInt<N>>::begin(&a), e = BitIteratorLE<BigInt<N>>::end(&a); it != e; ++it, ++n) if (*it) mpz_setbit(t.get_mpz_t(), n);
      MC_CHECK(c, t == z && n == 64 * N, "bit_iterator_le", desc());
      t = 0; n = 0;
      for (auto it = BitIteratorLE<BigInt<N>>::begin(&a), e = BitIteratorLE<BigInt<N>>::end(&a, true); it != e; ++it, ++n) if (*it) mpz_setbit(t.get_mpz_t(), n);
      MC_CHECK(c, t == z && n == (z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2)), "bit_iterator_le_skip", desc());
    }
    // strings: own schoolbook conversion as the model
    if (i % stride == 0 || N <= 3) {
      std::string dec, hx; mpz_class w = z;
      if (w == 0) dec = hx = "0";
      while (w != 0) { dec += (char)('0' + mpz_class(w % 10).get_ui()); w /= 10; }
      w = z; while (w != 0) { hx += "0123456789abcdef"[mpz_class(w % 16).get_ui()]; w /= 16; }
      std::reverse(dec.begin(), dec.end()); std::reverse(hx.begin(), hx.end());
      MC_CHECK(c, a.ToString() == dec, "to_string", desc() << " -> " << a.ToString());
      MC_CHECK(c, a.ToHexString() == "0x" + hx, "to_hex", desc() << " -> " << a.ToHexString());
      std::string padded = "0x" + std::string(16 * N - hx.size(), '0') + hx;
      MC_CHECK(c, a.ToHexString(true) == padded, "to_hex_padded", desc() << " -> " << a.ToHexString(true));
      auto p = BigInt<N>::FromDecString(dec); MC_CHECK(c, p && *p == a, "from_dec", desc());
      p = BigInt<N>::FromHexString(hx); MC_CHECK(c, p && *p == a, "from_hex", desc());
      p = BigInt<N>::FromHexString("0x" + hx); MC_CHECK(c, p && *p == a, "from_hex0x", desc());
      p = BigInt<N>::FromHexString(padded); MC_CHECK(c, p && *p == a, "from_hex_padded", desc());
      // a view into a longer text denotes only its own characters
      std::string longer = dec + "7"; p = BigInt<N>::FromDecString(std::string_view(longer).substr(0, dec.size()));
      MC_CHECK(c, p && *p == a, "from_dec_view", desc());
      longer = hx + "f"; p = BigInt<N>::FromHexString(std::string_view(longer).substr(0, hx.size()));
      MC_CHECK(c, p && *p == a, "from_hex_view", desc());
      // one more than fits
      mpz_class big = 1; big <<= 64 * N; big += z;
      MC_CHECK(c, !BigInt<N>::FromDecString(big.get_str(10)) && !BigInt<N>::FromHexString(big.get_str(16)), "from_string_overflow", desc());
      MC_CHECK(c, !BigInt<N>::FromDecString(dec + "g") && !BigInt<N>::FromHexString(hx + "g"), "from_string_garbage", desc());
      if (z != 0) MC_CHECK(c, !BigInt<N>::FromDecString("-" + dec), "from_string_negative", desc());
    }
  }
}

// Montgomery reduction and inversion from their definitions.
template <size_t N, bool Spare> void MontOne(mc::Ctx& c, const BigInt<N>& mod, const std::vector<BigInt<N>>& xs) {
  mpz_class m = Z(mod), R = 1, Rinv, t, i32; R <<= 64 * N;
  mpz_invert(Rinv.get_mpz_t(), R.get_mpz_t(), m.get_mpz_t());
  mpz_class two64 = 1; two64 <<= 64; mpz_class inv; mpz_invert(inv.get_mpz_t(), mpz_class(m % two64).get_mpz_t(), two64.get_mpz_t());
  inv = two64 - inv; uint64_t inv64; { size_t n; inv64 = 0; mpz_export(&inv64, &n, -1, 8, 0, 0, inv.get_mpz_t()); }
  uint32_t inv32 = (uint32_t)inv64;
  BigInt<N> r2 = B<N>(mpz_class(R * R % m));
  auto desc = [&](const BigInt<N>& a) { return "mod " + H(mod) + " x " + H(a); };
  std::vector<BigInt<N>> ys; for (auto& x : xs) { if (Z(x) < m) ys.push_back(x); else { mpz_class d = Z(x) % m; ys.push_back(B<N>(d)); } }
  for (auto& x : ys) {
    mc::at("mont", N, mod[0], mod[N - 1], x[0], x[N - 1]);
    t = Z(x) * Rinv % m;
    MC_CHECK(c, Eq(BigInt<N>::FromMontgomery64(x, mod, inv64), t), "from_mont64", desc(x));
    MC_CHECK(c, Eq(BigInt<N>::FromMontgomery32(x, mod, inv32), t), "from_mont32", desc(x));
    if (!x.IsZero()) {
      mpz_class g; mpz_gcd(g.get_mpz_t(), Z(x).get_mpz_t(), m.get_mpz_t());
      if (g == 1) {
        BigInt<N> o; bool ok = x.template MontgomeryInverse<Spare>(mod, r2, o);
        mpz_invert(t.get_mpz_t(), Z(x).get_mpz_t(), m.get_mpz_t()); t = t * R % m * R % m;
        MC_CHECK(c, ok && Eq(o, t), "mont_inverse", desc(x));
        BYInverter<N> by(mod, r2); BigInt<N> o2(0);
        MC_CHECK(c, by.Invert(x, o2) && Eq(o2, t), "by_inverse", desc(x));
      } else {
        BYInverter<N> by(mod, r2); BigInt<N> o2(0);
        MC_CHECK(c, !by.Invert(x, o2), "by_noninvertible", desc(x));
      }
    } else {
      BigInt<N> o; MC_CHECK(c, !x.template MontgomeryInverse<Spare>(mod, r2, o), "mont_inverse_zero", desc(x));
    }
    for (auto& y : ys) {
      mpz_class p = Z(x) * Z(y); t = p * Rinv % m;
      BigInt<2 * N> w = B<2 * N>(p); BigInt<N> o;
      BigInt<N>::template MontgomeryReduce64<Spare>(w, mod, inv64, &o);
      MC_CHECK(c, Eq(o, t), "mont_reduce64", desc(x) << " y " << H(y));
      w = B<2 * N>(p);
      BigInt<N>::template MontgomeryReduce32<Spare>(w, mod, inv32, &o);
      MC_CHECK(c, Eq(o, t), "mont_reduce32", desc(x) << " y " << H(y));
      c.states(1);
    }
    c.trace();
  }
}
template <size_t N> void Mont(mc::Ctx& c) {
  std::vector<BigInt<N>> mods; mpz_class W = 1; W <<= 64 * N;
  for (int d : {1, 3, 5, 59, 189}) mods.push_back(B<N>(W - d));
  mpz_class half = W / 2;
  for (int d : {-1, -25, 1, 3, 29}) mods.push_back(B<N>(half + d));
  mods.push_back(B<N>(W / 4 * 3 + 1)); mods.push_back(B<N>(W / 8 + 3));
  if (N > 1) { mods.push_back(B<N>(W - (mpz_class(1) << (64 * N - 32)) + 1)); mods.push_back(B<N>((mpz_class(1) << (64 * (N - 1))) + 13)); }
  for (int d : {3, 7, 13, 101}) mods.push_back(B<N>(mpz_class(d)));
  std::vector<uint64_t> al = Alphabet(N);
  std::vector<BigInt<N>> vs = Values<N>();
  size_t stride = 1 + vs.size() / (c.thorough ? 400 : 80);
  for (size_t k = 0; k < mods.size(); ++k) {
    if (!c.mine(k)) continue;
    mpz_class m = Z(mods[k]);
    std::vector<BigInt<N>> xs;
    for (int d = 0; d < 4; ++d) { xs.push_back(B<N>(mpz_class(d))); xs.push_back(B<N>(m - 1 - d < 0 ? mpz_class(0) : mpz_class(m - 1 - d))); xs.push_back(B<N>(m / 2 + d)); xs.push_back(B<N>(W % m + d)); }
    for (size_t i = 0; i < vs.size(); i += stride) xs.push_back(vs[i]);
    if (mods[k][N - 1] >> 63) MontOne<N, false>(c, mods[k], xs);
    else { MontOne<N, true>(c, mods[k], xs); MontOne<N, false>(c, mods[k], xs); }
    c.sample("modulus " + H(mods[k]) + " with " + std::to_string(xs.size()) + "^2 operand pairs");
  }
}

// All sequences of operations, on a 128-bit value pair (x,y), to a depth, BFS.
struct St { BigInt<2> x, y; };
}  // namespace

MC_SECTION(pairs1, 1) { Pairs<1>(c); }
MC_SECTION(pairs2, 1) { Pairs<2>(c); }
MC_SECTION(pairs3, 2) { Pairs<3>(c); }
MC_SECTION(pairs4, 4) { Pairs<4>(c); }
MC_SECTION(pairs5, 3) { Pairs<5>(c); }
MC_SECTION(pairs6, 1) { Pairs<6>(c); }
MC_SECTION(pairs7, 1) { Pairs<7>(c); }
MC_SECTION(pairs8, 2) { Pairs<8>(c); }
MC_SECTION(pairs9, 6) { Pairs<9>(c); }
MC_SECTION(unary1, 1) { Unary<1>(c); }
MC_SECTION(unary2, 1) { Unary<2>(c); }
MC_SECTION(unary3, 2) { Unary<3>(c); }
MC_SECTION(unary4, 2) { Unary<4>(c); }
MC_SECTION(unary6, 3) { Unary<6>(c); }
MC_SECTION(unary9, 4) { Unary<9>(c); }
MC_SECTION(mont1, 2) { Mont<1>(c); }
MC_SECTION(mont2, 2) { Mont<2>(c); }
MC_SECTION(mont4, 3) { Mont<4>(c); }
MC_SECTION(mont6, 3) { Mont<6>(c); }
MC_SECTION(mont12, 3) { Mont<9>(c); }

// Every pair of 8-bit values embedded at every limb boundary of BigInt<2>
// (values straddling limb 0/1), so carries and borrows of every small shape.
MC_SECTION(straddle, 4) {
  for (int a = 0; a < 256; ++a) { if (!c.mine(a)) continue;
    for (int b = 0; b < 256; ++b) {
      mpz_class za = mpz_class(a) << 60, zb = mpz_class(b) << 60;
      BigInt<2> x = B<2>(za), y = B<2>(zb);
      mc::at("straddle", a, b);
      MC_CHECK(c, Eq(x + y, za + zb), "add", a << "," << b);
      if (a >= b) MC_CHECK(c, Eq(x - y, za - zb), "sub", a << "," << b);
      MC_CHECK(c, Eq(x.MulExtend(y), za * zb), "mul", a << "," << b);
      if (b) MC_CHECK(c, Eq(*(x / y), za / zb) && Eq(x % y, za % zb), "div", a << "," << b);
      c.states(1);
    }
    c.trace();
  }
}

// Operation sequences: BFS over reachable (x, y) pairs from boundary seeds,
// every operation applied in every state, GMP model in lock step.
MC_SECTION(sequences, 4) {
  mpz_class W = 1; W <<= 128;
  std::vector<std::pair<mpz_class, mpz_class>> fr;
  std::vector<mpz_class> seeds = {0, 1, W - 1, W / 2, (mpz_class(1) << 64), (mpz_class(1) << 64) - 1};
  int si = 0;
  for (auto& a : seeds) for (auto& b : seeds) if (c.mine(si++)) fr.push_back({a, b});
  int depth = c.thorough ? 5 : 4;
  for (int d = 0; d < depth; ++d) {
    std::vector<std::pair<mpz_class, mpz_class>> nx;
    for (auto& s : fr) for (int op = 0; op < 12; ++op) {
      BigInt<2> x = B<2>(s.first), y = B<2>(s.second); mpz_class p = s.first, q = s.second;
      mc::at("seq", d, op, x[0], x[1], y[0], y[1]);
      switch (op) {
        case 0: x += y; p = (p + q) % W; break;
        case 1: x -= y; p = (p - q + W) % W; break;
        case 2: x *= y; p = p * q % W; break;
        case 3: if (q == 0) continue; (void)(x /= y); p /= q; break;
        case 4: if (q == 0) continue; x %= y; p %= q; break;
        case 5: x <<= 1; p = p * 2 % W; break;
        case 6: x >>= 63; p >>= 63; break;
        case 7: std::swap(x, y); std::swap(p, q); break;
        case 8: x ^= y; p ^= q; break;
        case 9: y = x & y; q = p & q; break;
        case 10: y |= x; q |= p; break;
        case 11: y.DivBy2InPlace(); q /= 2; break;
      }
      MC_CHECK(c, Eq(x, p) && Eq(y, q), "seq", "op " << op << " depth " << d << " from " << s.first.get_str(16) << "," << s.second.get_str(16));
      uint64_t h = mc::hash_bytes(x.limbs, 16, mc::hash_bytes(y.limbs, 16));
      if (c.state(h)) nx.push_back({p, q});
    }
    fr.swap(nx); c.trace(fr.size());
  }
}

MC_SECTION(limb_primitives, 1) {
  std::vector<uint64_t> al = Alphabet(1);
  for (uint64_t a : al) for (uint64_t b : al) for (uint64_t cy = 0; cy < 2; ++cy) {
    mc::at("limb", a, b, cy);
    unsigned __int128 s = (unsigned __int128)a + b + cy;
    auto r = internal::u64::AddWithCarry(a, b, cy);
    MC_CHECK(c, r.result == (uint64_t)s && r.carry == (uint64_t)(s >> 64), "u64_add", a << "," << b << "," << cy);
    unsigned __int128 d = (unsigned __int128)a - b - cy;
    auto t = internal::u64::SubWithBorrow(a, b, cy);
    MC_CHECK(c, t.result == (uint64_t)d && t.borrow == (uint64_t)((d >> 64) & 1), "u64_sub", a << "," << b << "," << cy);
    uint32_t a3 = (uint32_t)a, b3 = (uint32_t)b;
    auto r3 = internal::u32::AddWithCarry(a3, b3, (uint32_t)cy); uint64_t s3 = (uint64_t)a3 + b3 + cy;
    MC_CHECK(c, r3.result == (uint32_t)s3 && r3.carry == (uint32_t)(s3 >> 32), "u32_add", a3 << "," << b3 << "," << cy);
    auto t3 = internal::u32::SubWithBorrow(a3, b3, (uint32_t)cy); uint64_t d3 = (uint64_t)a3 - b3 - cy;
    MC_CHECK(c, t3.result == (uint32_t)d3 && t3.borrow == (uint32_t)((d3 >> 32) & 1), "u32_sub", a3 << "," << b3 << "," << cy);
    for (uint64_t k : {uint64_t{0}, uint64_t{1}, M, uint64_t{0xffffffff}, uint64_t{0x100000000}}) for (uint64_t k2 : {uint64_t{0}, M, uint64_t{1}}) {
      unsigned __int128 m = (unsigned __int128)a * b + k + k2;
      auto mm = internal::u64::MulAddWithCarry(k, a, b, k2);
      MC_CHECK(c, mm.lo == (uint64_t)m && mm.hi == (uint64_t)(m >> 64), "u64_mul", a << "," << b << "," << k);
      uint64_t m3 = (uint64_t)a3 * b3 + (uint32_t)k + (uint32_t)k2; auto mm3 = internal::u32::MulAddWithCarry((uint32_t)k, a3, b3, (uint32_t)k2);
      MC_CHECK(c, mm3.lo == (uint32_t)m3 && mm3.hi == (uint32_t)(m3 >> 32), "u32_mul", a3 << "," << b3 << "," << k);
    }
    c.states(1);
  }
  // extended Euclid on all pairs of a small square
  for (int64_t x = -60; x <= 60; ++x) for (int64_t y = -60; y <= 60; ++y) {
    if (!x && !y) continue;
    auto r = EGCD<int64_t>::Compute(x, y); int64_t g = 0; for (int64_t k = 1; k <= 60; ++k) if (x % k == 0 && y % k == 0) g = k;
    MC_CHECK(c, std::abs(r.r) == g && r.s * x + r.t * y == r.r && r.IsValid(x, y), "egcd", x << "," << y); c.states(1);
  }
  c.trace();
  c.sample("limb primitives over " + std::to_string(al.size()) + "^2 x carry");
}
