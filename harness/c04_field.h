// C04: prime field arithmetic against GMP / machine integers on the raw representation.
#include <optional>
#include "mc/mcfield.h"

namespace {
using namespace tachyon::math::mcf;

template <typename F> std::string D(const char* n, const F& a) { return std::string(n) + "=raw:" + [&] { if constexpr (kSmall<F>) return std::to_string(a.value()); else return ZB(a.value()).get_str(16); }(); }

template <typename F>
void Unary(mc::Ctx& c, const Ora<F>& o, const mpz_class& r, bool deep) {
  F a = o.el(r), t; mpz_class e;
  mpz_class zc = r * o.Rinv % o.p;
  auto d = [&] { return D("a", a) + " p=" + o.p.get_str(16); };
  if (c.want_sample()) c.sample("unary ops on " + d());
  mc::at("unary", 1);
  e = r * 2 % o.p;
  MC_CHECK(c, o.is(a.Double(), e), "double", d());
  t = a; t.DoubleInPlace(); MC_CHECK(c, o.is(t, e), "double_in_place", d());
  t = a; t += t; MC_CHECK(c, o.is(t, e), "add_alias", d());
  MC_CHECK(c, o.is(a + a, e), "add_self", d());
  e = r * r * o.Rinv % o.p;
  MC_CHECK(c, o.is(a.Square(), e), "square", d());
  t = a; t.SquareInPlace(); MC_CHECK(c, o.is(t, e), "square_in_place", d());
  t = a; t *= t; MC_CHECK(c, o.is(t, e), "mul_alias", d());
  t = a; t -= t; MC_CHECK(c, o.is(t, 0), "sub_alias", d());
  e = (o.p - r) % o.p;
  MC_CHECK(c, o.is(-a, e), "negate", d());
  t = a; t.NegateInPlace(); MC_CHECK(c, o.is(t, e), "negate_in_place", d());
  mc::at("inverse", 1);
  std::optional<F> inv = a.Inverse();
  t = a; bool ok = t.InverseInPlace().has_value();
  if (r == 0) {
    MC_CHECK(c, !inv.has_value() && !ok, "inverse_of_zero", "inverse of zero did not fail, p=" << o.p.get_str());
    t = o.canon(1); MC_CHECK(c, !(t / a).has_value() && !(t /= a).has_value(), "div_by_zero", d());
  } else {
    mpz_invert(e.get_mpz_t(), r.get_mpz_t(), o.p.get_mpz_t());
    e = e * o.R * o.R % o.p;
    MC_CHECK(c, inv.has_value() && o.is(*inv, e), "inverse", d());
    MC_CHECK(c, ok && o.is(t, e), "inverse_in_place", d());
  }
  MC_CHECK(c, a.IsZero() == (zc == 0) && a.IsOne() == (zc == 1 % o.p) && a.IsMinusOne() == (zc == o.p - 1), "predicates", d());
  // conversions
  mc::at("convert", 1);
  MC_CHECK(c, ZB(a.ToBigInt()) == zc, "to_big_int", d());
  MC_CHECK(c, o.is(F::FromBigInt(BZ<F::kLimbNums>(zc)), r) && o.is(F(BZ<F::kLimbNums>(zc)), r), "from_big_int", d());
  if (zc < (uint64_t{1} << 31)) MC_CHECK(c, o.is(F((uint32_t)zc.get_ui()), r), "from_uint32", d());
  std::string dec = zc.get_str(), hex = zc.get_str(16);
  MC_CHECK(c, a.ToString() == dec, "to_string", d() << " gives " << a.ToString());
  MC_CHECK(c, a.ToHexString() == "0x" + hex, "to_hex", d() << " gives " << a.ToHexString());
  size_t width = kSmall<F> ? 8 : 16 * F::kLimbNums;
  MC_CHECK(c, a.ToHexString(true) == "0x" + std::string(width - hex.size(), '0') + hex, "to_hex_padded", d() << " gives " << a.ToHexString(true));
  std::optional<F> f = F::FromDecString(dec);
  MC_CHECK(c, f.has_value() && o.is(*f, r), "from_dec", d());
  f = F::FromHexString(hex); MC_CHECK(c, f.has_value() && o.is(*f, r), "from_hex", d());
  f = F::FromHexString("0x" + hex); MC_CHECK(c, f.has_value() && o.is(*f, r), "from_0xhex", d());
  if constexpr (!kSmall<F>) {
    MC_CHECK(c, a.ToMpzClass() == zc && o.is(F::FromMpzClass(zc), r), "mpz", d());
  }
  if (!deep) return;
  // powers and scalar multiples
  std::vector<mpz_class> es = {0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 255, 256, o.p - 1, o.p - 2, o.p, o.p / 2, (o.p + 1) / 4, mpz_class("18446744073709551615")};
  mpz_class lim = 1; lim <<= 64 * F::kLimbNums;
  for (auto& k : es) {
    if (k < 0 || k >= lim) continue;
    mc::at("pow", k.get_ui());
    mpz_powm(e.get_mpz_t(), zc.get_mpz_t(), k.get_mpz_t(), o.p.get_mpz_t());
    e = e * o.R % o.p;
    MC_CHECK(c, o.is(a.Pow(BZ<F::kLimbNums>(k)), e), "pow", d() << " exponent " << k.get_str());
    if (k < (uint64_t{1} << 31)) MC_CHECK(c, o.is(a.Pow((uint32_t)k.get_ui()), e), "pow_u32", d() << " exponent " << k.get_str());
    MC_CHECK(c, o.is(a.ScalarMul(BZ<F::kLimbNums>(k)), r * k % o.p), "scalar_mul", d() << " scalar " << k.get_str());
  }
  auto pw = [&](int k) { mpz_class x; mpz_powm_ui(x.get_mpz_t(), zc.get_mpz_t(), k, o.p.get_mpz_t()); return mpz_class(x * o.R % o.p); };
#define MC_CP(k) MC_CHECK(c, o.is(a.template ConstPow<k>(), pw(k)), "const_pow", d() << " k=" << k); \
  MC_CHECK(c, o.is(a.template ConstScalarMul<k>(), r * k % o.p), "const_scalar_mul", d() << " k=" << k);
  MC_CP(0) MC_CP(1) MC_CP(2) MC_CP(3) MC_CP(4) MC_CP(5) MC_CP(6) MC_CP(7) MC_CP(8) MC_CP(9) MC_CP(11)
#undef MC_CP
  for (int k = 0; k <= 10; ++k) MC_CHECK(c, o.is(a.ExpPowOfTwo(k), pw(1 << k)), "exp_pow_of_two", d() << " k=" << k);
}

template <typename F>
void Constants(mc::Ctx& c, const Ora<F>& o) {
  MC_CHECK(c, o.is(F::Zero(), 0) && o.is(F::One(), o.R) && o.is(F::MinusOne(), (o.p - o.R) % o.p), "constants", "p=" << o.p.get_str());
  if (o.p > 2) { mpz_class h = (o.p + 1) / 2 * o.R % o.p; MC_CHECK(c, o.is(F::TwoInv(), h), "two_inv", "p=" << o.p.get_str()); }
  mpz_class top = 1; top <<= kSmall<F> ? 64 : 64 * F::kLimbNums;
  for (mpz_class v : {o.p, mpz_class(o.p + 1), mpz_class(2 * o.p), mpz_class(top - 1)}) {
    if (v >= top || v < o.p) continue;
    MC_CHECK(c, !F::FromDecString(v.get_str()).has_value(), "dec_out_of_range", v.get_str());
    MC_CHECK(c, !F::FromHexString(v.get_str(16)).has_value(), "hex_out_of_range", v.get_str());
  }
  for (const char* s : {"", "x", "12x", "0xg"}) {
    MC_CHECK(c, !F::FromDecString(s).has_value(), "dec_garbage", s);
    MC_CHECK(c, !F::FromHexString(s).has_value(), "hex_garbage", s);
  }
}

template <typename F>
void Large(mc::Ctx& c) {
  F::Init(); Ora<F> o;
  std::vector<mpz_class> rs = RawSet<F>(o, c.thorough);
  std::vector<F> el; std::vector<mpz_class> zs;
  for (auto& r : rs) { el.push_back(o.el(r)); zs.push_back(r * o.Rinv % o.p); }
  if (c.mine(0)) Constants<F>(c, o);
  mpz_class e, t;
  for (size_t i = 0; i < rs.size(); ++i) {
    if (!c.mine(i)) continue;
    c.states(1);
    Unary<F>(c, o, rs[i], i < 60 || i % 8 == 0 || i + 20 > rs.size());
    for (size_t j = 0; j < rs.size(); ++j) {
      const F &a = el[i], &b = el[j]; F x;
      mc::at("pair", i, j);
      c.states(1);
      auto d = [&] { return D("a", a) + " " + D("b", b) + " p=" + o.p.get_str(16); };
      e = rs[i] + rs[j]; if (e >= o.p) e -= o.p;
      MC_CHECK(c, o.is(a + b, e), "add", d());
      x = a; x += b; MC_CHECK(c, o.is(x, e), "add_in_place", d());
      e = rs[i] - rs[j]; if (e < 0) e += o.p;
      MC_CHECK(c, o.is(a - b, e), "sub", d());
      x = a; x -= b; MC_CHECK(c, o.is(x, e), "sub_in_place", d());
      e = rs[i] * zs[j] % o.p;
      MC_CHECK(c, o.is(a * b, e), "mul", d());
      x = a; x *= b; MC_CHECK(c, o.is(x, e), "mul_in_place", d());
      int k = cmp(zs[i], zs[j]);
      MC_CHECK(c, (a == b) == (k == 0) && (a != b) == (k != 0) && (a < b) == (k < 0) && (a > b) == (k > 0) && (a <= b) == (k <= 0) && (a >= b) == (k >= 0), "compare", d());
      if (j < 12 && rs[j] != 0) {
        mpz_invert(e.get_mpz_t(), rs[j].get_mpz_t(), o.p.get_mpz_t()); e = e * rs[i] % o.p * o.R % o.p;
        auto q = a / b; MC_CHECK(c, q.has_value() && o.is(*q, e), "div", d());
        x = a; auto q2 = (x /= b); MC_CHECK(c, q2.has_value() && *q2 == &x && o.is(x, e), "div_in_place", d());
      }
    }
  }
  c.trace(rs.size());
}

// All pairs of elements of a tiny field, and all reachable states of two
// registers under in-place operations.
template <typename F>
void Tiny(mc::Ctx& c) {
  F::Init(); Ora<F> o; uint64_t p = o.ps;
  Constants<F>(c, o);
  std::vector<uint64_t> dom;
  if (p <= 300) for (uint64_t i = 0; i < p; ++i) dom.push_back(i);
  else { std::set<uint64_t> s; for (uint64_t i = 0; i < 24; ++i) { s.insert(i); s.insert(p - 1 - i); s.insert(p / 2 + i); s.insert(p / 2 - i); s.insert((o.rs + i) % p); s.insert((p - o.rs + i) % p); }
    for (int b = 0; b < 31; ++b) for (int k = -2; k <= 2; ++k) { uint64_t v = (uint64_t{1} << b) + k; if (v < p) { s.insert(v); s.insert(p - 1 - v); } }
    dom.assign(s.begin(), s.end()); }
  for (uint64_t r : dom) { c.states(1); Unary<F>(c, o, mpz_class((unsigned long)r), true); }
  for (uint64_t r : dom) for (uint64_t s : dom) {
    F a = o.el(mpz_class((unsigned long)r)), b = o.el(mpz_class((unsigned long)s)), x;
    mc::at("tiny pair", p, r, s); c.states(1);
    auto d = [&] { return D("a", a) + " " + D("b", b) + " p=" + std::to_string(p); };
    uint64_t e = (r + s) % p;
    MC_CHECK(c, (a + b).value() == e, "add", d()); x = a; x += b; MC_CHECK(c, x.value() == e, "add_in_place", d());
    e = (r + p - s) % p;
    MC_CHECK(c, (a - b).value() == e, "sub", d()); x = a; x -= b; MC_CHECK(c, x.value() == e, "sub_in_place", d());
    e = (unsigned __int128)(r * s % p) * o.rinvs % p;
    MC_CHECK(c, (a * b).value() == e, "mul", d()); x = a; x *= b; MC_CHECK(c, x.value() == e, "mul_in_place", d());
    uint64_t zr = (unsigned __int128)r * o.rinvs % p, zs = (unsigned __int128)s * o.rinvs % p;
    MC_CHECK(c, (a == b) == (zr == zs) && (a != b) == (zr != zs) && (a < b) == (zr < zs) && (a > b) == (zr > zs) && (a <= b) == (zr <= zs) && (a >= b) == (zr >= zs), "compare", d());
    if (s) {
      auto q = a / b; MC_CHECK(c, q.has_value() && (*q * b).value() == r && q->value() < p, "div", d());
      x = a; MC_CHECK(c, (x /= b).has_value() && x == *q, "div_in_place", d());
    }
    // pow with a full-range exponent
    if (p <= 300) {
      uint64_t w = 1 % p; for (uint64_t k = 0; k < s; ++k) w = w * zr % p;
      MC_CHECK(c, a.Pow((uint32_t)s).value() == w * o.rs % p, "pow", d() << " exponent b");
    }
  }
  // explicit-state exploration of register programs
  if (p <= 100) {
    std::vector<std::pair<uint32_t, uint32_t>> q; std::vector<bool> seen(p * p);
    auto push = [&](const F& a, const F& b, const char* op, uint32_t r, uint32_t s, uint64_t ea, uint64_t eb) {
      MC_CHECK(c, a.value() == ea && b.value() == eb, "register_step", op << " from raw (" << r << "," << s << ") p=" << p);
      if (a.value() < p && b.value() < p && !seen[a.value() * p + b.value()]) { seen[a.value() * p + b.value()] = true; q.push_back({a.value(), b.value()}); c.states(1); }
    };
    F z = F::Zero(), u = F::One(); push(u, z, "init", 0, 0, o.rs % p, 0);
    for (size_t h = 0; h < q.size(); ++h) {
      auto [r, s] = q[h]; F a0 = o.el(mpz_class((unsigned long)r)), b0 = o.el(mpz_class((unsigned long)s)), a, b;
      a = a0; b = b0; a += b; push(a, b, "a+=b", r, s, (r + s) % p, s);
      a = a0; b = b0; b -= a; push(a, b, "b-=a", r, s, r, (s + p - r) % p);
      a = a0; b = b0; a *= b; push(a, b, "a*=b", r, s, uint64_t{r} * s % p * o.rinvs % p, s);
      a = a0; b = b0; a.SquareInPlace(); push(a, b, "a^2", r, s, uint64_t{r} * r % p * o.rinvs % p, s);
      a = a0; b = b0; b.DoubleInPlace(); push(a, b, "2b", r, s, r, 2 * s % p);
      a = a0; b = b0; a.NegateInPlace(); push(a, b, "-a", r, s, (p - r) % p, s);
      a = a0; b = b0; std::swap(a, b); push(a, b, "swap", r, s, s, r);
    }
    c.trace(q.size());
  }
}

// Every element of a 31-bit field as left operand, fixed right operands.
template <typename F>
void AllElements(mc::Ctx& c) {
  F::Init(); Ora<F> o; const uint64_t p = o.ps;
  uint64_t lo = p * c.shard / c.nshards, hi = p * (c.shard + 1) / c.nshards;
  std::vector<uint64_t> ks = {0, 1, 2, p - 1, p - 2, p / 2, p / 2 + 1, o.rs, (uint64_t{1} << 30), (uint64_t{1} << 16) + 1, p / 3};
  if (!c.thorough) ks = {p - 1, p / 2 + 1, p / 3};
  uint64_t bad = 0, steps = 0;
  auto el = [&](uint64_t r) { if constexpr (F::Config::kUseMontgomery) return F::FromMontgomery((uint32_t)r); else return F((uint32_t)r); };
  const uint64_t rinv = o.rinvs;
  mc::at("all elements", p, lo, hi);
  for (uint64_t r = lo; r < hi; ++r) {
    F a = el(r);
    uint64_t z = r * rinv % p, m = 0;
    m |= a.Double().value() ^ (2 * r >= p ? 2 * r - p : 2 * r);
    m |= (-a).value() ^ (r ? p - r : 0);
    m |= a.Square().value() ^ (r * z % p);
    m |= a.ToBigInt()[0] ^ z;
    m |= F((uint32_t)z).value() ^ r;
    steps += 5;
    if (__builtin_expect(m != 0, 0)) { bad = 1; c.fail("all_unary", "raw " + std::to_string(r) + " p=" + std::to_string(p)); }
  }
  for (uint64_t k : ks) {
    F b = el(k); uint64_t zk = k * rinv % p;
    for (uint64_t r = lo; r < hi; ++r) {
      F a = el(r); uint64_t e = r + k, m;
      m = (a + b).value() ^ (e >= p ? e - p : e);
      m |= (a - b).value() ^ (r >= k ? r - k : r + p - k);
      m |= (b - a).value() ^ (k >= r ? k - r : k + p - r);
      m |= (a * b).value() ^ (r * zk % p);
      if (__builtin_expect(m != 0, 0)) { bad = 1; c.fail("all_binary", "raw " + std::to_string(r) + " with " + std::to_string(k) + " p=" + std::to_string(p)); }
    }
    steps += 4 * (hi - lo);
  }
  c.states(hi - lo); c.step(steps); c.trace(1); (void)bad;
  if (c.shard == 0) c.sample("every element of F_" + std::to_string(p) + " with " + std::to_string(ks.size()) + " right operands");
}
template <typename F>
void AllInverses(mc::Ctx& c) {
  F::Init(); Ora<F> o; const uint64_t p = o.ps;
  uint64_t lo = p * c.shard / c.nshards, hi = p * (c.shard + 1) / c.nshards;
  for (uint64_t r = std::max<uint64_t>(lo, 1); r < hi; ++r) {
    F a = o.el(mpz_class((unsigned long)r)); auto i = a.Inverse();
    MC_CHECK(c, i.has_value() && (*i * a).IsOne() && i->value() < p, "all_inverse", "raw " << r << " p=" << p);
  }
  c.states(hi - lo); c.trace(1);
}
}  // namespace
