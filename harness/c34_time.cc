// C34: time values against exact 128-bit microsecond arithmetic.
#include <cmath>
#include <set>
#include <sstream>
#include "tachyon/base/time/time.h"
#include "tachyon/base/time/time_delta_flag.h"
#include "tachyon/base/time/time_interval.h"
#include "tachyon/base/time/time_stamp.h"
#include "mc/mc.h"
using namespace tachyon::base;
namespace {
using I = __int128;
constexpr I kMax = INT64_MAX, kMin = INT64_MIN;
int64_t Sat(I v) { return v < kMin ? INT64_MIN : v > kMax ? INT64_MAX : (int64_t)v; }
int64_t SatF(double v) { return std::isnan(v) ? 0 : v >= 0x1p63 ? INT64_MAX : v < -0x1p63 ? INT64_MIN : (int64_t)v; }
I FloorDiv(I a, I b) { I q = a / b; return q * b != a && (a < 0) != (b < 0) ? q - 1 : q; }
bool Inf(int64_t v) { return v == INT64_MIN || v == INT64_MAX; }
double Dbl(int64_t v) { return v == INT64_MAX ? INFINITY : v == INT64_MIN ? -INFINITY : (double)v; }
std::string N(int64_t v) { return std::to_string(v); }
TimeDelta D(int64_t us) { return TimeDelta::FromInternalValue(us); }
int64_t U(TimeDelta d) { return d.InMicroseconds(); }
const std::vector<int64_t>& Vals(bool more) {
  static std::vector<int64_t> v[2]; auto& r = v[more]; if (!r.empty()) return r; std::set<int64_t> s;
  auto add = [&](I x) { for (int d = -2; d <= 2; ++d) for (int g = -1; g <= 1; g += 2) if (g * x + d >= kMin && g * x + d <= kMax) s.insert((int64_t)(g * x + d)); };
  for (I x : {(I)0, (I)5, (I)500, (I)1000, (I)1500, (I)999999, (I)1000000, (I)1500000, (I)60000000, (I)3600000000LL, (I)86400000000LL, (I)129600000000LL, (I)1700000000123456LL, (I)1699999999000001LL, kMax, kMax / 1000, kMax / 1000000, kMax / 2, (I)INT32_MAX, (I)INT32_MAX * 1000000, (I)INT32_MAX * 60000000, (I)INT32_MAX * 3600000000LL}) add(x);
  add((I)1 << 53); add((I)1 << 62);
  if (more) { for (int k = 3; k < 63; ++k) add((I)1 << k); I p = 7; for (int k = 0; k < 18; ++k, p *= 10) { add(p); add(p * 86400 / 7); } add(((I)1 << 60) + 12345); }
  r.assign(s.begin(), s.end()); return r;
}
template <typename T> const std::vector<T>& Factors() {
  static std::vector<T> r; if (!r.empty()) return r; std::set<T> s;
  for (I x : {(I)0, (I)1, (I)2, (I)3, (I)7, (I)1000, (I)INT32_MAX, (I)UINT32_MAX, (I)INT64_MAX, (I)UINT64_MAX, (I)1 << 33, (I)1 << 63}) for (int g = -1; g <= 1; g += 2) if (g * x >= (I)std::numeric_limits<T>::lowest() && g * x <= (I)std::numeric_limits<T>::max()) s.insert((T)(g * x));
  s.insert(std::numeric_limits<T>::lowest()); r.assign(s.begin(), s.end()); return r;
}
template <typename T> void Scale(mc::Ctx& c, int64_t a, const char* name) {
  TimeDelta d = D(a);
  for (T f : Factors<T>()) { c.states(1); c.step(4); std::string w = N(a) + " by " + name + " " + std::to_string(f);
    I p; bool ov = __builtin_mul_overflow((I)a, (I)f, &p); int64_t m = ov ? ((a < 0) != (f < 0) ? INT64_MIN : INT64_MAX) : Sat(p); TimeDelta e = d; e *= f;
    MC_CHECK(c, U(d * f) == m && U(f * d) == m && U(e) == m, "mul", w + " got " + N(U(d * f)) + " want " + N(m));
    int64_t q = f ? Sat((I)a / (I)f) : a > 0 ? INT64_MAX : a < 0 ? INT64_MIN : 0; e = d; e /= f;
    MC_CHECK(c, U(d / f) == q && U(e) == q, "div", w + " got " + N(U(d / f)) + " want " + N(q)); }
}
template <typename T> void Units(mc::Ctx& c, const char* name) {
  for (T n : Factors<T>()) { c.states(1); c.step(7); std::string w = std::string(name) + " " + std::to_string(n); auto m = [&](I u) { I p; return __builtin_mul_overflow((I)n, u, &p) ? (n < 0 ? INT64_MIN : INT64_MAX) : Sat(p); };
    MC_CHECK(c, U(Days(n)) == m((I)86400000000LL) && U(Hours(n)) == m((I)3600000000LL) && U(Minutes(n)) == m(60000000) && U(Seconds(n)) == m(1000000) && U(Milliseconds(n)) == m(1000) && U(Microseconds(n)) == m(1), "units", w);
    MC_CHECK(c, U(Nanoseconds(n)) == Sat((I)n / 1000), "nanoseconds", w);
    MC_CHECK(c, U(Hertz(n)) == (n ? Sat(1000000 / (I)n) : INT64_MAX), "hertz", w); }
}
template <typename P, typename Rep = int64_t> void Chrono(mc::Ctx& c, bool exact_back, const char* name) {
  using C = std::chrono::duration<Rep, P>;
  for (int64_t v : Vals(true)) { if (v < (I)std::numeric_limits<Rep>::lowest() || v > (I)std::numeric_limits<Rep>::max()) continue; c.states(1); c.step(2);
    I num = (I)v * 1000000; int64_t want = Sat(P::num == 1 ? num / P::den : num * P::num); int64_t got = U(TimeDelta::FromChrono(C((Rep)v)));
    MC_CHECK(c, got == want, std::string("from_chrono_") + name, N(v) + " got " + N(got) + " want " + N(want)); }
  for (int64_t v : Vals(true)) { if (!exact_back) break; c.step(1); I t = (I)v * P::den / P::num / 1000000; int64_t lo = std::numeric_limits<Rep>::lowest(), hi = std::numeric_limits<Rep>::max();
    if (P::num >= 60) { lo = std::max<int64_t>(lo, INT32_MIN); hi = std::min<int64_t>(hi, INT32_MAX); }  // InHours, InMinutes are ints
    if (Inf(v) && P::num < 60) t = v < 0 ? kMin : kMax;
    int64_t want = t < lo ? lo : t > hi ? hi : (int64_t)t, got = D(v).ToChrono<C>().count();
    MC_CHECK(c, got == want, std::string("to_chrono_") + name, N(v) + " got " + N(got) + " want " + N(want)); }
  c.trace();
}
}  // namespace
MC_SECTION(pairs, 8) {
  auto& vs = Vals(c.thorough); int id = 0;
  for (int64_t a : vs) { if (!c.mine(id++)) continue; for (int64_t b : vs) {
    mc::at("pair", a, b); c.states(1); c.step(16); TimeDelta x = D(a), y = D(b); std::string w = N(a) + " , " + N(b);
    MC_CHECK(c, (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "compare", w);
    if (!(Inf(a) && Inf(b) && a != b)) { int64_t s = Inf(b) ? b : Sat((I)a + b); TimeDelta z = x; z += y; MC_CHECK(c, U(x + y) == s && U(z) == s, "add", w); }
    if (!(Inf(b) && a == b)) { int64_t s = Inf(b) ? (b < 0 ? INT64_MAX : INT64_MIN) : Sat((I)a - b); TimeDelta z = x; z -= y; MC_CHECK(c, U(x - y) == s && U(z) == s, "sub", w); }
    if ((a || b) && !(Inf(a) && Inf(b))) { double r = Dbl(a) / Dbl(b); MC_CHECK(c, (x / y) == r, "ratio", w); int64_t q = Inf(a) || !b ? ((a < 0) == (b < 0) ? INT64_MAX : INT64_MIN) : Sat((I)a / b); MC_CHECK(c, x.IntDiv(y) == q, "int_div", w); }
    int64_t m = Inf(a) || !b || Inf(b) ? a : (int64_t)((I)a % b); TimeDelta z = x; z %= y; MC_CHECK(c, U(x % y) == m && U(z) == m, "mod", w);
    // rounding to a multiple of |b|
    if (b && !Inf(b) && b != -INT64_MAX) { I n = b < 0 ? -(I)b : b, f = FloorDiv(a, n) * n, ce = f == a ? f : f + n; bool up = (I)a - f > ce - (I)a || ((I)a - f == ce - (I)a && a > 0); I r = f == a ? f : up ? ce : f;
      if (Inf(a)) f = ce = r = a;
      MC_CHECK(c, U(x.FloorToMultiple(y)) == Sat(f), "floor_multiple", w + " got " + N(U(x.FloorToMultiple(y)))); MC_CHECK(c, U(x.CeilToMultiple(y)) == Sat(ce), "ceil_multiple", w + " got " + N(U(x.CeilToMultiple(y))));
      MC_CHECK(c, U(x.RoundToMultiple(y)) == Sat(r), "round_multiple", w + " got " + N(U(x.RoundToMultiple(y))) + " want " + N(Sat(r))); }
    else if (!b) MC_CHECK(c, U(x.FloorToMultiple(y)) == a && U(x.CeilToMultiple(y)) == a && U(x.RoundToMultiple(y)) == a, "multiple_of_zero", w);
    // points in time
    auto times = [&](auto zero, const char* key) { using T = decltype(zero); T p = T() + x, q = T() + y; c.step(4); bool ok = (p < q) == (a < b) && (p <= q) == (a <= b) && (p > q) == (a > b) && (p >= q) == (a >= b) && (p == q) == (a == b) && (p != q) == (a != b);
      ok = ok && U(p.since_origin()) == a && U(p - q) == Sat((I)a - b) && p.is_null() == (a == 0) && p.is_max() == (a == INT64_MAX) && p.is_min() == (a == INT64_MIN) && p.is_inf() == Inf(a);
      if (!(Inf(a) && Inf(b) && a != b)) { int64_t s = Inf(b) ? b : Sat((I)a + b); T t = p; t += y; ok = ok && U((p + y).since_origin()) == s && U((y + p).since_origin()) == s && t == p + y; }
      if (!(Inf(b) && a == b)) { int64_t s = Inf(b) ? (b < 0 ? INT64_MAX : INT64_MIN) : Sat((I)a - b); T t = p; t -= y; ok = ok && U((p - y).since_origin()) == s && t == p - y; }
      MC_CHECK(c, ok, key, w); };
    times(Time(), "time_arith"); times(TimeTicks(), "ticks_arith"); times(ThreadTicks(), "thread_ticks_arith");
  } c.trace(); }
}
MC_SECTION(unary, 8) {
  int id = 0; for (int64_t a : Vals(true)) { if (!c.mine(id++)) continue; mc::at("unary", a); c.states(1); c.step(24); TimeDelta x = D(a); std::string w = N(a);
    MC_CHECK(c, U(-x) == (a == INT64_MAX ? INT64_MIN : Sat(-(I)a)), "neg", w); MC_CHECK(c, U(x.magnitude()) == Sat(a < 0 ? -(I)a : a), "magnitude", w);
    MC_CHECK(c, x.is_zero() == (a == 0) && x.is_positive() == (a > 0) && x.is_negative() == (a < 0) && x.is_max() == (a == INT64_MAX) && x.is_min() == (a == INT64_MIN) && x.is_inf() == Inf(a), "predicates", w);
    auto toint = [](I v) { return v < INT32_MIN ? INT32_MIN : v > INT32_MAX ? INT32_MAX : (int)v; };
    MC_CHECK(c, x.InDays() == (Inf(a) ? (a < 0 ? INT32_MIN : INT32_MAX) : (int)(a / 86400000000LL)), "in_days", w); MC_CHECK(c, x.InDaysFloored() == (Inf(a) ? (a < 0 ? INT32_MIN : INT32_MAX) : (int)FloorDiv(a, 86400000000LL)), "in_days_floored", w);
    MC_CHECK(c, x.InHours() == toint(a / 3600000000LL) && x.InMinutes() == toint(a / 60000000), "in_hours_minutes", w);
    MC_CHECK(c, x.InSeconds() == (Inf(a) ? a : a / 1000000) && x.InSecondsFloored() == (Inf(a) ? a : (int64_t)FloorDiv(a, 1000000)), "in_seconds", w);
    MC_CHECK(c, x.InMilliseconds() == (Inf(a) ? a : a / 1000) && x.InMillisecondsRoundedUp() == (Inf(a) ? a : -(int64_t)FloorDiv(-(I)a, 1000)), "in_milliseconds", w + " up " + N(x.InMillisecondsRoundedUp()));
    MC_CHECK(c, x.InMicroseconds() == a && x.InNanoseconds() == Sat((I)a * 1000), "in_micro_nano", w);
    MC_CHECK(c, x.InSecondsF() == Dbl(a) / 1e6 && x.InMillisecondsF() == Dbl(a) / 1e3 && x.InMicrosecondsF() == Dbl(a), "in_float", w); if (a && !Inf(a)) MC_CHECK(c, x.ToHz() == 1e6 / (double)a, "to_hz", w);
    MC_CHECK(c, x.ToChronoHours().count() == toint(a / 3600000000LL) && x.ToChronoMinutes().count() == toint(a / 60000000) && x.ToChronoSeconds().count() == (Inf(a) ? a : a / 1000000) && x.ToChronoMilliseconds().count() == (Inf(a) ? a : a / 1000) && x.ToChronoMicroseconds().count() == a && x.ToChronoNanoseconds().count() == Sat((I)a * 1000), "to_chrono_named", w);
    MC_CHECK(c, U(TimeDelta::FromAbsl(x.ToAbsl())) == a && x.ToAbsl() == absl::Microseconds(a), "absl_delta", w);
    { timespec ts = x.ToTimeSpec(); I back = (I)ts.tv_sec * 1000000000 + ts.tv_nsec; MC_CHECK(c, back == (I)a * 1000 && ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000, "to_timespec", w + " sec " + N(ts.tv_sec) + " nsec " + N(ts.tv_nsec)); MC_CHECK(c, U(TimeDelta::FromTimeSpec(ts)) == a, "timespec_round", w); }
    Time t = Time::FromDeltaSinceUnixEpoch(x); MC_CHECK(c, U(t.ToDeltaSinceUnixEpoch()) == a && U(t.since_origin()) == a, "time_delta_round", w);
    MC_CHECK(c, t.ToTimeT() == (Inf(a) ? a : (int64_t)FloorDiv(a, 1000000)), "to_time_t", w); MC_CHECK(c, t.ToDoubleT() == Dbl(a) / 1e6, "to_double_t", w);
    { timeval tv = t.ToTimeVal(); if (a == INT64_MAX) MC_CHECK(c, tv.tv_sec == INT64_MAX && tv.tv_usec == 999999, "to_timeval", w); else MC_CHECK(c, (I)tv.tv_sec * 1000000 + tv.tv_usec == a && tv.tv_usec >= 0 && tv.tv_usec < 1000000, "to_timeval", w + " sec " + N(tv.tv_sec) + " usec " + N(tv.tv_usec)); MC_CHECK(c, Time::FromTimeVal(tv) == t, "timeval_round", w); }
    { I ns = (I)a * 1000; if (ns >= kMin && ns <= kMax) { auto tp = t.ToChrono(); MC_CHECK(c, tp.time_since_epoch().count() == (int64_t)ns, "time_to_chrono", w); MC_CHECK(c, Time::FromChrono(tp) == t, "time_chrono_round", w + " got " + N(U(Time::FromChrono(tp).since_origin()))); TimeTicks k = TimeTicks() + x; auto kp = k.ToChrono(); MC_CHECK(c, kp.time_since_epoch().count() == (int64_t)ns && TimeTicks::FromChrono(kp) == k, "ticks_chrono_round", w); } }
    MC_CHECK(c, Time::FromAbsl(t.ToAbsl()) == t && t.ToAbsl() == absl::FromUnixMicros(a), "absl_time", w);
    for (long ns : {0L, 1L, 999L, 1000L, 123456789L, 999999000L, 999999999L}) { timespec ts{a, ns}; c.step(2); int64_t want = Sat((I)a * 1000000 + ns / 1000); MC_CHECK(c, U(TimeDelta::FromTimeSpec(ts)) == want, "from_timespec", w + " s " + N(ns) + " ns got " + N(U(TimeDelta::FromTimeSpec(ts)))); int64_t g = U(Time::FromTimeSpec(ts).since_origin()); MC_CHECK(c, g == want, "time_from_timespec", w + " s " + N(ns) + " ns got " + N(g) + " want " + N(want));
      timeval tv{a, ns / 1000}; MC_CHECK(c, U(Time::FromTimeVal(tv).since_origin()) == want, "from_timeval", w + " s " + N(ns / 1000) + " us got " + N(U(Time::FromTimeVal(tv).since_origin()))); }
    MC_CHECK(c, U(Time::FromTimeT(a).since_origin()) == Sat((I)a * 1000000), "from_time_t", w);
    Scale<int>(c, a, "int"); Scale<uint32_t>(c, a, "u32"); Scale<int64_t>(c, a, "i64"); Scale<uint64_t>(c, a, "u64"); Scale<int8_t>(c, a, "i8"); Scale<uint16_t>(c, a, "u16");
    for (double f : {0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 1e-3, 1e6, -1e18, 1e300, 3.14159, (double)INFINITY}) { c.step(2); double p = (double)a * f; MC_CHECK(c, U(x * f) == SatF(p), "mul_double", w + " by " + std::to_string(f)); double q = (double)a / f; if (f != 0) MC_CHECK(c, U(x / f) == SatF(q), "div_double", w + " by " + std::to_string(f)); }
    { std::ostringstream os, want; os << x; want << Dbl(a) / 1e6 << " s"; MC_CHECK(c, os.str() == want.str(), "print_delta", w); std::ostringstream o2; o2 << TimeTicks() + x; MC_CHECK(c, o2.str() == N(a) + " bogo-microseconds", "print_ticks", w); std::ostringstream o3; o3 << ThreadTicks() + x; MC_CHECK(c, o3.str() == N(a) + " bogo-thread-microseconds", "print_thread_ticks", w); }
  } c.trace();
}
MC_SECTION(units, 1) {
  Units<int>(c, "int"); Units<uint32_t>(c, "u32"); Units<int64_t>(c, "i64"); Units<uint64_t>(c, "u64"); Units<int16_t>(c, "i16");
  for (double n : {0.5, -0.5, 1.25, 1e-7, 1.999999999, -2.7, 1e10, 1e13, -1e13, 1e19, 1e300, -1e300}) { c.states(1); c.step(6); auto w = std::to_string(n); MC_CHECK(c, U(Days(n)) == SatF(n * 86400e6) && U(Hours(n)) == SatF(n * 3600e6) && U(Minutes(n)) == SatF(n * 60e6) && U(Seconds(n)) == SatF(n * 1e6) && U(Milliseconds(n)) == SatF(n * 1e3) && U(Microseconds(n)) == SatF(n) && U(Nanoseconds(n)) == SatF(n / 1e3) && U(Hertz(n)) == SatF(1e6 / n), "units_double", w);
    MC_CHECK(c, U(Time::FromDoubleT(n).since_origin()) == SatF(n * 1e6), "from_double_t", w); }
  MC_CHECK(c, Time::FromDoubleT(NAN).is_null() && Time::FromDoubleT(0).is_null() && Time::FromDoubleT(INFINITY).is_max() && Time::FromDoubleT(-INFINITY).is_min(), "double_t_special", "");
  MC_CHECK(c, U(TimeDelta::Max()) == INT64_MAX && U(TimeDelta::Min()) == INT64_MIN && U(TimeDelta::FiniteMax()) == INT64_MAX - 1 && U(TimeDelta::FiniteMin()) == INT64_MIN + 1 && U(Time::Max().since_origin()) == INT64_MAX && U(Time::Min().since_origin()) == INT64_MIN && U(TimeDelta::FromAbsl(absl::InfiniteDuration())) == INT64_MAX && U(TimeDelta::FromAbsl(-absl::InfiniteDuration())) == INT64_MIN, "limits", "");
  for (int64_t v : Vals(true)) { c.states(1); c.step(6); MC_CHECK(c, U(TimeDelta::FromChronoHours(std::chrono::hours(v))) == Sat((I)v * 3600000000LL) && U(TimeDelta::FromChronoMinutes(std::chrono::minutes(v))) == Sat((I)v * 60000000) && U(TimeDelta::FromChronoSeconds(std::chrono::seconds(v))) == Sat((I)v * 1000000) && U(TimeDelta::FromChronoMilliseconds(std::chrono::milliseconds(v))) == Sat((I)v * 1000) && U(TimeDelta::FromChronoMicroseconds(std::chrono::microseconds(v))) == v && U(TimeDelta::FromChronoNanoseconds(std::chrono::nanoseconds(v))) == v / 1000, "from_chrono_named", N(v)); }
  TimeDelta inf = TimeDelta::Max(), ninf = TimeDelta::Min(), z;
  MC_CHECK(c, mc::dies([&] { inf + ninf; }) && mc::dies([&] { inf - inf; }) && mc::dies([&] { z / z; }) && mc::dies([&] { inf / ninf; }) && mc::dies([&] { z.IntDiv(z); }) && mc::dies([&] { ninf.IntDiv(inf); }), "undefined_dies", ""); c.trace();
}
MC_SECTION(chrono, 1) {
  Chrono<std::nano>(c, true, "nano"); Chrono<std::micro>(c, true, "micro"); Chrono<std::milli>(c, true, "milli"); Chrono<std::ratio<1>>(c, true, "sec"); Chrono<std::ratio<60>>(c, true, "min"); Chrono<std::ratio<3600>>(c, true, "hour");
  Chrono<std::ratio<1, 3>>(c, false, "third"); Chrono<std::ratio<1, 30>>(c, false, "frame"); Chrono<std::ratio<1, 1000000000>, int32_t>(c, true, "nano32"); Chrono<std::milli, int32_t>(c, true, "milli32"); Chrono<std::ratio<1>, int16_t>(c, true, "sec16"); Chrono<std::ratio<1, 10000000>>(c, false, "win");
  for (int64_t a : Vals(true)) if (std::abs((double)a) < 0x1p50) { c.step(2); MC_CHECK(c, (D(a).ToChrono<std::chrono::duration<int64_t, std::ratio<1, 4>>>().count()) == a * 4 / 1000000, "to_chrono_quarter", N(a)); MC_CHECK(c, (D(a).ToChrono<std::chrono::duration<int64_t, std::ratio<2>>>().count()) == a / 2000000, "to_chrono_two", N(a)); }
}
MC_SECTION(flag, 4) {
  // every text of length <= 5 over digits, sign, point and unit letters; a unit suffix and a numeral in front of it
  static const char al[] = "07-.edhmsun "; int id = 0; for (int n = 0; n <= (c.thorough ? 6 : 5); ++n) mc::tuples(n, 12, [&](const std::vector<int>& t) { if (!c.mine(id++ / 97)) return; std::string s; for (int i : t) s += al[i];
    int64_t scale = 0; std::string num = s; bool intonly = false, nano = false; auto ends = [&](const char* x) { size_t k = strlen(x); return s.size() >= k && s.compare(s.size() - k, k, x) == 0 ? (num = s.substr(0, s.size() - k), true) : false; };
    if (ends("d")) scale = 86400000000LL, intonly = true; else if (ends("h")) scale = 3600000000LL, intonly = true; else if (ends("ms")) scale = 1000; else if (ends("us")) scale = 1; else if (ends("ns")) nano = true, scale = 1; else if (ends("m")) scale = 60000000, intonly = true; else if (ends("s")) scale = 1000000;
    // numeral: white space, sign, digits[.digits][e[sign]digits]
    std::string m = num; while (!m.empty() && m.back() == ' ') m.pop_back(); while (!m.empty() && m[0] == ' ') m.erase(0, 1); size_t i = 0; if (i < m.size() && m[i] == '-') ++i; size_t d = 0; bool isint = true; while (i < m.size() && isdigit(m[i])) ++i, ++d; if (i < m.size() && m[i] == '.') { isint = false; ++i; while (i < m.size() && isdigit(m[i])) ++i, ++d; } bool good = d > 0; if (good && i < m.size() && m[i] == 'e') { isint = false; ++i; if (i < m.size() && m[i] == '-') ++i; size_t x = i; while (i < m.size() && isdigit(m[i])) ++i; good = i > x; } good = good && i == m.size();
    bool want = scale && good && (isint || !intonly); TimeDelta v = D(-123); std::string reason; bool got = FlagValueTraits<TimeDelta>::ParseValue(s, &v, &reason); c.states(1); c.step();
    int64_t e = -123; if (want) { if (isint) { I k = strtoll(m.c_str(), nullptr, 10); e = nano ? Sat(k / 1000) : Sat(k * scale); } else { double k = strtod(m.c_str(), nullptr); e = nano ? SatF(k / 1e3) : SatF(k * (double)scale); } }
    MC_CHECK(c, got == want && U(v) == e && (got || !reason.empty()), "flag", "\"" + s + "\" " + std::to_string(got) + " " + N(U(v)) + " want " + std::to_string(want) + " " + N(e)); });
  if (c.mine(0)) for (const char* s : {"2147483648d", "-2147483649h", "99999999999m"}) { TimeDelta v; std::string r; c.step(); MC_CHECK(c, !FlagValueTraits<TimeDelta>::ParseValue(s, &v, &r), "flag_range", s); }
  if (c.mine(1)) { TimeDelta v; std::string r; c.step(3); MC_CHECK(c, FlagValueTraits<TimeDelta>::ParseValue("2147483647d", &v, &r) && v.is_max() && FlagValueTraits<TimeDelta>::ParseValue("9223372036854775807s", &v, &r) && v.is_max() && FlagValueTraits<TimeDelta>::ParseValue("-99999999999999999999us", &v, &r) && v.is_min(), "flag_saturates", ""); }
  c.trace();
}
MC_SECTION(clocks, 1) {
  // all words over {reset, read+update, read} against readings of the clock taken around every call
  mc::tuples(6, 3, [&](const std::vector<int>& t) { TimeInterval ti; TimeTicks lo, hi; bool null = true; bool ok = true; for (int op : t) { c.step(); TimeTicks b = TimeTicks::Now(); TimeDelta d; if (op == 0) ti.Reset(); else d = ti.GetTimeDelta(op == 1); TimeTicks a = TimeTicks::Now(); ok = ok && a >= b;
      if (op) { if (null) ok = ok && d.is_zero(); else ok = ok && d >= b - hi && d <= a - lo && !d.is_negative(); } if (op != 2) { lo = b; hi = a; null = false; } }
    c.states(1); MC_CHECK(c, ok, "time_interval", mc::vstr(t)); });
  mc::tuples(6, 2, [&](const std::vector<int>& t) { TimeStamp ts; TimeTicks lo, hi; bool null = true; bool ok = true; for (int op : t) { c.step(); TimeTicks b = TimeTicks::Now(); TimeDelta d = ts.GetTimeDelta(op == 1); TimeTicks a = TimeTicks::Now(); if (null && op == 1) { ok = ok && d.is_zero(); lo = b; hi = a; null = false; } else if (null) ok = ok && d >= b.since_origin() && d <= a.since_origin(); else ok = ok && d >= b - hi && d <= a - lo; }
    c.states(1); MC_CHECK(c, ok, "time_stamp", mc::vstr(t)); });
  Time n1 = Time::Now(), n2 = Time::FromChrono(std::chrono::system_clock::now()); MC_CHECK(c, (n2 - n1).magnitude() < Seconds(30), "now", ""); c.trace();
}
