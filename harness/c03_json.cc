// C03: JSON. Every value round-trips; every structural corruption of its
// document is accepted exactly when a schema, written independently of the
// converters, accepts it; failures name the problem.
#include <fcntl.h>
#include <unistd.h>
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include "mc/ext/m13_2.h"
#include "mc/ext/m13_3.h"
#include "mc/ext/m13_4.h"
#include "mc/fields/l127.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m13.h"
#include "mc/fields/m7.h"
#include "mc/fields/p7.h"
#include "mc/fields/x33.h"
#include "mc/mccurve.h"
#include "tachyon/base/json/json.h"
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/zk/lookup/pair.h"
#include "tachyon/zk/shuffle/pair.h"

namespace {
using namespace tachyon;
using namespace tachyon::base;
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using V = rapidjson::Value;

// ---- schemas
struct Schema; using S = std::shared_ptr<Schema>;
struct Schema {
  enum K { kInt, kUint, kDouble, kFloat, kString, kBool, kHex, kArray, kObject, kOpt } k;
  int64_t lo = 0; uint64_t hi = 0; int n = -1; S e; std::vector<std::pair<std::string, S>> m; std::string bound; std::function<bool(const V&)> extra;
};
S Int(int64_t lo, int64_t hi) { auto s = std::make_shared<Schema>(); s->k = Schema::kInt; s->lo = lo; s->hi = hi; return s; }
S Uint(uint64_t hi) { auto s = std::make_shared<Schema>(); s->k = Schema::kUint; s->hi = hi; return s; }
S Of(Schema::K k) { auto s = std::make_shared<Schema>(); s->k = k; return s; }
S Arr(S e, int n = -1) { auto s = Of(Schema::kArray); s->e = e; s->n = n; return s; }
S Obj(std::vector<std::pair<std::string, S>> m) { auto s = Of(Schema::kObject); s->m = m; return s; }
S Opt(S e) { auto s = Of(Schema::kOpt); s->e = e; return s; }
S Hex(const std::string& bound) { auto s = Of(Schema::kHex); s->bound = bound; return s; }  // hexadecimal, below bound
S With(S s, std::function<bool(const V&)> f) { auto r = std::make_shared<Schema>(*s); r->extra = f; return r; }
bool HexOk(std::string t, std::string bound) {
  if (t.size() >= 2 && t[0] == '0' && (t[1] == 'x')) t = t.substr(2);
  if (t.empty()) return false;
  for (char& ch : t) { if (!isxdigit((unsigned char)ch)) return false; ch = tolower(ch); }
  auto strip = [](std::string& x) { x.erase(0, std::min(x.find_first_not_of('0'), x.size())); }; strip(t); strip(bound);
  return t.size() != bound.size() ? t.size() < bound.size() : t < bound;
}
bool Valid(const S& s, const V& v) {
  bool b = false;
  switch (s->k) {
    case Schema::kBool: b = v.IsBool(); break;
    case Schema::kInt: b = v.IsInt64() && v.GetInt64() >= s->lo && v.GetInt64() <= (int64_t)s->hi; break;
    case Schema::kUint: b = v.IsUint64() && v.GetUint64() <= s->hi; break;
    case Schema::kDouble: b = v.IsDouble(); break;
    case Schema::kFloat: b = v.IsDouble() && std::fabs(v.GetDouble()) <= std::numeric_limits<float>::max(); break;
    case Schema::kString: b = v.IsString(); break;
    case Schema::kHex: b = v.IsString() && HexOk(std::string(v.GetString(), v.GetStringLength()), s->bound); break;
    case Schema::kOpt: b = v.IsNull() || Valid(s->e, v); break;
    case Schema::kArray: b = v.IsArray() && (s->n < 0 || (int)v.Size() == s->n); if (b) for (auto& x : v.GetArray()) b = b && Valid(s->e, x); break;
    case Schema::kObject: b = v.IsObject(); if (b) for (auto& [n, t] : s->m) { auto it = v.FindMember(n.c_str()); b = b && it != v.MemberEnd() && Valid(t, it->value); } break;
  }
  return b && (!s->extra || s->extra(v));
}
std::string Text(const V& v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); v.Accept(w); return std::string(b.GetString(), b.GetSize()); }
// Every node of a document as a path of child indices.
void Paths(const V& v, std::vector<int> at, std::vector<std::vector<int>>* out) { out->push_back(at); int i = 0; if (v.IsObject()) for (auto& m : v.GetObject()) { auto a = at; a.push_back(i++); Paths(m.value, a, out); } if (v.IsArray()) for (auto& x : v.GetArray()) { auto a = at; a.push_back(i++); Paths(x, a, out); } }
V* At(V& v, const std::vector<int>& p) { V* x = &v; for (int i : p) x = x->IsObject() ? &(x->MemberBegin() + i)->value : &(*x)[i]; return x; }

template <typename T, typename Eq = std::equal_to<T>>
void Check(mc::Ctx& c, const char* name, const S& s, const T& v, const T& dirty, Eq eq = Eq()) {
  mc::at_s("value", name);
  std::string txt = WriteToJson(v), err; auto d = [&] { return std::string(name) + " " + txt.substr(0, 120); };
  if (c.want_sample()) c.sample("round-trip and every structural corruption of " + d());
  c.states(1); c.trace(1);
  rapidjson::Document doc; doc.Parse<rapidjson::kParseFullPrecisionFlag>(txt.data(), txt.size());
  MC_CHECK(c, !doc.HasParseError(), "not-json", d()); if (doc.HasParseError()) return;
  MC_CHECK(c, Valid(s, doc), "shape", d());
  T x = dirty; bool o = ParseJson(txt, &x, &err); MC_CHECK(c, o && eq(x, v), "round-trip", d() << " " << err << " reads as " << (o ? WriteToJson(x) : std::string("nothing")));
  auto& al = doc.GetAllocator();
  auto judge = [&](const std::string& t, const V* dom, const char* what) {
    c.step(1); T y = dirty; std::string e2; bool dead = false; bool r = false;
    mc::at_s(what, t.c_str());
    r = ParseJson(t, &y, &e2);
    (void)dead; bool want = dom && Valid(s, *dom);
    MC_CHECK(c, r == want, "accepts", name << " " << what << ": " << t.substr(0, 160) << (r ? " accepted" : " rejected: " + e2));
    if (!r) { MC_CHECK(c, !e2.empty(), "error-empty", name << " " << what << ": " << t.substr(0, 160)); MC_CHECK(c, eq(y, dirty), "error-clobbers", name << " " << what << ": " << t.substr(0, 160)); }
    else if (want) { std::string back = WriteToJson(y); T z = dirty; bool r2 = ParseJson(back, &z, &e2); MC_CHECK(c, r2 && eq(z, y), "re-round-trip", name << " " << what << ": " << t.substr(0, 160)); }
    return std::make_pair(r, e2);
  };
  std::vector<std::vector<int>> ps; Paths(doc, {}, &ps);
  std::vector<std::function<V()>> reps{[] { return V(); }, [] { return V(true); }, [] { return V(0); }, [] { return V(1); }, [] { return V(-1); }, [] { return V(1.5); }, [] { return V(-2.0); }, [] { return V(1e300); }, [] { return V(""); }, [] { return V("x"); }, [] { return V("0x0"); }, [] { return V("1f"); }, [] { return V("0x"); }, [] { return V("-1"); },
    [] { return V("0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"); }, [] { return V(rapidjson::kArrayType); }, [] { return V(rapidjson::kObjectType); },
    [&] { V a(rapidjson::kArrayType); a.PushBack(1, al); return a; }, [&] { V a(rapidjson::kObjectType); a.AddMember("x", 1, al); return a; }};
  for (int64_t z : {127ll, 128ll, -128ll, -129ll, 255ll, 256ll, 32767ll, 32768ll, -32768ll, -32769ll, 65535ll, 65536ll, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9223372036854775807ll}) reps.push_back([z] { return V((int64_t)z); });
  reps.push_back([] { return V(std::numeric_limits<int64_t>::min()); }); reps.push_back([] { return V((uint64_t)1 << 63); }); reps.push_back([] { return V(~uint64_t(0)); });
  for (auto& p : ps) {
    for (auto& f : reps) { rapidjson::Document e; e.CopyFrom(doc, e.GetAllocator()); V rep(f(), e.GetAllocator()); *At(e, p) = rep; judge(Text(e), &e, "replaced"); }
    { rapidjson::Document e; e.CopyFrom(doc, e.GetAllocator()); V* n = At(e, p);
      if (n->IsObject()) for (size_t i = 0; i < n->MemberCount(); ++i) {
        rapidjson::Document g; g.CopyFrom(doc, g.GetAllocator()); V* m = At(g, p); std::string key = (m->MemberBegin() + i)->name.GetString(); m->EraseMember(m->MemberBegin() + i); auto [r, er] = judge(Text(g), &g, "member removed");
        if (!r) MC_CHECK(c, er.find(key) != std::string::npos, "error-key", name << " without " << key << ": " << er);
        rapidjson::Document h; h.CopyFrom(doc, h.GetAllocator()); m = At(h, p); (m->MemberBegin() + i)->name.SetString((key + "x").c_str(), h.GetAllocator()); judge(Text(h), &h, "member renamed");
        rapidjson::Document q; q.CopyFrom(doc, q.GetAllocator()); m = At(q, p); (m->MemberBegin() + i)->value.SetNull(); auto [r3, er3] = judge(Text(q), &q, "member null");
        if (!r3) MC_CHECK(c, er3.find(key) != std::string::npos || er3.find("null") != std::string::npos, "error-key", name << " with null " << key << ": " << er3); }
      if (n->IsObject()) { n->AddMember("zz", 1, e.GetAllocator()); judge(Text(e), &e, "member added"); }
      if (n->IsArray()) { if (n->Size()) { rapidjson::Document g; g.CopyFrom(doc, g.GetAllocator()); V* m = At(g, p); m->Erase(m->Begin()); judge(Text(g), &g, "element removed"); V cp((*n)[0], e.GetAllocator()); n->PushBack(cp, e.GetAllocator()); judge(Text(e), &e, "element added"); } } }
  }
  if (doc.IsObject() || doc.IsArray()) for (size_t k = 0; k < txt.size(); ++k) { judge(txt.substr(0, k), nullptr, "truncated"); std::string t = txt; t[k] = '\x01'; judge(t, nullptr, "control character"); }
  judge(txt + "}", nullptr, "trailing brace"); judge(txt + " 1", nullptr, "trailing value"); judge(" " + txt + "\n", &doc, "spaces around");
}
template <typename T> void All(mc::Ctx& c, const char* n, const S& s, const std::vector<T>& vs) { for (size_t i = 0; i < vs.size(); ++i) if (c.mine(i)) Check<T>(c, n, s, vs[i], vs[(i + 1) % vs.size()]); }
template <typename T> S Num() { using L = std::numeric_limits<T>; if constexpr (std::is_signed_v<T>) return Int(L::min(), L::max()); else return Uint(L::max()); }
template <typename T> void Ints(mc::Ctx& c, const char* n) { using L = std::numeric_limits<T>; std::vector<T> v{0, 1, T(-1), L::max(), L::min(), T(L::max() - 1), T(L::max() / 2)}; for (unsigned b = 0; b < 8 * sizeof(T); b += 3) v.push_back(T(std::make_unsigned_t<T>(1) << b)); All(c, n, Num<T>(), v); std::vector<std::vector<T>> vv{{}, v, {L::min()}}; All(c, n, Arr(Num<T>()), vv); }
enum class A : int { a = 3, b = -9 }; enum class B : uint64_t { a = 1, b = ~0ull }; enum class D : unsigned { a, b = 0xffffffff }; enum class G : int64_t { a = -1, b = INT64_MIN }; enum Plain { p0, p1 = 7 };
MC_SECTION(scalars, 4) {
  All<bool>(c, "bool", Of(Schema::kBool), {false, true});
  Ints<int8_t>(c, "int8"); Ints<uint8_t>(c, "uint8"); Ints<int16_t>(c, "int16"); Ints<uint16_t>(c, "uint16"); Ints<int32_t>(c, "int32"); Ints<uint32_t>(c, "uint32"); Ints<int64_t>(c, "int64"); Ints<uint64_t>(c, "uint64"); Ints<long long>(c, "long long"); Ints<unsigned long long>(c, "unsigned long long");
  std::vector<double> ds{0.0, -0.0, 1, -1.5, 0.1, 1e22, 1e23, 123456789.123456789, 5e-324, 2.2250738585072011e-308, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-300, 9007199254740993.0, 0.3, 2.0 / 3, 1e-7, 6.02214076e23}; double x = 0.7; for (int i = 0; i < (c.thorough ? 20000 : 600); ++i) { uint64_t h = mc::mix(i, 77); h &= ~(0x7ffull << 52); h |= (uint64_t)(1 + (i * 37) % 2045) << 52; memcpy(&x, &h, 8); ds.push_back(x); }
  for (size_t i = 0; i < ds.size(); ++i) if (c.mine(i)) { std::string t = WriteToJson(ds[i]), e; double y = 7; bool o = ParseJson(t, &y, &e); c.states(1); c.step(1); c.trace(1); MC_CHECK(c, o && y == ds[i] && std::signbit(y) == std::signbit(ds[i]), "double", t << " reads as " << y); float f = (float)ds[i], g = 7; if (std::isfinite(f)) { t = WriteToJson(f); o = ParseJson(t, &g, &e); MC_CHECK(c, o && g == f, "float", t << " reads as " << g); } }
  All<double>(c, "double", Of(Schema::kDouble), {0.5, -3.0, 1e100}); All<float>(c, "float", Of(Schema::kFloat), {0.5f, -3.0f, std::numeric_limits<float>::max()});
  All<A>(c, "enum int", Num<int>(), {A::a, A::b}); All<B>(c, "enum uint64", Num<uint64_t>(), {B::a, B::b}); All<D>(c, "enum unsigned", Num<unsigned>(), {D::a, D::b}); All<G>(c, "enum int64", Num<int64_t>(), {G::a, G::b}); All<Plain>(c, "plain enum", Num<std::underlying_type_t<Plain>>(), {p0, p1});
}
template <typename T> std::string Stream(const T& v) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); w << v; return std::string(b.GetString(), b.GetSize()); }
template <typename T> void StreamInts(mc::Ctx& c) { using L = std::numeric_limits<T>; for (unsigned b = 0; b < 8 * sizeof(T); ++b) for (int s : {-1, 0, 1}) { T v = T((std::make_unsigned_t<T>(1) << b) + s); c.states(1); c.step(1); MC_CHECK(c, Stream(v) == std::to_string(v), "stream", std::to_string(v) << " streamed as " << Stream(v)); } MC_CHECK(c, Stream(L::min()) == std::to_string(L::min()) && Stream(L::max()) == std::to_string(L::max()), "stream", sizeof(T)); }
MC_SECTION(streams, 1) {
  StreamInts<int8_t>(c); StreamInts<uint8_t>(c); StreamInts<int16_t>(c); StreamInts<uint16_t>(c); StreamInts<int32_t>(c); StreamInts<uint32_t>(c); StreamInts<long>(c); StreamInts<unsigned long>(c); StreamInts<long long>(c); StreamInts<unsigned long long>(c);
  std::string all = "abcabc"; all[4] = 0; for (size_t i = 0; i < 6; ++i) for (size_t n = 0; n + i <= 6; ++n) { std::string_view v(all.data() + i, n); c.states(1); c.step(1); MC_CHECK(c, Stream(v) == WriteToJson(std::string(v)), "stream-string", "at " << i << " length " << n << ": " << Stream(v)); }
  for (bool b : {false, true}) MC_CHECK(c, Stream(b) == (b ? "true" : "false"), "stream", b); for (double d : {0.5, -3.0, 1e100, 0.1}) MC_CHECK(c, Stream(d) == WriteToJson(d), "stream", d);
}
MC_SECTION(strings, 2) {
  std::vector<std::string> v; const char al[] = {'a', '\0', '"', '\\', '\n', '\x7f', '/', '\x1f'}; for (int n = 0; n <= 2; ++n) mc::tuples(n, 8, [&](const std::vector<int>& t) { std::string s; for (int i : t) s += al[i]; v.push_back(s); });
  v.push_back("\xed\x95\x9c\xea\xb8\x80"); v.push_back(std::string(300, 'q')); v.push_back("\xf0\x9f\x98\x80"); All(c, "string", Of(Schema::kString), v);
  if (c.mine(0)) for (auto& s : v) { std::string a = WriteToJson(s), b = WriteToJson(std::string_view(s)); MC_CHECK(c, a == b, "view", a); c.step(1); rapidjson::Document d; d.Parse(a.data(), a.size()); std::string_view w; std::string e; bool o = RapidJsonValueConverter<std::string_view>::To(d, "k", &w, &e); MC_CHECK(c, o && w == s, "view-read", a); }
}
MC_SECTION(containers, 4) {
  All<std::vector<std::string>>(c, "vector of strings", Arr(Of(Schema::kString)), {{}, {"a"}, {"", "b", "\"c"}});
  All<std::vector<std::vector<int>>>(c, "nested vector", Arr(Arr(Num<int>())), {{}, {{}}, {{1}, {2, 3}}, {{}, {INT_MIN}}});
  All<std::array<uint16_t, 3>>(c, "array", Arr(Num<uint16_t>(), 3), {{1, 2, 3}, {0, 65535, 7}}); All<std::array<std::array<bool, 2>, 2>>(c, "nested array", Arr(Arr(Of(Schema::kBool), 2), 2), {{{{true, false}, {false, true}}}, {{{false, false}, {true, true}}}});
  All<std::vector<bool>>(c, "vector of bools", Arr(Of(Schema::kBool)), {{}, {true, false, true}, {false}});
  All<std::optional<int>>(c, "optional", Opt(Num<int>()), {std::nullopt, 5, -1}); All<std::vector<std::optional<std::string>>>(c, "vector of optionals", Arr(Opt(Of(Schema::kString))), {{}, {std::nullopt, "x"}, {""}});
  All<std::optional<std::vector<int>>>(c, "optional vector", Opt(Arr(Num<int>())), {std::nullopt, std::vector<int>{}, std::vector<int>{1, 2}});
}
// ---- mathematical values
template <size_t N> void Big(mc::Ctx& c) { std::string bound = "1" + std::string(16 * N, '0'); std::vector<BigInt<N>> v; mc::tuples(N > 2 ? 2 : N, 4, [&](const std::vector<int>& t) { BigInt<N> b; for (size_t i = 0; i < N; ++i) b[i] = (uint64_t[]){0, 1, 0x0123456789abcdef, ~0ull}[t[i % t.size()]]; v.push_back(b); }); All(c, "BigInt", Hex(bound), v); }
template <typename F> S FS() { if constexpr (F::Config::kModulusBits <= 32) return Uint(uint32_t(F::Config::kModulus) - 1); else return Hex(typename F::BigIntTy(F::Config::kModulus).ToHexString()); }
template <typename F> std::vector<F> FV() { std::vector<F> v{F::Zero(), F::One(), -F::One()}; F x = F(3); for (int i = 0; i < 4; ++i) { v.push_back(x); x = x * x + F(5); } return v; }
template <typename F> void Field(mc::Ctx& c, const char* n) { F::Init(); for (bool m : {false, true}) { RapidJsonValueConverter<F>::s_is_in_montgomery = m; All(c, n, FS<F>(), FV<F>()); } RapidJsonValueConverter<F>::s_is_in_montgomery = false; All<std::vector<F>>(c, n, Arr(FS<F>()), {{}, FV<F>()}); }
MC_SECTION(fields, 4) { Big<1>(c); Big<2>(c); Big<4>(c); Field<M7>(c, "M7"); Field<P7>(c, "P7"); Field<M12289>(c, "M12289"); Field<X33>(c, "X33"); Field<L127>(c, "L127"); Field<bn254::Fr>(c, "bn254::Fr"); }
using Cur = SWCurve<mccurve::Cfg<M13, M7, false>>; using CurL = SWCurve<mccurve::Cfg<bn254::Fr, M7, false>>;
template <typename P> void Pts(mc::Ctx& c, const char* n, std::vector<std::string> k) {
  auto el = mccurve::Elements<M13>(13); auto g = mccurve::Make<M13>(M13(1), M13(3), el); std::vector<M13> zs(el.begin() + 2, el.begin() + 4); std::vector<P> v; for (auto& p : g.pts) for (auto& r : mccurve::Reps<P, M13>(p, zs)) v.push_back(r);
  std::vector<std::pair<std::string, S>> m; for (auto& s : k) m.push_back({s, FS<M13>()});
  auto same = [](const P& a, const P& b) { if constexpr (std::is_same_v<P, AffinePoint<Cur>>) return a == b; else if constexpr (std::is_same_v<P, PointXYZZ<Cur>>) return a.x() == b.x() && a.y() == b.y() && a.zz() == b.zz() && a.zzz() == b.zzz(); else return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); };
  for (size_t i = 0; i < v.size(); ++i) if (c.mine(i)) Check<P>(c, n, Obj(m), v[i], v[(i + 1) % v.size()], same);
}
MC_SECTION(points, 4) { M13::Init(); M7::Init(); bn254::Fr::Init(); Pts<AffinePoint<Cur>>(c, "affine", {"x", "y"}); Pts<ProjectivePoint<Cur>>(c, "projective", {"x", "y", "z"}); Pts<JacobianPoint<Cur>>(c, "jacobian", {"x", "y", "z"}); Pts<PointXYZZ<Cur>>(c, "xyzz", {"x", "y", "zz", "zzz"});
  auto f = FS<M13>(); auto u = Num<uint64_t>();
  std::vector<Point2<M13>> a; std::vector<Point3<M13>> b; std::vector<Point4<M13>> d; std::vector<Dimensions> e; for (int i = 0; i < 5; ++i) { a.push_back({M13(i), M13(12 - i)}); b.push_back({M13(i), M13(2 * i), M13(12)}); d.push_back({M13(i), M13(2), M13(i + 3), M13(0)}); e.push_back({i, 1000 * i}); }
  All(c, "Point2", Obj({{"x", f}, {"y", f}}), a); All(c, "Point3", Obj({{"x", f}, {"y", f}, {"z", f}}), b); All(c, "Point4", Obj({{"x", f}, {"y", f}, {"z", f}, {"w", f}}), d); All(c, "Dimensions", Obj({{"width", u}, {"height", u}}), e);
  std::vector<AffinePoint<CurL>> big; for (int i = 0; i < 3; ++i) big.push_back({bn254::Fr(i), -bn254::Fr(i + 1)}); All(c, "large affine", Obj({{"x", FS<bn254::Fr>()}, {"y", FS<bn254::Fr>()}}), big);
}
MC_SECTION(towers, 2) {
  auto f = FS<M13>(); M13_2::Init(); M13_3::Init(); M13_4::Init(); std::vector<M13_2> a; std::vector<M13_3> b; std::vector<M13_4> d;
  mc::tuples(2, 3, [&](const std::vector<int>& t) { M13 x(t[0] * 4), y(t[1] * 3 + 1), z(12); a.push_back({x, y}); b.push_back({x, y, z}); d.push_back({x, y, z, x + y}); });
  All(c, "quadratic", Obj({{"c0", f}, {"c1", f}}), a); All(c, "cubic", Obj({{"c0", f}, {"c1", f}, {"c2", f}}), b); All(c, "quartic", Obj({{"c0", f}, {"c1", f}, {"c2", f}, {"c3", f}}), d);
}
template <typename F> void Polys(mc::Ctx& c) {
  F::Init(); auto f = FS<F>(); using DC = UnivariateDenseCoefficients<F, 3>; using DP = UnivariateDensePolynomial<F, 3>; using SC = UnivariateSparseCoefficients<F, 9>; using SP = UnivariateSparsePolynomial<F, 9>; using Ev = UnivariateEvaluations<F, 3>;
  auto max4 = [](const V& v) { return v.Size() <= 4; }; auto terms = With(Arr(Obj({{"degree", Uint(9)}, {"coefficient", f}})), [](const V& v) { for (unsigned i = 1; i < v.Size(); ++i) if (v[i - 1]["degree"].GetUint64() >= v[i]["degree"].GetUint64()) return false; return true; });
  std::vector<DC> dc; std::vector<DP> dp; std::vector<Ev> ev; std::vector<SC> sc; std::vector<SP> sp; std::vector<UnivariateTerm<F>> te;
  for (int n = 0; n <= 3; ++n) mc::tuples(n, 2, [&](const std::vector<int>& t) { std::vector<F> v; std::vector<UnivariateTerm<F>> ts; for (int i : t) { v.push_back(F(i * 3)); ts.push_back({ts.size() * 3 + i, F(2 + i)}); } if (n) ev.push_back(Ev(v)); for (auto& x : ts) te.push_back(x); sc.push_back(SC(ts)); sp.push_back(SP(SC(ts))); if (n && v.back().IsZero()) return; dc.push_back(DC(v)); dp.push_back(DP(DC(v))); });
  auto dcs = Obj({{"coefficients", With(Arr(f), max4)}}); auto scs = Obj({{"terms", terms}});
  All(c, "dense coefficients", dcs, dc); All(c, "evaluations", Obj({{"evaluations", With(Arr(f), max4)}}), ev); All(c, "term", Obj({{"degree", Num<uint64_t>()}, {"coefficient", f}}), te); All(c, "sparse coefficients", scs, sc);
  All(c, "dense polynomial", Obj({{"coefficients", dcs}}), dp); All(c, "sparse polynomial", Obj({{"coefficients", scs}}), sp);
  // Longer than the bound.
  for (size_t n = 1; n <= 7; ++n) { c.states(1); c.step(2); std::vector<F> v(n, F(1)); std::string l = WriteToJson(v), e; DC x; Ev y; bool dead = mc::dies([&] { DC q; Ev r; std::string e3; (void)ParseJson("{\"coefficients\":" + l + "}", &q, &e3); (void)ParseJson("{\"evaluations\":" + l + "}", &r, &e3); }); MC_CHECK(c, !dead, "degree-abort", n << " coefficients"); if (dead) continue;
    MC_CHECK(c, ParseJson("{\"coefficients\":" + l + "}", &x, &e) == (n <= 4) && (n <= 4 || !e.empty()), "degree-bound", n << " coefficients"); e.clear(); MC_CHECK(c, ParseJson("{\"evaluations\":" + l + "}", &y, &e) == (n <= 4) && (n <= 4 || !e.empty()), "degree-bound", n << " evaluations"); }
}
MC_SECTION(polynomials, 4) { Polys<M7>(c); Polys<L127>(c); }
MC_SECTION(pairs, 1) { auto f = FS<M13>(); M13::Init(); std::vector<zk::lookup::Pair<M13>> a{{M13(1), M13(2)}, {M13(0), M13(12)}}; All(c, "lookup pair", Obj({{"input", f}, {"table", f}}), a); std::vector<zk::shuffle::Pair<std::vector<M13>, int>> b{{{M13(1)}, 3}, {{}, -4}}; All(c, "shuffle pair", Obj({{"input", Arr(f)}, {"shuffle", Num<int>()}}), b); }
// ---- member helpers with keys that are views into longer strings, and files
MC_SECTION(keys, 1) {
  std::string all = "abcabc"; for (size_t i = 0; i < 6; ++i) for (size_t n = 0; n + i <= 6; ++n) for (size_t j = 0; j < 6; ++j) for (size_t k = 0; k + j <= 6; ++k) {
    c.states(1); c.step(1); c.trace(1); std::string_view a(all.data() + i, n), b(all.data() + j, k); rapidjson::Document d; d.SetObject(); AddJsonElement(d, a, 42, d.GetAllocator()); int v = 0; std::string e; bool o = ParseJsonElement(d, b, &v, &e);
    MC_CHECK(c, o == (a == b) && (!o || v == 42), "key-view", "written as " << a << " read as " << b); if (!o) MC_CHECK(c, e.find(std::string(b)) != std::string::npos && !e.empty(), "key-error", e); }
}
MC_SECTION(files, 1) {
  char dir[] = "/tmp/mc_c03_XXXXXX"; MC_CHECK(c, mkdtemp(dir) != nullptr, "scratch", dir); std::string f = std::string(dir) + "/a.json"; using T = std::vector<std::string>;
  for (T v : {T{}, T{"x"}, T(2000, "some text")}) { c.states(1); c.step(2); c.trace(1); std::string s = WriteToJson(v); int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); bool w = write(fd, s.data(), s.size()) == (ssize_t)s.size(); close(fd); T x{"dirty"}; std::string e; bool o = LoadAndParseJson(FilePath(f), &x, &e); MC_CHECK(c, w && o && x == v, "load", s.substr(0, 60)); fd = open(f.c_str(), O_WRONLY | O_TRUNC); w = write(fd, s.data(), s.size() - 1) == (ssize_t)s.size() - 1; close(fd); MC_CHECK(c, w && !LoadAndParseJson(FilePath(f), &x, &e) && !e.empty(), "load-truncated", s.substr(0, 60)); }
  unlink(f.c_str()); T x; std::string e; MC_CHECK(c, !LoadAndParseJson(FilePath(f), &x, &e) && e.find("a.json") != std::string::npos, "load-missing", e); rmdir(dir);
}
}  // namespace
