// C33: command lines. Every argument list over an alphabet, for several
// parsers and all four entry points, against an independent reference parser.
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include "mc/mc.h"
#include "tachyon/base/flag/flag_parser.h"
#include "tachyon/base/flag/numeric_flags.h"

namespace {
using namespace tachyon::base;
enum Kind { kBool, kInt8, kInt, kUint16, kString, kVec, kSet, kChoice, kIntChoice, kRange, kCallback, kBoolCallback, kPositive };
struct FlagD { Kind k; std::string s, l, n; bool req = false; std::string env; };
struct ParserD { std::vector<std::pair<std::string, ParserD>> subs; std::vector<FlagD> flags; std::vector<bool> subreq; };
// ---- values, as text
std::optional<long> Num(const std::string& t, long lo, long hi) {
  size_t i = !t.empty() && t[0] == '-' && lo < 0; if (i == t.size() || t.size() > 12) return std::nullopt; long v = 0;
  for (size_t j = i; j < t.size(); ++j) { if (t[j] < '0' || t[j] > '9') return std::nullopt; v = v * 10 + (t[j] - '0'); }
  if (i) v = -v; if (v < lo || v > hi) return std::nullopt; return v;
}
bool Store(Kind k, const std::string& t, std::string* out) {
  std::optional<long> n;
  switch (k) {
    case kBool: *out = "true"; return true;
    case kBoolCallback: *out += "!"; return out->size() <= 2;
    case kInt8: n = Num(t, -128, 127); break;
    case kInt: n = Num(t, INT_MIN, INT_MAX); break;
    case kUint16: n = Num(t, 0, 65535); break;
    case kPositive: n = Num(t, INT_MIN, INT_MAX); if (n && *n <= 0) n.reset(); break;
    case kRange: n = Num(t, INT_MIN, INT_MAX); if (n && !(*n > 1 && *n <= 5)) n.reset(); break;
    case kIntChoice: n = Num(t, INT_MIN, INT_MAX); if (n && *n != 5 && *n != -5) n.reset(); break;
    case kString: if (t.empty()) return false; *out = t; return true;
    case kChoice: if (t != "x" && t != "add") return false; *out = t; return true;
    case kCallback: if (t != "x" && t != "") return false; *out += "<" + t + ">"; return true;
    case kVec: n = Num(t, INT_MIN, INT_MAX); if (!n) return false; *out += std::to_string(*n) + ","; return true;
    case kSet: { n = Num(t, INT_MIN, INT_MAX); if (!n) return false; std::set<long> s; std::istringstream is(*out); std::string w; while (std::getline(is, w, ',')) s.insert(std::stol(w)); s.insert(*n); *out = ""; for (long x : s) *out += std::to_string(x) + ","; return true; }
  }
  if (!n) return false; *out = std::to_string(*n); return true;
}
// ---- the reference parser
struct Out { bool ok = false; std::map<std::string, std::string> v; std::set<std::string> subs; std::vector<std::string> unknown, fwd; };
struct Ref {
  const std::vector<std::string>& a; bool known; std::map<std::string, std::string> env; size_t i = 1; Out o;
  bool Level(const ParserD& p, const std::string& path) {
    std::vector<const FlagD*> pos, opt; for (auto& f : p.flags) (f.n.empty() ? opt : pos).push_back(&f); std::set<const FlagD*> set; size_t np = 0; std::string sub; bool stop = false;
    auto key = [&](const FlagD& f) { return path + "/" + (f.n.empty() ? f.l + f.s : f.n); }; auto store = [&](const FlagD& f, const std::string& t) { set.insert(&f); return Store(f.k, t, &o.v[key(f)]); };
    for (; i < a.size() && !stop; ++i) {
      std::string t = a[i];
      if (t == "--") { o.fwd.assign(a.begin() + i + 1, a.end()); i = a.size(); break; }
      if (t == "--help" || t == "-h") return false;
      bool did = false; for (auto& [n, q] : p.subs) if (n == t) { sub = n; o.subs.insert(path + "/" + n); ++i; if (!Level(q, path + "/" + n)) return false; did = stop = true; break; }
      if (did) break;
      if (np < pos.size()) { if (!store(*pos[np++], t)) return false; continue; }
      if (t.size() > 1 && t[0] == '-') {  // a cluster of short boolean flags
        std::vector<const FlagD*> cl; for (char ch : t.substr(1)) { const FlagD* g = nullptr; for (auto f : opt) if (!g && (f->k == kBool || f->k == kBoolCallback) && f->s == std::string("-") + ch) g = f; if (!g) { cl.clear(); break; } cl.push_back(g); }
        if (!cl.empty()) { for (auto g : cl) if (!store(*g, "")) return false; continue; } }
      std::string name = t, val; bool eq = false; size_t e = t.find('='); if (e != std::string::npos) { name = t.substr(0, e); val = t.substr(e + 1); eq = true; }
      const FlagD* g = nullptr; if (!name.empty()) for (auto f : opt) if (!g && (f->s == name || f->l == name)) g = f;
      if (g) { bool b = g->k == kBool || g->k == kBoolCallback; if (b && eq) return false; if (!b && !eq) { if (++i == a.size()) return false; val = a[i]; } if (!store(*g, val)) return false; continue; }
      if (!known) return false;
      o.unknown.push_back(t); if (i + 1 < a.size() && (a[i + 1].empty() || a[i + 1][0] != '-')) o.unknown.push_back(a[++i]);
    }
    if (np < pos.size()) return false;
    for (size_t j = 0; j < p.subs.size(); ++j) if (j < p.subreq.size() && p.subreq[j] && p.subs[j].first != sub) return false;
    for (auto& f : p.flags) if (!set.count(&f)) { if (f.req) return false; if (!f.env.empty() && env.count(f.env)) if (!store(f, env.at(f.env))) return false; }
    return true;
  }
};
// ---- the parser under test
struct Values { bool b[16] = {}; int8_t i8[16] = {}; int i[16] = {}; uint16_t u16[16] = {}; std::string s[16]; std::vector<int> v[16]; std::set<int> st[16]; std::string cb[16]; flag_internal::PositiveInt p[16] = {}; };
struct Real {
  Values val; int n = 0; std::vector<std::function<void(Out*)>> read; bool subset[8] = {}; int nsub = 0;
  FlagParser parser;
  template <typename T> void Name(T& f, const FlagD& d) { if (!d.s.empty()) f.set_short_name(d.s); if (!d.l.empty()) f.set_long_name(d.l); if (!d.n.empty()) f.set_name(d.n); if (d.req) f.set_required(); f.set_help("help text"); }
  template <typename T> void Env(T& f, const FlagD& d) { Name(f, d); if (!d.env.empty()) f.set_env_name(d.env); }
  void Build(FlagParserBase& p, const ParserD& d, const std::string& path) {
    for (size_t j = 0; j < d.subs.size(); ++j) { bool* is = &subset[nsub++]; auto& sp = p.AddSubParser().set_name(d.subs[j].first).set_is_set(is); if (j < d.subreq.size() && d.subreq[j]) sp.set_required(); std::string q = path + "/" + d.subs[j].first; SubParser* ptr = &sp; read.push_back([=](Out* o) { if (*is) o->subs.insert(q); if (*is != ptr->is_set()) o->subs.insert("inconsistent"); }); Build(sp, d.subs[j].second, q); }
    for (auto& f : d.flags) {
      int k = n++; std::string key = path + "/" + (f.n.empty() ? f.l + f.s : f.n); size_t before = p.flags()->size(); Values* w = &val;
      std::function<std::string()> get;
      switch (f.k) {
        case kBool: Env(p.AddFlag<BoolFlag>(&val.b[k]), f); get = [=] { return w->b[k] ? "true" : "false"; }; break;
        case kInt8: Env(p.AddFlag<Int8Flag>(&val.i8[k]), f); get = [=] { return std::to_string((int)w->i8[k]); }; break;
        case kInt: Env(p.AddFlag<IntFlag>(&val.i[k]), f); get = [=] { return std::to_string(w->i[k]); }; break;
        case kUint16: Env(p.AddFlag<Uint16Flag>(&val.u16[k]), f); get = [=] { return std::to_string(w->u16[k]); }; break;
        case kString: Env(p.AddFlag<StringFlag>(&val.s[k]), f); get = [=] { return w->s[k]; }; break;
        case kVec: Env(p.AddFlag<Flag<std::vector<int>>>(&val.v[k]), f); get = [=] { std::string r; for (int x : w->v[k]) r += std::to_string(x) + ","; return r; }; break;
        case kSet: Env(p.AddFlag<Flag<std::set<int>>>(&val.st[k]), f); get = [=] { std::string r; for (int x : w->st[k]) r += std::to_string(x) + ","; return r; }; break;
        case kChoice: Env(p.AddFlag<StringChoicesFlag>(&val.s[k], std::vector<std::string>{"x", "add"}), f); get = [=] { return w->s[k]; }; break;
        case kIntChoice: Env(p.AddFlag<ChoicesFlag<int>>(&val.i[k], std::vector<int>{5, -5}), f); get = [=] { return std::to_string(w->i[k]); }; break;
        case kRange: { auto& r = p.AddFlag<Int32RangeFlag>(&val.i[k], 1, 5); r.set_less_than_or_equal_to(true); Env(r, f); get = [=] { return std::to_string(w->i[k]); }; break; }
        case kCallback: Env(p.AddFlag<StringFlag>([=](std::string_view t, std::string* reason) { if (t != "x" && t != "") { *reason = "no"; return false; } w->cb[k] += "<" + std::string(t) + ">"; return true; }), f); get = [=] { return w->cb[k]; }; break;
        case kBoolCallback: Env(p.AddFlag<BoolFlag>([=](std::string_view t, std::string* reason) { w->cb[k] += "!"; if (w->cb[k].size() > 2) { *reason = "too many"; return false; } return true; }), f); get = [=] { return w->cb[k]; }; break;
        case kPositive: Env(p.AddFlag<PositiveIntFlag>(&val.p[k]), f); get = [=] { return std::to_string(w->p[k].value); }; break;
      }
      FlagBase* fb = (*p.flags())[before].get(); read.push_back([=](Out* o) { if (fb->is_set()) o->v[key] = get(); });
    }
  }
};
const FlagD A{kBool, "-a", "--aa"}, B{kBool, "-b", ""}, C{kInt, "-c", "--cc"}, S{kString, "", "--str"}, V{kVec, "-v", ""}, CH{kChoice, "-x", "--choice"}, R{kRange, "-r", ""}, CB{kCallback, "-k", ""}, BC{kBoolCallback, "-l", ""};
FlagD Req(FlagD f) { f.req = true; return f; }
FlagD WithEnv(FlagD f, const char* e) { f.env = e; return f; }
FlagD PosF(Kind k, const char* n) { FlagD f{k}; f.n = n; return f; }
ParserD P(std::vector<FlagD> f) { ParserD p; p.flags = f; return p; }
std::vector<ParserD> Parsers() {
  std::vector<ParserD> v{P({A, B, C}), P({A, Req(C), S}), P({V, CH, R}), P({CB, BC, B}), P({PosF(kInt, "first"), PosF(kString, "second"), A, C}), P({PosF(kVec, "first"), Req(CH), B}), P({}), P({{kInt8, "-c", "--cc"}, {kUint16, "", "--c"}, {kSet, "-v", "--ccc"}}), P({{kPositive, "-c", ""}, {kIntChoice, "", "--cc"}, Req(B)})};
  ParserD s = P({A, Req(C)}); s.subs = {{"add", P({PosF(kInt, "l"), PosF(kInt, "r"), B})}, {"x", P({C, V})}}; v.push_back(s);
  ParserD t = P({A}); t.subs = {{"add", P({Req(S), A})}}; t.subreq = {true}; v.push_back(t);
  ParserD u = P({B}); ParserD in = P({A}); in.subs = {{"x", P({PosF(kChoice, "w"), B})}}; u.subs = {{"add", in}}; v.push_back(u);
  v.push_back(P({WithEnv(C, "MC_C33_A"), WithEnv(S, "MC_C33_B"), A})); v.push_back(P({WithEnv(V, "MC_C33_A"), WithEnv(PosF(kInt, ""), ""), B})); v.back().flags.erase(v.back().flags.begin() + 1);
  return v;
}
const std::vector<std::string> kArgs{"-a", "-b", "-ab", "-ba", "-az", "-aab", "-c", "-c=5", "-c=", "--cc", "--cc=7", "--cc=x", "--aa", "--aa=1", "-b=", "5", "-5", "x", "", "-", "--", "add", "-h", "--help", "--ccc", "--c", "--cc-c", "--aa-a", "-v", "-v=3", "--str", "--str=", "--str=-a", "-x", "--choice=add", "-r", "-r=5", "-k", "-k=x", "-l", "-lb", "-ll", "-lll", "128", "65536", "---a", "a", "=5", "-=5", "--=5", "-c5", "--unknown", "--unknown=5", "-\xc3\xa9"};
std::string Show(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += "'" + x + "' "; return s; }
std::string Show(const Out& o) { std::string s = o.ok ? "ok" : "error"; if (!o.ok) return s; for (auto& [k, v] : o.v) s += " " + k + "=" + v; for (auto& x : o.subs) s += " +" + x; s += " unknown " + Show(o.unknown) + "forward " + Show(o.fwd); return s; }
void One(mc::Ctx& c, int id, const ParserD& d, const std::vector<std::string>& a, const std::map<std::string, std::string>& env) {
  c.states(1); c.trace(1); std::string txt = Show(a); mc::at_s("command line", txt.c_str());
  if (c.want_sample()) c.sample("parser " + std::to_string(id) + ": " + txt);
  Out want[2]; for (int k = 0; k < 2; ++k) { Ref r{a, k == 1, env}; r.o.ok = r.Level(d, ""); want[k] = r.o; }
  for (int mode = 0; mode < 4; ++mode) {
    c.step(1); Real r; r.Build(r.parser, d, ""); std::vector<std::string> copy = a; std::vector<char*> argv; for (auto& x : copy) argv.push_back(x.data()); argv.push_back(nullptr); int argc = (int)a.size(); std::vector<std::string> fwd; std::string err; Out got;
    if (mode == 0) got.ok = r.parser.Parse(argc, argv.data(), &err); if (mode == 1) got.ok = r.parser.ParseWithForward(argc, argv.data(), &fwd, &err); if (mode == 2) got.ok = r.parser.ParseKnown(&argc, argv.data(), &err); if (mode == 3) got.ok = r.parser.ParseKnownWithForward(&argc, argv.data(), &fwd, &err);
    Out w = want[mode >= 2]; if (mode % 2 == 0) w.fwd.clear();
    for (auto& f : r.read) f(&got); got.fwd = fwd; if (mode >= 2) for (int j = 1; j < argc; ++j) got.unknown.push_back(argv[j]);
    bool same = got.ok == w.ok && (!w.ok || (got.v == w.v && got.subs == w.subs && got.unknown == w.unknown && got.fwd == w.fwd));
    MC_CHECK(c, same, "parse", "parser " << id << " mode " << mode << ": " << txt << "gives " << Show(got) << (got.ok ? "" : " (" + err + ")") << ", denotes " << Show(w));
    MC_CHECK(c, got.ok || !err.empty(), "no-error", "parser " << id << " mode " << mode << ": " << txt);
  }
}
void Quiet() { static std::ostringstream sink; std::cerr.rdbuf(sink.rdbuf()); sink.str(""); }
// The arguments that mean something to a parser, and a few that do not.
std::vector<std::string> Relevant(const ParserD& d) { std::set<std::string> names{"5", "x", "", "-", "--", "--unknown", "-az", "add", "--cc-c"}; std::function<void(const ParserD&)> go = [&](const ParserD& p) { for (auto& [n, q] : p.subs) { names.insert(n); go(q); } for (auto& f : p.flags) { if (!f.s.empty()) { names.insert(f.s); names.insert(f.s + "=5"); } if (!f.l.empty()) { names.insert(f.l); names.insert(f.l + "=x"); } } }; go(d); return {names.begin(), names.end()}; }
MC_SECTION(lists, 14) {
  Quiet(); auto ps = Parsers(); int id = 0;
  for (auto& d : ps) { ++id; if (!c.mine(id)) continue; if (c.shard % 3 == 0) Quiet();
    for (int n = 0; n <= 2 + c.thorough; ++n) mc::tuples(n, kArgs.size(), [&](const std::vector<int>& t) { std::vector<std::string> a{"program"}; for (int i : t) a.push_back(kArgs[i]); One(c, id, d, a, {}); if (c.thorough && t.size() == 3 && t[2] == 0) Quiet(); });
    auto rel = Relevant(d); Quiet(); int deep = c.thorough ? 5 : 4; while (std::pow((double)rel.size(), deep) > (c.thorough ? 4e6 : 6e4)) --deep; for (int n = 3; n <= deep; ++n) mc::tuples(n, rel.size(), [&](const std::vector<int>& t) { std::vector<std::string> a{"program"}; for (int i : t) a.push_back(rel[i]); One(c, id, d, a, {}); }); }
}
MC_SECTION(environment, 2) {
  Quiet(); auto ps = Parsers(); std::vector<const char*> vals{nullptr, "5", "x", "", "-7"}; int k = 0;
  for (size_t id = 12; id < ps.size(); ++id) for (auto e1 : vals) for (auto e2 : vals) { if (!c.mine(k++)) continue; std::map<std::string, std::string> env; if (e1) { setenv("MC_C33_A", e1, 1); env["MC_C33_A"] = e1; } if (e2) { setenv("MC_C33_B", e2, 1); env["MC_C33_B"] = e2; }
    for (auto& a : std::vector<std::vector<std::string>>{{}, {"-a"}, {"-c=3"}, {"--str", "q"}, {"-c", "3", "--str=q"}, {"-v=1", "-v=2"}, {"--", "z"}, {"--unknown"}}) { auto b = a; b.insert(b.begin(), "program"); One(c, id + 1, ps[id], b, env); } unsetenv("MC_C33_A"); unsetenv("MC_C33_B"); }
}
// ---- values of single flags
template <typename T> void Numbers(mc::Ctx& c, const char* name) {
  using L = std::numeric_limits<T>; std::set<std::string> in{"", "-", "+", "0x1", "1e3", "1.0", "--1", "00", "007", "-0", "99999999999999999999999", "-99999999999999999999999", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "nan"}; for (int b = 0; b < 64; b += 1) for (long dlt : {-1l, 0l, 1l}) { in.insert(std::to_string((1ul << b) + dlt)); in.insert(std::to_string(-(long)((1ul << b) + dlt))); }
  for (auto& t : in) for (int form = 0; form < 3; ++form) { c.states(1); c.step(1); c.trace(1);
    __int128 v = 0; bool digits = t.size() > (t[0] == '-') && t.size() < 30; for (size_t i = t[0] == '-'; i < t.size(); ++i) { if (!isdigit((unsigned char)t[i])) digits = false; v = v * 10 + (t[i] - '0'); } if (t[0] == '-') v = -v; if (t[0] == '-' && !std::is_signed_v<T>) digits = false; bool want = digits && v >= (__int128)L::min() && v <= (__int128)L::max();
    T x = 77; FlagParser p; if (form == 2) p.AddFlag<Flag<T>>(&x).set_name("v"); else p.AddFlag<Flag<T>>(&x).set_long_name("--v"); std::string err, a1 = form == 1 ? "--v=" + t : form == 0 ? "--v" : t, a2 = t, pr = "p"; char* argv[] = {pr.data(), a1.data(), form == 0 ? a2.data() : nullptr, nullptr}; bool ok = p.Parse(form == 0 ? 3 : 2, argv, &err);
    MC_CHECK(c, ok == want && (ok ? (__int128)x == v : !err.empty()), "number", name << " '" << t << "' " << (ok ? "accepted" : "rejected: " + err)); }
}
template <typename T> void Ranges(mc::Ctx& c, const char* name) {
  for (T lo : {T(0), T(3), T(5)}) for (T hi : {T(3), T(5), T(9)}) { if (hi < lo) continue; for (int m = 0; m < 4; ++m) for (int v = 0; v <= 12; ++v) { c.states(1); c.step(1); c.trace(1); T x = 77; FlagParser p; auto& f = p.AddFlag<RangeFlag<T>>(&x, lo, hi); f.set_long_name("--v"); if (m & 1) f.set_greater_than_or_equal_to(true); if (m & 2) f.set_less_than_or_equal_to(true); std::string err, a = "--v=" + std::to_string(v), pr = "p"; char* argv[] = {pr.data(), a.data(), nullptr}; bool ok = p.Parse(2, argv, &err); T t = T(v); bool want = ((m & 1) ? t >= lo : t > lo) && ((m & 2) ? t <= hi : t < hi);
    MC_CHECK(c, ok == want && (!ok || x == t), "range", name << " " << v << " mode " << m << " in " << +lo << ".." << +hi); } }
}
template <typename N> void Positives(mc::Ctx& c) { using T = decltype(N::value); for (int v = -128; v <= 127; ++v) { c.states(1); c.step(1); N x{T(77)}; FlagParser p; p.AddFlag<Flag<N>>(&x).set_short_name("-v"); std::string err, a = "-v=" + std::to_string(v), pr = "p"; char* argv[] = {pr.data(), a.data(), nullptr}; bool ok = p.Parse(2, argv, &err); MC_CHECK(c, ok == (v > 0) && (!ok || x.value == T(v)), "positive", v); } }
MC_SECTION(values, 1) {
  Numbers<int8_t>(c, "int8"); Numbers<uint8_t>(c, "uint8"); Numbers<int16_t>(c, "int16"); Numbers<uint16_t>(c, "uint16"); Numbers<int32_t>(c, "int32"); Numbers<uint32_t>(c, "uint32"); Numbers<int64_t>(c, "int64"); Numbers<uint64_t>(c, "uint64");
  Ranges<int8_t>(c, "int8"); Ranges<uint8_t>(c, "uint8"); Ranges<int>(c, "int"); Ranges<uint64_t>(c, "uint64"); Ranges<float>(c, "float"); Ranges<double>(c, "double");
  using namespace flag_internal; Positives<PositiveInt>(c); Positives<PositiveInt8>(c); Positives<PositiveInt16>(c); Positives<PositiveInt64>(c); Positives<PositiveFloat>(c); Positives<PositiveDouble>(c);
}
// ---- names: every short string over an alphabet is accepted or ignored by the rules
MC_SECTION(names, 1) {
  const std::string al = "-aZ0_ "; for (int n = 0; n <= 5; ++n) mc::tuples(n, al.size(), [&](const std::vector<int>& t) { std::string s; for (int i : t) s += al[i]; c.states(1); c.step(3); bool b;
    auto ident = [](const std::string& x) { if (x.empty() || !isalpha((unsigned char)x[0])) return false; for (char ch : x) if (!isalnum((unsigned char)ch) && ch != '_') return false; return true; };
    BoolFlag f(&b); f.set_short_name(s); f.set_long_name(s); f.set_name(s);
    MC_CHECK(c, f.short_name() == (s.size() == 2 && s[0] == '-' && isalpha((unsigned char)s[1]) ? s : ""), "short-name", s); MC_CHECK(c, f.long_name() == (s.size() > 2 && s.substr(0, 2) == "--" && ident(s.substr(2)) ? s : ""), "long-name", s); MC_CHECK(c, f.name() == (ident(s) ? s : "") && IsValidFlagName(s) == ident(s), "name", s); });
}
// ---- a user's final validation decides for known and strict parsing alike
struct Strict : FlagParser { bool pass = true; int calls = 0; bool Validate(std::string* e) override { ++calls; if (!pass) *e = "invalid"; return pass; } };
MC_SECTION(validation, 1) {
  Quiet(); for (bool pass : {false, true}) for (int mode = 0; mode < 4; ++mode) for (auto& a : std::vector<std::vector<std::string>>{{}, {"-a"}, {"-c", "x"}, {"-c", "5"}, {"--unknown"}, {"--", "q"}}) { c.states(1); c.step(1); Strict p; p.pass = pass; bool b = false; int v = 0; p.AddFlag<BoolFlag>(&b).set_short_name("-a"); p.AddFlag<IntFlag>(&v).set_short_name("-c"); auto s = a; s.insert(s.begin(), "p"); std::vector<char*> argv; for (auto& x : s) argv.push_back(x.data()); argv.push_back(nullptr); int n = s.size(); std::string err; std::vector<std::string> fw; bool ok = mode == 0 ? p.Parse(n, argv.data(), &err) : mode == 1 ? p.ParseWithForward(n, argv.data(), &fw, &err) : mode == 2 ? p.ParseKnown(&n, argv.data(), &err) : p.ParseKnownWithForward(&n, argv.data(), &fw, &err);
    bool args = !(a.size() > 1 && a[1] == "x") && (mode >= 2 || a.empty() || a[0] != "--unknown"); MC_CHECK(c, ok == (args && pass) && (ok || !err.empty()), "validate", "mode " << mode << " validator " << pass << ": " << Show(s)); MC_CHECK(c, p.calls == (args ? 1 : 0), "validate-calls", p.calls); }
  // Unknown arguments of every length get a report.
  for (int n = 0; n <= 700; n += n < 20 ? 1 : 17) { c.states(1); c.step(1); FlagParser p; bool b; p.AddFlag<BoolFlag>(&b).set_long_name("--" + std::string(n + 1, 'q')); std::string x = "--" + std::string(n ? n - 1 : 5, 'q') + "zz", pr = "p", err; char* argv[] = {pr.data(), x.data(), nullptr}; MC_CHECK(c, !p.Parse(2, argv, &err) && err.find(x) != std::string::npos, "unknown-report", n); }
}
}  // namespace
