// The path algebra against a direct reading of the text.
#include <algorithm>

#include "mc/mc.h"
#include "tachyon/base/files/file_path.h"

namespace {
using namespace tachyon;
using base::FilePath;
using Strs = std::vector<std::string>;

// The reading: a path is its text; the last separator parts directory and name.
std::string Dir(const std::string& p) { size_t s = p.rfind('/'); if (s == std::string::npos) return ""; return s == 0 ? "/" : p.substr(0, s); }
std::string Base(const std::string& p) { size_t s = p.rfind('/'); return s == std::string::npos ? p : p.substr(s + 1); }
Strs Components(const std::string& p) { Strs out; if (!p.empty() && p[0] == '/') out.push_back("/"); std::string cur; for (char ch : p + "/") { if (ch == '/') { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur += ch; } return out; }
bool Double(const std::string& e) { std::string l; for (char ch : e) l += char(tolower(ch)); for (const char* s : {"bz", "bz2", "gz", "lz", "lzma", "lzo", "xz", "z", "zst"}) if (l == s) return true; return false; }
std::string FinalExt(const std::string& b) { if (b == "." || b == "..") return ""; size_t d = b.rfind('.'); return d == std::string::npos ? "" : b.substr(d); }
std::string Ext(const std::string& b) { std::string f = FinalExt(b); if (f.empty() || f.size() == b.size() || !Double(f.substr(1))) return f; std::string rest = b.substr(0, b.size() - f.size()); size_t d = rest.rfind('.'); if (d == std::string::npos) return f; std::string mid = rest.substr(d + 1); return mid.size() >= 1 && mid.size() <= 4 ? "." + mid + f : f; }
std::string Q(const std::string& s) { return "'" + s + "'"; }
std::string Text(const Strs& s) { std::string o; for (auto& x : s) o += Q(x) + " "; return o; }

void One(mc::Ctx& c, const std::string& t) {
  c.states(1); c.trace(); c.step(16); FilePath p(t); const std::string b = Base(t);
  auto same = [&](const std::string& got, const std::string& want, const char* op) { MC_CHECK(c, got == want, "path", op << " of " << Q(t) << ": " << Q(got) << " instead of " << Q(want)); };
  same(p.value(), t, "value"); same(p.DirName().value(), Dir(t), "DirName"); same(b, p.BaseName().value(), "BaseName");
  MC_CHECK(c, p.GetComponents() == Components(t), "components", Q(t) << ": " << Text(p.GetComponents()) << "instead of " << Text(Components(t)));
  bool all = !t.empty() && t.find_first_not_of('/') == std::string::npos; MC_CHECK(c, p.IsRoot() == all && p.empty() == t.empty() && p.IsAbsolute() == (!t.empty() && t[0] == '/') && p.EndsWithSeparator() == (!t.empty() && t.back() == '/'), "kind", Q(t));
  same(p.Extension(), Ext(b), "Extension"); same(p.FinalExtension(), FinalExt(b), "FinalExtension");
  same(p.RemoveExtension().value(), t.substr(0, t.size() - Ext(b).size()), "RemoveExtension"); same(p.RemoveFinalExtension().value(), t.substr(0, t.size() - FinalExt(b).size()), "RemoveFinalExtension");
  same(p.InsertBeforeExtension("").value(), t, "InsertBeforeExtension nothing"); same(p.InsertBeforeExtension(" (1)").value(), b.empty() || b == "." || b == ".." ? "" : t.substr(0, t.size() - Ext(b).size()) + " (1)" + Ext(b), "InsertBeforeExtension");
  std::string strip = t; while (strip.size() > 1 && strip.back() == '/') strip.pop_back(); same(p.StripTrailingSeparators().value(), strip, "StripTrailingSeparators"); same(p.AsEndingWithSeparator().value(), t.empty() || t.back() == '/' ? t : t + "/", "AsEndingWithSeparator");
  Strs comp = Components(t); MC_CHECK(c, p.ReferencesParent() == (std::find(comp.begin(), comp.end(), "..") != comp.end()), "references parent", Q(t) << ": " << p.ReferencesParent());
}
void Two(mc::Ctx& c, const std::string& t, const std::string& u) {
  c.states(1); c.step(6); FilePath p(t), q(u); Strs a = Components(t), b = Components(u);
  bool parent = !a.empty() && a.size() < b.size() && std::equal(a.begin(), a.end(), b.begin()); MC_CHECK(c, p.IsParent(q) == parent, "parent", Q(t) << " of " << Q(u) << ": " << p.IsParent(q));
  std::string rel; for (size_t i = a.size(); i < b.size(); ++i) rel += (rel.empty() ? "" : "/") + b[i];
  for (const char* start : {"", "x", "/", "x/y/"}) { FilePath r((std::string(start))); bool ok = p.AppendRelativePath(q, &r); std::string s = start, want = !parent ? s : s.empty() || s.back() == '/' ? s + rel : s + "/" + rel; MC_CHECK(c, ok == parent && r.value() == want, "relative path", Q(t) << " to " << Q(u) << " onto " << Q(s) << ": " << Q(r.value()) << " instead of " << Q(want)); }
  { FilePath r = p; p.AppendRelativePath(q, &r); FilePath self = p; self.AppendRelativePath(q, &self); MC_CHECK(c, r == self, "relative path onto itself", Q(t) << " to " << Q(u) << ": " << Q(self.value())); }
  FilePath j = p.Append(q), k = p / u, l = p, m = p; l /= q; m /= u; MC_CHECK(c, j == k && j == l && j == m && p.Append(u) == j && p / q == j, "append forms", Q(t) << ", " << Q(u));
  if (u.empty() || u[0] != '/') { std::string v = j.value(); if (t.empty()) MC_CHECK(c, v == u, "append", Q(u) << " to nothing: " << Q(v)); else if (u.empty()) MC_CHECK(c, v == t || v == t + "/", "append", "nothing to " << Q(t) << ": " << Q(v)); else MC_CHECK(c, v == t + (t.back() == '/' ? "" : "/") + u, "append", Q(u) << " to " << Q(t) << ": " << Q(v)); }
  MC_CHECK(c, (p == q) == (t == u) && (p != q) == (t != u) && (p < q) == (t < u), "order", Q(t) << ", " << Q(u));
}
const char* const kTokens[] = {"/", ".", "a", "gz", "tar", "Z", "long5", "\xc3\xa9", " "};
MC_SECTION(names, 8) {
  uint64_t id = 0; int n = c.thorough ? 7 : 6;
  for (int len = 0; len <= n; ++len) mc::tuples(len, 9, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; mc::at("names", id); std::string t; for (int x : v) t += kTokens[x]; One(c, t); });
  for (int len = 0; len <= (c.thorough ? 13 : 11); ++len) mc::tuples(len, 3, [&](const std::vector<int>& v) { if (!c.mine(id++)) return; mc::at("characters", id); std::string t; for (int x : v) t += "/.b"[x]; One(c, t); });
}
MC_SECTION(pairs, 8) {
  Strs all; for (int len = 0; len <= (c.thorough ? 6 : 5); ++len) mc::tuples(len, 4, [&](const std::vector<int>& v) { std::string t; for (int x : v) t += "/.ab"[x]; all.push_back(t); });
  uint64_t id = 0; for (auto& t : all) { if (!c.mine(id++)) continue; mc::at("pairs", id); c.trace(); for (auto& u : all) Two(c, t, u); }
}
}  // namespace
