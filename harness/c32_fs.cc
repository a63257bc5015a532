// Directory operations on real trees inside a scratch directory. Calls that
// would change anything outside it are refused.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cstring>
#include <functional>
#include <map>
#include <set>

#include "mc/mc.h"
#include "tachyon/base/files/bin_file.h"
#include "tachyon/base/files/file_enumerator.h"
#include "tachyon/base/files/file_util.h"

namespace {
std::string g_root; bool g_guard = false;
// Whether |p|, after resolving its directory, lies inside the scratch directory.
bool Inside(const char* p) {
  if (!g_guard) return true; std::string s = p; while (s.size() > 1 && s.back() == '/') s.pop_back(); size_t at = s.rfind('/'); std::string dir = at == std::string::npos ? "." : at == 0 ? "/" : s.substr(0, at), base = at == std::string::npos ? s : s.substr(at + 1);
  if (base == ".." || base.empty()) return s.empty(); char real[PATH_MAX]; if (!realpath(dir.c_str(), real)) return true;  // the call will fail
  std::string r = real; return r == g_root || r.compare(0, g_root.size() + 1, g_root + "/") == 0;
}
[[noreturn]] void Refuse(const char* what, const char* p) { fprintf(stderr, "refused %s of %s\n", what, p); std::abort(); }
}  // namespace
extern "C" {
int unlink(const char* p) { if (!Inside(p)) Refuse("unlink", p); return int(syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
int rmdir(const char* p) { if (!Inside(p)) Refuse("rmdir", p); return int(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int mkdir(const char* p, mode_t m) { if (!Inside(p)) Refuse("mkdir", p); return int(syscall(SYS_mkdirat, AT_FDCWD, p, m)); }
int rename(const char* a, const char* b) { if (!Inside(a)) Refuse("rename", a); if (!Inside(b)) Refuse("rename", b); return int(syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b)); }
int creat(const char* p, mode_t m) { if (!Inside(p)) Refuse("creat", p); return int(syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m)); }
int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); if ((flags & (O_ACCMODE | O_CREAT | O_TRUNC)) && !Inside(p) && strcmp(p, "/dev/null") != 0) Refuse("open", p); return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); return open(p, flags, mode); }
}

namespace {
using namespace tachyon;
using base::FilePath;
const bool quiet = (FLAGS_minloglevel = 4, true);
// A tree: path (relative to the scratch directory) to kind and content: "d",
// "f<content>" or "l<target>".
using Tree = std::map<std::string, std::string>;
void Wipe(const std::string& dir) {  // only ever below g_root
  DIR* d = opendir(dir.c_str()); if (!d) return; std::vector<std::string> names; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name); closedir(d);
  for (auto& n : names) { std::string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { Wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
}
struct Scratch {
  Scratch() { char t[] = "/tmp/mc_c32_XXXXXX"; if (!mkdtemp(t)) std::abort(); g_root = t; if (chdir(t)) std::abort(); g_guard = true; pid = getpid(); }
  ~Scratch() { if (getpid() != pid) return; Wipe(g_root); if (chdir("/")) {} g_guard = false; rmdir(g_root.c_str()); }
  pid_t pid;
};
void Write(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); size_t at = 0; while (fd >= 0 && at < s.size()) { ssize_t r = write(fd, s.data() + at, s.size() - at); if (r <= 0) std::abort(); at += size_t(r); } if (fd < 0) std::abort(); close(fd); }
std::string Slurp(const std::string& p) { std::string out; int fd = open(p.c_str(), O_RDONLY); char buf[4096]; ssize_t r; while (fd >= 0 && (r = read(fd, buf, sizeof(buf))) > 0) out.append(buf, size_t(r)); close(fd); return out; }
void Make(const Tree& t) { Wipe(g_root); for (auto& [p, v] : t) { if (v[0] == 'd') { if (mkdir(p.c_str(), 0700)) std::abort(); } else if (v[0] == 'f') Write(p, v.substr(1)); else if (symlink(v.c_str() + 1, p.c_str())) std::abort(); } }
void Look(const std::string& dir, const std::string& prefix, Tree* t) {
  DIR* d = opendir(dir.c_str()); if (!d) return; std::vector<std::string> names; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name); closedir(d);
  for (auto& n : names) { std::string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { (*t)[prefix + n] = "d"; Look(p, prefix + n + "/", t); } else if (S_ISLNK(st.st_mode)) { char b[256]; ssize_t r = readlink(p.c_str(), b, 255); (*t)[prefix + n] = "l" + std::string(b, size_t(std::max<ssize_t>(r, 0))); } else (*t)[prefix + n] = "f" + Slurp(p); }
}
Tree Now() { Tree t; Look(g_root, "", &t); return t; }
std::string Text(const Tree& t) { std::string o; for (auto& [p, v] : t) o += p + "=" + v.substr(0, 8) + " "; return o; }
// All trees over the given places; a place needs its directory.
void Trees(const std::vector<std::string>& places, const std::vector<std::string>& kinds, const std::function<void(const Tree&)>& fn) {
  mc::tuples(int(places.size()), int(kinds.size()) + 1, [&](const std::vector<int>& v) { Tree t; for (size_t i = 0; i < places.size(); ++i) { if (v[i] == 0) continue; size_t s = places[i].rfind('/'); if (s != std::string::npos) { auto it = t.find(places[i].substr(0, s)); if (it == t.end() || it->second != "d") return; } t[places[i]] = kinds[size_t(v[i] - 1)]; } fn(t); });
}
std::vector<std::string> Forms(const std::string& p) { return {p, "./" + p, g_root + "/" + p, p + "/"}; }
bool Below(const std::string& p, const std::string& dir) { return p.compare(0, dir.size() + 1, dir + "/") == 0; }

MC_SECTION(create, 8) {
  Scratch scratch; uint64_t id = 0;
  for (const Tree& start : {Tree{}, Tree{{"a", "d"}}, Tree{{"a", "fx"}}, Tree{{"a", "d"}, {"a/b", "fx"}}, Tree{{"a", "lb"}, {"b", "d"}}, Tree{{"a", "lnone"}}}) for (int len = 1; len <= (c.thorough ? 7 : 6); ++len) mc::tuples(len, 4, [&](const std::vector<int>& v) {
    std::string t; for (int x : v) t += "ab/."[x]; if (t[0] == '/') return; if (!c.mine(id++)) return; std::vector<std::string> comp; { std::string cur; for (char ch : t + "/") { if (ch == '/') { if (!cur.empty()) comp.push_back(cur); cur.clear(); } else cur += ch; } } for (auto& s : comp) if (s == "..") return;
    for (int abs = 0; abs < 2; ++abs) { mc::at("create", id, abs); c.states(1); c.trace(); c.step(); Make(start); Tree want = start; bool can = true; std::string at; for (auto& s : comp) { if (s == ".") continue; std::string next = at.empty() ? s : at + "/" + s; auto it = want.find(next); if (it != want.end() && it->second == "lb") { next = "b"; it = want.find(next); } if (it == want.end()) want[next] = "d"; else if (it->second != "d") { can = false; break; } at = next; }
      std::string p = abs ? g_root + "/" + t : t; base::File::Error err = base::File::FILE_OK; bool ok = base::CreateDirectoryAndGetError(FilePath(p), &err); Tree now = Now();
      MC_CHECK(c, ok == can, "create directory", "'" << t << "'" << (abs ? " below the root" : "") << " in " << Text(start) << ": " << ok); if (ok) MC_CHECK(c, now == want && base::DirectoryExists(FilePath(p)), "created", "'" << t << "' in " << Text(start) << "gives " << Text(now)); else for (auto& [k, val] : start) MC_CHECK(c, now[k] == val, "create changed", Text(start)); MC_CHECK(c, ok == (err == base::File::FILE_OK), "create error", "'" << t << "'"); } });
}
MC_SECTION(remove_tree, 8) {
  Scratch scratch; uint64_t id = 0;
  Trees({"a", "a/x", "a/y", "a/y/z", "b"}, {"d", "f1", "l../b", "lnone", "lb"}, [&](const Tree& t) { if (!c.mine(id++)) return; for (int rec = 0; rec < 2; ++rec) for (const char* what : {"a", "b", "a/y"}) for (const std::string& p : Forms(what)) { auto it = t.find(what); if (p.back() == '/' && (it == t.end() || it->second != "d")) continue;
      mc::at("remove", id, rec); c.states(1); c.trace(); c.step(); Make(t); Tree want = t; bool empty = true; for (auto& [k, v] : t) if (Below(k, what)) empty = false; bool can = it == t.end() || it->second != "d" || empty || rec; 
      bool parent_ok = strcmp(what, "a/y") != 0 || !t.count("a") || t.at("a") == "d" || t.at("a")[0] == 'l'; if (!parent_ok) continue;  // below a plain file: only an error is possible
      if (strcmp(what, "a/y") == 0 && t.count("a") && t.at("a")[0] == 'l') continue; if (can) for (auto& [k, v] : t) if (k == what || Below(k, what)) want.erase(k);
      bool ok = rec ? base::DeletePathRecursively(FilePath(p)) : base::DeleteFile(FilePath(p)); Tree now = Now(); MC_CHECK(c, ok == can && now == want, "remove", (rec ? "all of " : "") << "'" << p << "' in " << Text(t) << ": " << ok << ", leaves " << Text(now)); } });
}
MC_SECTION(list, 8) {
  Scratch scratch; uint64_t id = 0; using E = base::FileEnumerator;
  Trees({"a", "a/x", "a/y", "a/y/z", "a/y/w"}, {"d", "f1", "fabc", "lx"}, [&](const Tree& t) { if (!c.mine(id++)) return; Make(t); for (int rec = 0; rec < 2; ++rec) for (int type = 1; type < 4; ++type) for (int links = 0; links < 2; ++links) for (const std::string& root : Forms("a")) { if (t.count("a") && t.at("a")[0] != 'd') continue; mc::at("list", id, rec, type); c.states(1); c.trace();
      std::multiset<std::string> got, want; int flags = (type & 1 ? int(E::FILES) : 0) | (type & 2 ? int(E::DIRECTORIES) : 0) | (links ? int(E::SHOW_SYM_LINKS) : 0); E e(FilePath(root), rec, flags); for (FilePath p = e.Next(); !p.empty(); p = e.Next()) { c.step(); std::string s = p.value(); if (s.compare(0, g_root.size() + 1, g_root + "/") == 0) s = s.substr(g_root.size() + 1); if (s.compare(0, 2, "./") == 0) s = s.substr(2); while (s.find("//") != std::string::npos) s.erase(s.find("//"), 1); got.insert(s); auto it = t.find(s); MC_CHECK(c, it != t.end() && e.GetInfo().GetName().value() == s.substr(s.rfind('/') + 1), "listed", "'" << s << "'"); if (it != t.end() && it->second[0] != 'l') MC_CHECK(c, e.GetInfo().IsDirectory() == (it->second == "d") && (it->second == "d" || e.GetInfo().GetSize() == int64_t(it->second.size() - 1)), "information", s); }
      bool loops = false; for (auto& [k, v] : t) { if (!Below(k, "a")) continue; bool deep = k.find('/', 2) != std::string::npos; if (deep && !rec) continue; bool dir = v == "d"; if (v[0] == 'l') { std::string target = k.substr(0, k.rfind('/') + 1) + "x"; bool dangling = target == k || !t.count(target) || t.at(target)[0] == 'l'; if (!links && (dangling || t.at(target) == "d")) { loops = true; continue; } } if (dir ? (type & 2) != 0 : (type & 1) != 0) want.insert(k); }
      if (!loops) { std::string g, wt; for (auto& s : got) g += s + " "; for (auto& s : want) wt += s + " "; MC_CHECK(c, got == want, "list", "'" << root << "' recursive " << rec << " types " << flags << " in " << Text(t) << ": " << g << " instead of " << wt); } 
      if (rec && type == 3 && links == 0 && !loops) { int64_t size = 0; for (auto& [k, v] : t) if (Below(k, "a") && v[0] == 'f') size += int64_t(v.size() - 1); bool any = false; for (auto& [k, v] : t) any = any || v[0] == 'l'; if (!any) { int64_t s = base::ComputeDirectorySize(FilePath(root)); MC_CHECK(c, s == size, "directory size", Text(t) << ": " << s); if (t.count("a")) { bool none = true; for (auto& [k, v] : t) if (Below(k, "a")) none = false; MC_CHECK(c, base::IsDirectoryEmpty(FilePath(root)) == none, "empty", Text(t)); } } } } });
}
MC_SECTION(copy_move, 8) {
  Scratch scratch; uint64_t id = 0;
  Trees({"a", "a/x", "a/y", "a/y/z", "b", "b/x"}, {"d", "f1", "f22", "lx"}, [&](const Tree& t) { if (!c.mine(id++)) return; auto kind = [&](const char* p) { auto it = t.find(p); return it == t.end() ? '-' : it->second[0]; };
    auto fa = Forms("a"), fb = Forms("b"); for (int op = 0; op < 5; ++op) for (size_t form = 0; form < 3; ++form) { mc::at("copy", id, op, int(form)); std::string pa = fa[form], pb = fb[(form + size_t(op)) % 3]; Make(t); Tree want = t; c.states(1); c.trace(); c.step();
      auto graft = [&](const std::string& to) { for (auto& [k, v] : t) if (k == "a" || Below(k, "a")) { if (v[0] != 'l') want[to + k.substr(1)] = v; } };
      if (op == 0) { if (kind("a") != 'f' || kind("b") == 'd' || kind("b") == 'l') continue; want["b"] = want["a"]; bool ok = base::CopyFile(FilePath(pa), FilePath(pb)); MC_CHECK(c, ok && Now() == want, "copy file", Text(t) << "gives " << Text(Now())); }
      if (op == 1 || op == 2) { if (kind("a") != 'd' || kind("b") != '-') continue; bool rec = op == 1; for (auto& [k, v] : t) if (k == "a" || (Below(k, "a") && (rec || (k.find('/', 2) == std::string::npos && v[0] == 'f')))) if (v[0] != 'l') want["b" + k.substr(1)] = v; if (!rec) { Make(t); mkdir("b", 0700); want["b"] = "d"; } bool ok = base::CopyDirectory(FilePath(pa), FilePath(pb), rec); MC_CHECK(c, ok && Now() == want, "copy directory", pa << " to " << pb << (rec ? " recursively " : " ") << Text(t) << ": " << ok << " gives " << Text(Now())); }
      if (op == 3) { if (kind("a") != 'd' || kind("b") != 'd') continue; bool clash = false; for (auto& [k, v] : t) if (k == "b/a") clash = true; if (clash) continue; graft("b/a"); bool ok = base::CopyDirectory(FilePath(pa), FilePath(pb), true); Tree now = Now(); if (ok) MC_CHECK(c, now == want, "copy into", pa << " into " << pb << ": " << Text(t) << "gives " << Text(now)); else MC_CHECK(c, form < 2 && now == t, "copy into refused", pa << " into " << pb << ": " << Text(t) << "gives " << Text(now)); }
      if (op == 4) { if (kind("a") == '-' || kind("a") == 'l' || kind("b") == 'l') continue; bool into = kind("b") != '-' && (kind("b") == 'd') != (kind("a") == 'd'), full = kind("a") == 'd' && kind("b") == 'd' && t.count("b/x"); if (full) continue; if (!into) { for (auto& [k, v] : t) if (k == "b" || Below(k, "b")) want.erase(k); for (auto& [k, v] : t) if (k == "a" || Below(k, "a")) { want.erase(k); want["b" + k.substr(1)] = v; } } bool ok = base::Move(FilePath(pa), FilePath(pb)); MC_CHECK(c, ok == !into && Now() == want, "move", pa << " to " << pb << ": " << Text(t) << ": " << ok << " gives " << Text(Now())); }
    } });
}
MC_SECTION(contents, 8) {
  Scratch scratch; uint64_t id = 0; std::vector<size_t> sizes; for (size_t n = 0; n <= 6; ++n) sizes.push_back(n); for (size_t b : {2056, 4095, 4096, 32768, 65535, 65536, 69631, 131072}) for (int d = -2; d <= 2; ++d) sizes.push_back(b + size_t(d));
  for (size_t n : sizes) { if (!c.mine(id++)) continue; mc::at("contents", int(n)); std::string s; uint64_t r = n; for (size_t i = 0; i < n; ++i) s += char(mc::mix(r, i / 3)); c.states(1); c.trace(); Wipe(g_root); MC_CHECK(c, base::WriteFile(FilePath("f"), std::string_view(s)) && Slurp("f") == s, "write", n);
    std::string got = "junk"; MC_CHECK(c, base::ReadFileToString(FilePath("f"), &got) && got == s, "read", n); auto bytes = base::ReadFileToBytes(FilePath("f")); MC_CHECK(c, bytes && std::string(bytes->begin(), bytes->end()) == s, "read bytes", n); int64_t size = -1; MC_CHECK(c, base::GetFileSize(FilePath("f"), &size) && size == int64_t(n), "size", n);
    for (size_t max : std::set<size_t>{0, 1, n / 2, n ? n - 1 : 0, n, n + 1, 65536, 1 << 20}) { c.step(); std::string part = "junk"; bool ok = base::ReadFileToStringWithMaxSize(FilePath("f"), &part, max); MC_CHECK(c, ok == (n <= max) && part == s.substr(0, max), "read at most", n << " bytes, at most " << max << ": " << ok << ", " << part.size() << " bytes"); }
    for (int hist = 0; hist < 6; ++hist) { base::BinFile f; Write("o", "other"); bool map = hist % 2; if (hist >= 2) MC_CHECK(c, f.Load(FilePath("o"), hist >= 4) && std::string(reinterpret_cast<const char*>(f.GetData()), f.GetDataLength()) == "other", "binary file", "other"); if (map && n == 0) continue; bool ok = f.Load(FilePath("f"), map); MC_CHECK(c, ok && f.GetDataLength() == n && (n == 0 || memcmp(f.GetData(), s.data(), n) == 0), "binary file", n << " bytes, history " << hist << ": " << ok << ", " << f.GetDataLength() << " bytes"); MC_CHECK(c, !f.Load(FilePath("none"), map), "missing binary file", n); }
    for (size_t flip : std::set<size_t>{0, n / 2, n ? n - 1 : 0, n}) { std::string o = s; if (flip < n) o[flip] = char(o[flip] ^ 1); else o += "x"; Write("g", o); c.step(2); MC_CHECK(c, !base::ContentsEqual(FilePath("f"), FilePath("g")) && !base::ContentsEqual(FilePath("g"), FilePath("f")), "unequal", n << " differing at " << flip); Write("g", s); MC_CHECK(c, base::ContentsEqual(FilePath("f"), FilePath("g")) && base::ContentsEqual(FilePath("f"), FilePath("f")), "equal", n); }
    if (n) { Write("g", s.substr(1)); MC_CHECK(c, base::AppendToFile(FilePath("g"), std::string_view(s)) && Slurp("g") == s.substr(1) + s, "append", n); } MC_CHECK(c, !base::ReadFileToString(FilePath("none"), &got) && got.empty() && !base::AppendToFile(FilePath("none"), std::string_view(s)) && access("none", F_OK) != 0, "missing file", n);
    base::File in(FilePath("f"), base::File::FLAG_OPEN | base::File::FLAG_READ), out(FilePath("h"), base::File::FLAG_CREATE | base::File::FLAG_WRITE); MC_CHECK(c, base::CopyFileContents(in, out) && Slurp("h") == s, "copy contents", n); }
  // Text comparison and unreadable operands.
  std::vector<std::string> texts; for (int len = 0; len <= (c.thorough ? 5 : 4); ++len) mc::tuples(len, 4, [&](const std::vector<int>& v) { std::string t; for (int x : v) t += "ab\r\n"[x]; texts.push_back(t); });
  auto lines = [](const std::string& t) { std::vector<std::string> out(1); for (char ch : t) { if (ch == '\n') out.emplace_back(); else out.back() += ch; } for (auto& l : out) while (!l.empty() && l.back() == '\r') l.pop_back(); return out; };
  for (size_t i = 0; i < texts.size(); ++i) { if (!c.mine(id++)) continue; Write("f", texts[i]); for (size_t j = 0; j < texts.size(); j += i % 4 + 1) { c.states(1); c.step(2); Write("g", texts[j]); MC_CHECK(c, base::TextContentsEqual(FilePath("f"), FilePath("g")) == (lines(texts[i]) == lines(texts[j])), "text", "" << i << ", " << j); MC_CHECK(c, base::ContentsEqual(FilePath("f"), FilePath("g")) == (texts[i] == texts[j]), "bytes", "" << i << ", " << j); } }
  if (c.shard == 0) { Make({{"d", "d"}, {"f", "fx"}}); for (const char* a : {"d", "f", "none"}) for (const char* b : {"d", "f", "none"}) { mc::at("unreadable", int(a[0]), int(b[0])); c.step(2); if (std::string(a) == "f" && std::string(b) == "f") continue; bool hung = mc::dies([&] { alarm(5); if (base::ContentsEqual(FilePath(a), FilePath(b)) || base::TextContentsEqual(FilePath(a), FilePath(b))) std::abort(); }); MC_CHECK(c, !hung, "unreadable files", a << ", " << b << ": equal, or endless"); } }
}
MC_SECTION(names, 4) {
  Scratch scratch; uint64_t id = 0;
  for (const char* name : {"f", "f.txt", "f.tar.gz", ".f", "f.", "f.x.y", "d.e/f", "d.e/f.gz"}) for (int taken = 0; taken <= 3; ++taken) for (int gap = 0; gap <= taken; ++gap) { if (!c.mine(id++)) continue; mc::at("unique", id); c.states(1); c.trace(); c.step(); Make({{"d.e", "d"}}); std::string n = name, dir = n.find('/') != std::string::npos ? n.substr(0, n.rfind('/') + 1) : "", b = n.substr(dir.size()); size_t d = b == "f.tar.gz" ? 1 : b.rfind('.'); std::string stem = d == std::string::npos ? b : b.substr(0, d), ext = d == std::string::npos ? "" : b.substr(d);
    auto at = [&](int k) { return k == 0 ? n : dir + stem + " (" + std::to_string(k) + ")" + ext; }; for (int k = 0; k < taken; ++k) if (k != gap) Write(at(k), "x"); int want = 0; while (want < taken && want != gap) ++want; std::string got = base::GetUniquePath(FilePath(n)).value(); MC_CHECK(c, base::GetUniquePathNumber(FilePath(n)) == want && got == at(want), "unique path", n << " with " << taken << " taken but " << gap << ": " << got); }
  if (c.shard == 0) { Make({}); setenv("TMPDIR", g_root.c_str(), 1); std::set<std::string> seen; for (int i = 0; i < 8; ++i) { FilePath p; MC_CHECK(c, base::CreateTemporaryFileInDir(FilePath(g_root), &p) && Slurp(p.value()).empty() && seen.insert(p.value()).second && Inside(p.value().c_str()), "temporary file", p.value()); FilePath d; MC_CHECK(c, base::CreateTemporaryDirInDir(FilePath(g_root), "pre", &d) && base::DirectoryExists(d) && seen.insert(d.value()).second && d.BaseName().value().compare(0, 3, "pre") == 0, "temporary directory", d.value()); c.step(2); } }
}
}  // namespace
