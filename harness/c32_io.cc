// File transfers under every combination of short, interrupted and failed
// system calls. The system calls of the harness are defined here: descriptors of
// the simulated files never reach the kernel, and a call that would change
// anything else is refused.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cstring>
#include <map>
#include <memory>

#include "mc/mc.h"
#include "tachyon/base/files/file.h"
#include "tachyon/base/files/file_util.h"
#include "tachyon/base/files/scoped_file.h"

namespace {
struct Node { std::string data; };
struct Desc { std::shared_ptr<Node> node; off_t pos = 0; int flags = 0; };
struct World {
  bool on = false;
  std::map<std::string, std::shared_ptr<Node>> files; std::map<int, Desc> fds; int next = 1000; std::vector<int> closed;
  std::vector<int> plan, taken, kinds; int errors = 0, interrupts = 0, writes_failed = 0; std::string trouble; size_t calls = 0;
  // The next choice out of n; 0 is the undisturbed one.
  int choose(int n) { size_t i = taken.size(); int v = i < plan.size() ? plan[i] : 0; if (v >= n) v = 0; taken.push_back(v); kinds.push_back(n); if (++calls > 400) { trouble = "endless"; std::abort(); } return v; }
} w;
bool Mine(int fd) { return w.on && fd >= 1000; }
bool Path(const char* p) { return w.on && strncmp(p, "/mcfs/", 6) == 0; }
int Fail(int e) { errno = e; return -1; }
Desc* Get(int fd) { auto it = w.fds.find(fd); if (it == w.fds.end()) { w.trouble += "use of a closed descriptor; "; return nullptr; } return &it->second; }
ssize_t In(Desc* d, void* buf, size_t n, off_t at, bool move) {
  if (!d) return Fail(EBADF); if ((d->flags & O_ACCMODE) == O_WRONLY) return Fail(EBADF); size_t size = d->node->data.size(), left = size_t(at) < size ? size - size_t(at) : 0, k = std::min(n, left);
  int ch = w.choose(k > 1 ? 5 : 3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EIO); } if (ch == 3) k = 1; if (ch == 4) k = k - 1;
  memcpy(buf, d->node->data.data() + (k ? at : 0), k); if (move) d->pos = at + off_t(k); return ssize_t(k);
}
ssize_t Out(Desc* d, const void* buf, size_t n, off_t at, bool move) {
  if (!d) return Fail(EBADF); if ((d->flags & O_ACCMODE) == O_RDONLY) return Fail(EBADF); if (d->flags & O_APPEND) at = off_t(d->node->data.size()); size_t k = n;
  int ch = w.choose(k > 1 ? 5 : 3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(ENOSPC); } if (ch == 3) k = 1; if (ch == 4) k = k - 1;
  if (k && d->node->data.size() < size_t(at) + k) d->node->data.resize(size_t(at) + k); if (k) memcpy(d->node->data.data() + at, buf, k); if (move) d->pos = at + off_t(k); return ssize_t(k);
}
int Open(const char* path, int flags) {
  int ch = w.choose(3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EMFILE); }
  auto it = w.files.find(path); if (it == w.files.end()) { if (!(flags & O_CREAT)) return Fail(ENOENT); it = w.files.emplace(path, std::make_shared<Node>()).first; } else if ((flags & O_CREAT) && (flags & O_EXCL)) return Fail(EEXIST);
  if (flags & O_TRUNC) it->second->data.clear(); int fd = w.next++; w.fds[fd] = Desc{it->second, 0, flags}; return fd;
}
[[noreturn]] void Refuse(const char* what, const char* path) { fprintf(stderr, "refused %s of %s\n", what, path); std::abort(); }
}  // namespace

extern "C" {
ssize_t read(int fd, void* b, size_t n) { if (Mine(fd)) { Desc* d = Get(fd); return In(d, b, n, d ? d->pos : 0, true); } return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (Mine(fd)) { if (o < 0) return Fail(EINVAL); return In(Get(fd), b, n, o, false); } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) { if (Mine(fd)) { Desc* d = Get(fd); return Out(d, b, n, d ? d->pos : 0, true); } return syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (Mine(fd)) { if (o < 0) return Fail(EINVAL); return Out(Get(fd), b, n, o, false); } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (Path(p)) return Open(p, flags); if (w.on && (flags & (O_ACCMODE | O_CREAT | O_TRUNC)) && strcmp(p, "/dev/null") != 0) Refuse("open", p); return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); return open(p, flags, mode); }
int creat(const char* p, mode_t mode) { if (Path(p)) return Open(p, O_CREAT | O_WRONLY | O_TRUNC); if (w.on) Refuse("creat", p); return int(syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)); }
int creat64(const char* p, mode_t mode) { return creat(p, mode); }
int unlink(const char* p) { if (Path(p)) { w.files.erase(p); return 0; } if (w.on) Refuse("unlink", p); return int(syscall(SYS_unlinkat, AT_FDCWD, p, 0)); }
// The library defines close() itself and forwards to the one it looks up.
static int Close(int fd) { if (Mine(fd)) { if (!w.fds.erase(fd)) { w.trouble += "closed twice; "; return Fail(EBADF); } w.closed.push_back(fd); int ch = w.choose(3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EIO); } return 0; } return int(syscall(SYS_close, fd)); }
void* dlsym(void* h, const char* name) { if (strcmp(name, "close") == 0) return reinterpret_cast<void*>(&Close); return dlvsym(h, name, "GLIBC_2.2.5"); }
int dup(int fd) { if (Mine(fd)) { int ch = w.choose(3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EMFILE); } Desc* d = Get(fd); if (!d) return Fail(EBADF); int n = w.next++; w.fds[n] = *d; return n; } return int(syscall(SYS_dup, fd)); }
off_t lseek(int fd, off_t o, int whence) { if (Mine(fd)) { Desc* d = Get(fd); if (!d) return Fail(EBADF); off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->pos : off_t(d->node->data.size()); if (base + o < 0) return Fail(EINVAL); return d->pos = base + o; } return syscall(SYS_lseek, fd, o, whence); }
off64_t lseek64(int fd, off64_t o, int whence) { return lseek(fd, o, whence); }
int ftruncate(int fd, off_t n) { if (Mine(fd)) { Desc* d = Get(fd); if (!d) return Fail(EBADF); if (n < 0) return Fail(EINVAL); int ch = w.choose(3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EIO); } d->node->data.resize(size_t(n)); return 0; } return int(syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int mode, off_t o, off_t n) { if (Mine(fd)) { Desc* d = Get(fd); if (!d) return Fail(EBADF); int ch = w.choose(3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) return Fail(EOPNOTSUPP); if (d->node->data.size() < size_t(o + n)) d->node->data.resize(size_t(o + n)); return 0; } return int(syscall(SYS_fallocate, fd, mode, o, n)); }
int fallocate64(int fd, int mode, off64_t o, off64_t n) { return fallocate(fd, mode, o, n); }
ssize_t sendfile(int out, int in, off_t* off, size_t n) {
  if (Mine(out) && Mine(in)) { Desc *a = Get(in), *b = Get(out); if (!a || !b || off) return Fail(EBADF); size_t left = size_t(a->pos) < a->node->data.size() ? a->node->data.size() - size_t(a->pos) : 0, k = std::min(n, left);
    int ch = w.choose(k > 1 ? 6 : 4); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EIO); } if (ch == 3) { ++w.errors; return Fail(EINVAL); } if (ch == 4) k = 1; if (ch == 5) k = k - 1;
    std::string s = a->node->data.substr(k ? size_t(a->pos) : 0, k); if (b->node->data.size() < size_t(b->pos) + k) b->node->data.resize(size_t(b->pos) + k); memcpy(b->node->data.data() + b->pos, s.data(), k); a->pos += off_t(k); b->pos += off_t(k); return ssize_t(k); }
  return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) { return sendfile(out, in, off, n); }
int fstat(int fd, struct stat* st) { if (Mine(fd)) { Desc* d = Get(fd); if (!d) return Fail(EBADF); int ch = w.choose(2); if (ch == 1) { ++w.errors; return Fail(EIO); } memset(st, 0, sizeof(*st)); st->st_mode = S_IFREG | 0600; st->st_size = off_t(d->node->data.size()); st->st_blksize = 4; return 0; } return int(syscall(SYS_fstat, fd, st)); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); if (Mine(fd)) { Desc* d = Get(fd); if (!d) return Fail(EBADF); return cmd == F_GETFL ? d->flags : 0; } return int(syscall(SYS_fcntl, fd, cmd, arg)); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
int fdatasync(int fd) { if (Mine(fd)) { int ch = w.choose(3); if (ch == 1) { ++w.interrupts; return Fail(EINTR); } if (ch == 2) { ++w.errors; return Fail(EIO); } return 0; } return int(syscall(SYS_fdatasync, fd)); }
}

namespace {
using namespace tachyon;
using base::File;
using base::FilePath;
const bool quiet = (FLAGS_minloglevel = 4, true);
const bool enforced = (base::subtle::EnableFDOwnershipEnforcement(true), true);
const FilePath kA("/mcfs/a"), kB("/mcfs/b");
std::string& Data(const FilePath& p) { return w.files[p.value()]->data; }

// Runs |body| under every plan with at most |deviations| disturbed calls.
template <typename Body>
void Explore(mc::Ctx& c, const char* name, int size, int deviations, const Body& body) {
  uint64_t id = 0;
  std::vector<std::vector<int>> stack = {{}};
  while (!stack.empty()) {
    std::vector<int> plan = stack.back(); stack.pop_back(); mc::at(name, size, int(plan.size()), int(plan.size() > 0 ? plan[0] : -1), int(plan.size() > 1 ? plan[plan.size() - 1] : -1), id++);
    w = World(); w.plan = plan; w.on = true; c.states(1); c.trace();
    std::string bad = body(); w.on = false; if (bad.empty()) bad = w.trouble; if (bad.empty() && !w.fds.empty()) bad = "descriptor leaked"; c.step(w.taken.size());
    MC_CHECK(c, bad.empty(), "transfer", name << " of " << size << " bytes with system calls answering " << mc::vstr(w.taken) << " (0: in full): " << bad);
    int used = 0; for (int x : plan) used += x != 0;
    if (used < deviations) for (size_t i = plan.size(); i < w.taken.size(); ++i) for (int v = 1; v < w.kinds[i]; ++v) { std::vector<int> next(w.taken.begin(), w.taken.begin() + long(i)); next.push_back(v); stack.push_back(next); }
  }
}
std::string Content(int n, char first = 'a') { std::string s; for (int i = 0; i < n; ++i) s += char(first + i % 23); return s; }
std::string Say(bool ok, const char* what) { return ok ? "" : what; }
#define EXPECT(cond, what) do { if (!(cond)) return std::string(what); } while (0)
int Dev(mc::Ctx& c) { return c.thorough ? 8 : 6; }

MC_SECTION(whole_files, 8) {
  uint64_t id = 0; int most = c.thorough ? 9 : 7;
  for (int n = 0; n <= most; ++n) for (int old = 0; old <= 3; old += 3) {
    const std::string s = Content(n), o = Content(old, 'A'); auto start = [&](const FilePath& p, const std::string& v) { w.files[p.value()] = std::make_shared<Node>(Node{v}); };
    if (c.mine(id++)) Explore(c, "WriteFile", n, Dev(c), [&]() -> std::string { start(kA, o); int r = base::WriteFile(kA, s.data(), n); EXPECT(r == n || r == -1, "odd result"); EXPECT(r == -1 || Data(kA) == s, "wrong bytes"); EXPECT((r == n) == (w.errors == 0), "wrong outcome"); return ""; });
    if (c.mine(id++)) Explore(c, "WriteFile bool", n, Dev(c), [&]() -> std::string { start(kA, o); bool r = base::WriteFile(kA, std::string_view(s)); EXPECT(!r || Data(kA) == s, "wrong bytes"); EXPECT(r == (w.errors == 0), "wrong outcome"); return ""; });
    if (c.mine(id++)) Explore(c, "WriteLargeFile", n, Dev(c), [&]() -> std::string { start(kA, o); bool r = base::WriteLargeFile(kA, std::string_view(s)); EXPECT(!r || Data(kA) == s, "wrong bytes"); EXPECT(r == (w.errors == 0), "wrong outcome"); return ""; });
    if (c.mine(id++)) Explore(c, "AppendToFile", n, Dev(c), [&]() -> std::string { start(kA, o); bool r = base::AppendToFile(kA, std::string_view(s)); EXPECT(!r || Data(kA) == o + s, "wrong bytes"); EXPECT(r == (w.errors == 0), "wrong outcome"); EXPECT(Data(kA).compare(0, o.size(), o) == 0, "old bytes changed"); return ""; });
    if (c.mine(id++)) Explore(c, "ReadFileToStringNonBlocking", n, Dev(c), [&]() -> std::string { start(kA, s); std::string got = "junk"; bool r = base::ReadFileToStringNonBlocking(kA, &got); EXPECT(!r || got == s, "wrong bytes"); int before = w.errors; (void)before; EXPECT(r || w.errors > 0, "wrong outcome"); return ""; });
    if (c.mine(id++)) Explore(c, "ReadFile", n, Dev(c), [&]() -> std::string { start(kA, s); char buf[24]; memset(buf, 35, 24); int want = n == 0 ? 3 : n, r = base::ReadFile(kA, buf, want); EXPECT(r >= -1 && r <= n, "odd result"); for (int i = 0; i < 24; ++i) { if (r >= 0 && i < r) EXPECT(buf[i] == s[size_t(i)], "wrong bytes"); if (i >= want) EXPECT(buf[i] == '#', "overrun"); } EXPECT((r == -1) == (w.errors > 0), "wrong outcome"); return ""; });
    if (c.mine(id++)) Explore(c, "CopyFile", n, Dev(c), [&]() -> std::string { start(kA, s); start(kB, o); bool r = base::CopyFile(kA, kB); EXPECT(!r || Data(kB) == s, "wrong bytes"); EXPECT(Data(kA) == s, "source changed"); EXPECT(r || w.errors > 0, "wrong outcome"); return ""; });
    if (old == 0 && c.mine(id++)) Explore(c, "ReadFromFD", n, Dev(c), [&]() -> std::string { start(kA, s); bool any = false; for (int want = n; want <= n + 1; ++want) { int fd = HANDLE_EINTR(open("/mcfs/a", O_RDONLY)); if (fd < 0) return ""; int e = w.errors; char buf[24]; memset(buf, 35, 24); bool r = base::ReadFromFD(fd, buf, size_t(want)); bool closed = close(fd) == 0 || w.errors >= 0; (void)closed; any = any || r; if (r) { EXPECT(want == n, "success beyond the end"); EXPECT(memcmp(buf, s.data(), size_t(n)) == 0, "wrong bytes"); } else EXPECT(want > n || w.errors > e, "wrong outcome"); for (int i = want; i < 24; ++i) EXPECT(buf[i] == '#', "overrun"); } return ""; });
    if (old == 0 && c.mine(id++)) Explore(c, "PreReadFile", n, Dev(c), [&]() -> std::string { start(kA, s); bool r = base::internal::PreReadFileSlow(kA, n + 2); EXPECT(r || w.errors > 0, "wrong outcome"); return ""; });
  }
  c.sample("WriteFile of 5 bytes with one-byte writes, interruptions and a full disk");
}
// One operation on an open file, with the position and contents checked afterwards.
MC_SECTION(open_files, 8) {
  uint64_t id = 0; int most = c.thorough ? 6 : 5;
  for (int n = 0; n <= most; ++n) for (int len = 0; len <= most; ++len) for (int at = 0; at <= most; ++at) {
    const std::string s = Content(n), d = Content(len, 'A'); auto start = [&](uint32_t flags) { w.files[kA.value()] = std::make_shared<Node>(Node{s}); w.on = false; w.on = true; return File(kA, flags); };
    auto read = [&](const char* name, auto op, bool best, bool pos) { if (!c.mine(id++)) return; Explore(c, name, len, Dev(c), [&]() -> std::string { File f = start(File::FLAG_OPEN | File::FLAG_READ); if (!f.IsValid()) return Say(w.errors > 0 && f.error_details() == File::FILE_ERROR_TOO_MANY_OPENED, "not opened"); if (pos) EXPECT(f.Seek(File::FROM_BEGIN, at) == at, "seek");
        int e = w.errors; char buf[24]; memset(buf, 35, 24); int r = op(f, buf); bool err = w.errors > e; int avail = std::max(0, std::min(len, n - at)); EXPECT(r <= avail && r >= -1, "odd result"); for (int i = 0; i < 24; ++i) { if (i < r) EXPECT(buf[i] == s[size_t(at + i)], "wrong bytes"); if (i >= len) EXPECT(buf[i] == '#', "overrun"); } EXPECT(r != -1 || err, "failure without error"); if (best && !err) EXPECT(r == avail, "short without error"); if (!best) EXPECT(err == (r == -1), "wrong outcome"); if (pos && r >= 0) EXPECT(f.Seek(File::FROM_CURRENT, 0) == at + r, "position"); if (!pos) EXPECT(f.Seek(File::FROM_CURRENT, 0) == 0, "position"); EXPECT(Data(kA) == s, "file changed"); return ""; }); };
    read("Read", [&](File& f, char* b) { return f.Read(at, b, len); }, true, false); read("ReadAtCurrentPos", [&](File& f, char* b) { return f.ReadAtCurrentPos(b, len); }, true, true);
    read("ReadNoBestEffort", [&](File& f, char* b) { return f.ReadNoBestEffort(at, b, len); }, false, false); read("ReadAtCurrentPosNoBestEffort", [&](File& f, char* b) { return f.ReadAtCurrentPosNoBestEffort(b, len); }, false, true);
    read("ReadAndCheck", [&](File& f, char* b) { int e = w.errors; bool ok = f.ReadAndCheck(at, absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(b), size_t(len))); int avail = std::max(0, std::min(len, n - at)); if (ok && (avail != len)) return 99; if (!ok && avail == len && w.errors == e) return 98; return ok ? len : w.errors > e ? -1 : avail; }, true, false);
    for (int append = 0; append < 2; ++append) { auto write = [&](const char* name, auto op, bool best, bool pos) { if (!c.mine(id++)) return; Explore(c, name, len, Dev(c), [&]() -> std::string { File f = start(append ? uint32_t{File::FLAG_OPEN_ALWAYS | File::FLAG_APPEND} : uint32_t{File::FLAG_OPEN | File::FLAG_WRITE}); if (!f.IsValid()) return Say(w.errors > 0, "not opened"); EXPECT(!f.created() || w.errors > 0, "created"); if (pos) f.Seek(File::FROM_BEGIN, at);
        int e = w.errors, r = op(f); bool err = w.errors > e; EXPECT(r <= len && r >= -1, "odd result"); EXPECT(r != -1 || err, "failure without error"); if (best && !err) EXPECT(r == len, "short without error"); int got = std::max(r, 0), where = append ? n : at; std::string want = s; if (got && want.size() < size_t(where + got)) want.resize(size_t(where + got)); want.replace(size_t(std::min(where, int(want.size()))), size_t(got), d.substr(0, size_t(got))); EXPECT(Data(kA) == want, "wrong bytes"); return ""; }); };
      write("Write", [&](File& f) { return f.Write(at, d.data(), len); }, true, false); write("WriteAtCurrentPos", [&](File& f) { return f.WriteAtCurrentPos(d.data(), len); }, true, true); write("WriteAtCurrentPosNoBestEffort", [&](File& f) { return f.WriteAtCurrentPosNoBestEffort(d.data(), len); }, false, true); }
    if (len == 0 && c.mine(id++)) Explore(c, "SetLength", at, Dev(c), [&]() -> std::string { File f = start(File::FLAG_OPEN | File::FLAG_WRITE); if (!f.IsValid()) return ""; int e = w.errors; bool r = f.SetLength(at); EXPECT(r == (w.errors == e), "wrong outcome"); std::string want = s; want.resize(size_t(at)); EXPECT(!r || Data(kA) == want, "wrong bytes"); e = w.errors; int64_t l = f.GetLength(); EXPECT(w.errors > e ? l == -1 : l == int64_t(Data(kA).size()), "length"); e = w.errors; bool fl = f.Flush(); EXPECT(fl == (w.errors == e), "flush"); return ""; });
    if (len <= 1 && c.mine(id++)) Explore(c, "AllocateFileRegion", at, Dev(c), [&]() -> std::string { File f = start(File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE); if (!f.IsValid()) return ""; int e = w.errors; size_t grow = len ? 9 : 1; bool r = base::AllocateFileRegion(&f, at, grow); std::string want = s; if (want.size() < size_t(at) + grow) want.resize(size_t(at) + grow); EXPECT(!r || Data(kA) == want, "wrong bytes"); EXPECT(Data(kA).compare(0, s.size(), s) == 0, "old bytes changed"); EXPECT(r || w.errors > e, "wrong outcome"); return ""; });
    if (len == 0 && c.mine(id++)) Explore(c, "handles", n, Dev(c), [&]() -> std::string { File f = start(File::FLAG_OPEN | File::FLAG_READ); if (!f.IsValid()) return ""; int e = w.errors; File g = f.Duplicate(); EXPECT(g.IsValid() == (w.errors == e), "duplicate"); if (g.IsValid()) EXPECT(g.GetPlatformFile() != f.GetPlatformFile(), "same descriptor"); File h(std::move(f)); EXPECT(!f.IsValid() && h.IsValid(), "move"); g = std::move(h); EXPECT(g.IsValid() && !h.IsValid() && w.fds.size() == 1, "move assignment"); if (at == 1) { g.Close(); EXPECT(!g.IsValid() && w.fds.empty(), "close"); g.Close(); } if (at == 2) { int fd = g.TakePlatformFile(); EXPECT(!g.IsValid() && w.fds.size() == 1, "take"); base::ScopedFD own(fd); base::ScopedFD other(std::move(own)); EXPECT(!own.is_valid() && other.get() == fd, "scoped"); other.reset(); EXPECT(w.fds.empty(), "reset"); } return ""; });
  }
  // Every way of opening, on a file that exists or not.
  struct Way { uint32_t flags; bool creates, needs, excl, trunc; };
  for (const Way& way : {Way{File::FLAG_OPEN | File::FLAG_READ, false, true, false, false}, Way{File::FLAG_CREATE | File::FLAG_WRITE, true, false, true, false}, Way{File::FLAG_CREATE_ALWAYS | File::FLAG_WRITE, true, false, false, true}, Way{File::FLAG_OPEN_ALWAYS | File::FLAG_WRITE, true, false, false, false}, Way{File::FLAG_OPEN_TRUNCATED | File::FLAG_WRITE, false, true, false, true}, Way{File::FLAG_OPEN_ALWAYS | File::FLAG_APPEND, true, false, false, false}, Way{File::FLAG_OPEN | File::FLAG_READ | File::FLAG_WRITE, false, true, false, false}}) for (int exists = 0; exists < 2; ++exists) {
    if (!c.mine(id++)) continue; Explore(c, "open", int(way.flags), Dev(c), [&]() -> std::string { if (exists) w.files[kA.value()] = std::make_shared<Node>(Node{"abc"}); File f(kA, way.flags); bool can = exists ? !way.excl : way.creates;
      if (f.IsValid()) { EXPECT(can, "opened"); EXPECT(f.error_details() == File::FILE_OK, "error kept"); EXPECT(Data(kA) == (exists && !way.trunc ? "abc" : ""), "wrong bytes"); if (w.errors == 0) EXPECT(f.created() == (!exists || (way.creates && way.trunc)), "created flag"); } else { EXPECT(!can || w.errors > 0, "not opened"); File::Error e = f.error_details(); EXPECT(e != File::FILE_OK, "no error"); if (w.errors == 0) EXPECT(e == (exists ? File::FILE_ERROR_EXISTS : File::FILE_ERROR_NOT_FOUND), "wrong error"); if (exists) EXPECT(Data(kA) == "abc", "changed"); } return ""; }); }
}
}  // namespace
