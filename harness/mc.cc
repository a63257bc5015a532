#include "mc/mc.h"

#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>

namespace mc {
thread_local Cur cur;
namespace {
struct Entry { const char* name; int shards; Fn fn; bool thorough; };
std::vector<Entry>& regs() { static std::vector<Entry> r; return r; }
std::map<std::string, int> g_keys;
Ctx* g_ctx = nullptr;
FILE* g_out = nullptr;
int g_fd = 1;
bool g_child = false;

std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

void on_signal(int sig) {
  if (g_child) _exit(99);
  // Only async-signal-safe calls below.
  char b[1200]; int n = 0;
  n += snprintf(b + n, sizeof(b) - n, "\nMCV {\"key\": \"%s\", \"what\": \"signal %d at %s(",
                sig == SIGALRM ? "hang" : "crash", sig, cur.label ? cur.label : "?");
  if (cur.s) {
    for (const char* p = cur.s; *p && n < 1000; ++p)
      b[n++] = (*p == '"' || *p == '\\' || (unsigned char)*p < 32 || (unsigned char)*p > 126) ? '_' : *p;
  }
  for (int i = 0; i < cur.n && i < 8; ++i)
    n += snprintf(b + n, sizeof(b) - n, "%s0x%llx", i ? ", " : "", (unsigned long long)cur.v[i]);
  n += snprintf(b + n, sizeof(b) - n, ")\"}\n");
  (void)!write(g_fd, b, n);
  _exit(sig == SIGALRM ? 98 : 97);
}
}  // namespace

bool U64Set::insert(uint64_t k) {
  if (k == 0) { bool r = !zero_; zero_ = true; n_ += r; return r; }
  if (t_.empty()) t_.resize(1 << 12);
  if (n_ * 2 > t_.size()) {
    std::vector<uint64_t> o(t_.size() * 4); o.swap(t_);
    for (uint64_t x : o) if (x) {
      size_t i = (x * 0x9e3779b97f4a7c15ull) & (t_.size() - 1);
      while (t_[i]) i = (i + 1) & (t_.size() - 1);
      t_[i] = x;
    }
  }
  size_t i = (k * 0x9e3779b97f4a7c15ull) & (t_.size() - 1);
  while (t_[i]) { if (t_[i] == k) return false; i = (i + 1) & (t_.size() - 1); }
  t_[i] = k; ++n_; return true;
}

Reg::Reg(const char* name, int shards, Fn fn, bool thorough_only) {
  regs().push_back({name, shards, fn, thorough_only});
}

void Ctx::fail(const std::string& key, const std::string& what) {
  ++n_fail;
  std::string k = std::string(section) + "/" + key;
  if (g_keys[k]++ >= 2) return;
  fprintf(g_out, "\nMCV {\"key\": %s, \"what\": %s}\n", js(k).c_str(), js(what.substr(0, 1500)).c_str());
  fflush(g_out);
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = mix(h, w); b += 8; n -= 8; }
  uint64_t w = 0; memcpy(&w, b, n); return mix(mix(h, w), n);
}

std::string hex(const void* p, size_t n) {
  std::string o; char b[3];
  for (size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", ((const uint8_t*)p)[i]); o += b; }
  return o;
}

bool dies(const std::function<void()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    g_child = true;
    int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1);
    try { f(); } catch (...) { _exit(3); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

int run(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__)
  // A runaway allocation is reported as a crash of the section that made it.
  rlimit mem{rlim_t{4} << 30, rlim_t{4} << 30};
  setrlimit(RLIMIT_AS, &mem);
#endif
  if (argc >= 2 && !strcmp(argv[1], "--list")) {
    for (auto& e : regs()) printf("%s %d %d\n", e.name, e.shards, e.thorough ? 1 : 0);
    return 0;
  }
  // --run SECTION SHARD NSHARDS TIMEOUT TIER
  if (argc < 7) return 2;
  g_fd = dup(1); g_out = fdopen(g_fd, "w");
  int n = open("/dev/null", O_WRONLY); dup2(n, 1);  // the code under test may print
  for (auto& e : regs()) {
    if (strcmp(e.name, argv[2])) continue;
    Ctx c; c.section = e.name; c.shard = atoi(argv[3]); c.nshards = atoi(argv[4]);
    c.thorough = !strcmp(argv[6], "thorough");
    g_ctx = &c;
    static char stack[1 << 16];
    stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
    alarm(atoi(argv[5]));
    try {
      e.fn(c);
    } catch (const std::exception& x) {
      c.fail("exception", std::string("uncaught exception: ") + x.what());
    }
    alarm(0);
    fprintf(g_out, "\nMCR {\"section\": %s, \"shard\": %d, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"fails\": %llu, \"samples\": [",
            js(e.name).c_str(), c.shard, (unsigned long long)c.n_states, (unsigned long long)c.n_steps,
            (unsigned long long)c.n_traces, (unsigned long long)c.n_fail);
    for (size_t i = 0; i < c.samples.size(); ++i) fprintf(g_out, "%s%s", i ? ", " : "", js(c.samples[i].substr(0, 400)).c_str());
    fprintf(g_out, "]}\n"); fflush(g_out);
    fflush(nullptr);
    _exit(c.n_fail ? 1 : 0);
  }
  return 2;
}
}  // namespace mc
int main(int argc, char** argv) { return mc::run(argc, argv); }
