#include "mc/omp_rt.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <malloc.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <map>
#include <new>
#include <set>
#include <unordered_map>

#include "absl/synchronization/mutex.h"

// The runtime must not observe itself.
namespace omc {
constexpr int kMaxT = 16;
constexpr size_t kStack = 1 << 19;
int g_threads = 1;
static bool g_reverse = false;
Stats stats;

// ---- choices ---------------------------------------------------------------
struct Choice { int taken, alternatives; };
static bool g_busy = false;             // inside the runtime: its own accesses are not judged
static std::vector<Choice> g_trail;   // replayed prefix, then extended with 0s
static size_t g_pos = 0;
static bool g_exploring = false;
static int g_budget = 0, g_used = 0;
// Offers n alternatives (0 = default); each step past 0 costs one delay.
static int choose(int n) {
  if (!g_exploring || n <= 1) return 0;
  ++stats.choices;
  if (g_pos == g_trail.size()) { bool was = g_busy; g_busy = true; g_trail.push_back({0, 0}); g_busy = was; }
  Choice& ch = g_trail[g_pos++];
  int left = g_budget - g_used;
  ch.alternatives = 1 + (n - 1 < left ? n - 1 : left);
  g_used += ch.taken;
  return ch.taken;
}

// ---- team ------------------------------------------------------------------
struct Thread { ucontext_t ctx; char* stack = nullptr; bool done = true, waiting = false; const void* blocked = nullptr; uint32_t vc[kMaxT] = {}; };
static Thread T[kMaxT];
static ucontext_t g_sched;
static int g_n = 1, g_cur = 0;        // current team
static bool g_in = false;             // inside an active region of >1 threads
static int g_nest = 0;                // serialized nested regions
static void (*g_fn)(void*); static void* g_data;
static bool g_track = false;          // race detection live
static uint32_t g_gen = 0;

// dynamic loop state
struct Loop { long next = 0, end = 0, incr = 1, chunk = 1; bool live = false; int left = 0; };
static Loop g_loop;

// memory freed inside a region, kept until its end
static bool g_quarantine = false; static std::vector<void*>* g_held = nullptr;
extern "C" void __real_free(void*);
static void drain() { if (!g_held) return; std::vector<void*> v; v.swap(*g_held); for (void* p : v) __real_free(p); }
void set_quarantine(bool on) { g_quarantine = on; }

static void tramp() { g_nest = 0; g_fn(g_data); T[g_cur].done = true; ++T[g_cur].vc[g_cur]; swapcontext(&T[g_cur].ctx, &g_sched); abort(); }

static void yield_to_sched() { bool t = g_track; int me = g_cur, nest = g_nest; ++stats.switches; swapcontext(&T[me].ctx, &g_sched); g_track = t; g_nest = nest; }

static void barrier_join() {
  uint32_t m[kMaxT] = {};
  for (int i = 0; i < g_n; ++i) for (int j = 0; j < g_n; ++j) if (T[i].vc[j] > m[j]) m[j] = T[i].vc[j];
  for (int i = 0; i < g_n; ++i) { memcpy(T[i].vc, m, sizeof m); ++T[i].vc[i]; }
}

static void run_team(void (*fn)(void*), void* data, int n) {
  ++stats.regions;
  if (g_in || n <= 1) {  // nested or single: serialized team of one
    int sn = g_n, sc = g_cur; bool in = g_in;
    ++g_nest; 
    if (!in) { g_n = 1; g_cur = 0; }
    fn(data);
    --g_nest; if (!in) { g_n = sn; g_cur = sc; }
    return;
  }
  const int nest = g_nest; g_in = true; g_n = n; g_fn = fn; g_data = data; ++g_gen; g_loop = Loop();
  for (int i = 0; i < n; ++i) {
    if (!T[i].stack) T[i].stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    getcontext(&T[i].ctx);
    T[i].ctx.uc_stack.ss_sp = T[i].stack; T[i].ctx.uc_stack.ss_size = kStack; T[i].ctx.uc_link = nullptr;
    T[i].done = T[i].waiting = false; T[i].blocked = nullptr;
    memset(T[i].vc, 0, sizeof T[i].vc); T[i].vc[i] = 1;
    makecontext(&T[i].ctx, tramp, 0);
  }
  g_track = true;
  int last = -1;
  for (;;) {
    int cand[kMaxT], k = 0; bool alldone = true;
    // the last thread continues by default, then round-robin from it
    for (int s = 0; s < n; ++s) {
      int i = last < 0 ? (g_reverse ? n - 1 - s : s) : (g_reverse ? (last - s + 2 * n) % n : (last + s) % n);
      if (!T[i].done) { alldone = false; if (!T[i].waiting && !T[i].blocked) cand[k++] = i; }
    }
    if (alldone) break;
    if (k == 0) { for (int i = 0; i < n; ++i) if (!T[i].done && T[i].blocked) { fprintf(stderr, "deadlock: thread %d waits for a mutex\n", i); abort(); } barrier_join(); for (int i = 0; i < n; ++i) T[i].waiting = false; last = -1; continue; }
    g_cur = cand[choose(k)]; last = g_cur;
    swapcontext(&g_sched, &T[g_cur].ctx);
  }
  g_track = false; g_in = false; g_n = 1; g_cur = 0; g_nest = nest; drain();
}
void parallel(int n, const std::function<void(int)>& fn) {
  struct L { static void go(void* p) { (*(const std::function<void(int)>*)p)(g_nest ? 0 : g_cur); } };
  run_team(&L::go, (void*)&fn, n);
}

void set_threads(int n) { g_threads = n < 1 ? 1 : n > kMaxT ? kMaxT : n; }
void set_reverse(bool r) { g_reverse = r; }

uint64_t explore(int delays, const std::function<void(const std::string&)>& fn, uint64_t limit, bool* complete) {
  uint64_t runs = 0; g_trail.clear(); if (complete) *complete = true;
  for (;;) {
    std::string name;
    for (size_t i = 0; i < g_trail.size(); ++i) if (g_trail[i].taken) name += std::to_string(i) + ":" + std::to_string(g_trail[i].taken) + " ";
    g_exploring = true; g_budget = delays; g_used = 0; g_pos = 0;
    fn(name.empty() ? std::string("default") : name);
    g_exploring = false; ++runs;
    g_trail.resize(g_pos);
    while (!g_trail.empty() && g_trail.back().taken + 1 >= g_trail.back().alternatives) g_trail.pop_back();
    if (g_trail.empty()) return runs;
    ++g_trail.back().taken;
    if (runs >= limit) { if (complete) *complete = false; g_trail.clear(); return runs; }
  }
}

// ---- race detection ----------------------------------------------------------
struct Cell { uint64_t key; uint32_t gen; uint32_t wclk; uint8_t wtid, wmask, freed; uint8_t rmask[kMaxT]; uint32_t rclk[kMaxT]; };
static Cell* g_tab = nullptr; static size_t g_cap = 0, g_cnt = 0; static uint32_t g_tabgen = 0;
static std::map<std::pair<void*, int>, std::string> g_races;


static void* raw(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p; }
static Cell* cell(uint64_t key, bool make) {
  if (!g_tab) { g_cap = 1 << 16; g_tab = (Cell*)raw(g_cap * sizeof(Cell)); }
  if (g_tabgen != g_gen) { g_tabgen = g_gen; g_cnt = 0; }
  if (make && g_cnt * 2 > g_cap) {
    Cell* o = g_tab; size_t oc = g_cap; g_cap *= 2; g_tab = (Cell*)raw(g_cap * sizeof(Cell));
    for (size_t i = 0; i < oc; ++i) if (o[i].gen == g_gen) {
      size_t j = (o[i].key * 0x9e3779b97f4a7c15ull >> 20) & (g_cap - 1);
      while (g_tab[j].gen == g_gen) j = (j + 1) & (g_cap - 1);
      g_tab[j] = o[i];
    }
    munmap(o, oc * sizeof(Cell));
  }
  size_t j = (key * 0x9e3779b97f4a7c15ull >> 20) & (g_cap - 1);
  while (g_tab[j].gen == g_gen) { if (g_tab[j].key == key) return &g_tab[j]; j = (j + 1) & (g_cap - 1); }
  if (!make) return nullptr;
  memset(&g_tab[j], 0, sizeof(Cell)); g_tab[j].key = key; g_tab[j].gen = g_gen; ++g_cnt;
  return &g_tab[j];
}
extern "C" char __executable_start;
static void race(const char* kind, void* pc, uint64_t a, int other) {
  if (g_races.size() > 20 || g_races.count({pc, 0})) return;
  char b[200]; snprintf(b, sizeof b, "%s by thread %d at code %p conflicts with thread %d", kind, g_cur, (void*)((char*)pc - &__executable_start), other);
  g_races[{pc, 0}] = b; (void)a;
}
static void access1(uint64_t key, uint8_t mask, bool w, void* pc) {
  Cell* c = cell(key, true);
  int me = g_cur; uint32_t* vc = T[me].vc;
  if (c->freed & mask) race(w ? "write of freed memory" : "read of freed memory", pc, key << 3, c->wtid);
  if (c->wmask & mask && c->wtid != me && c->wclk > vc[c->wtid]) race(w ? "write/write" : "read of written byte", pc, key << 3, c->wtid);
  if (w) {
    for (int t = 0; t < g_n; ++t)
      if (t != me && (c->rmask[t] & mask) && c->rclk[t] > vc[t]) race("write of read byte", pc, key << 3, t);
    if (c->wtid == me && c->wclk == vc[me]) c->wmask |= mask; else { c->wtid = me; c->wclk = vc[me]; c->wmask = mask; }
  } else {
    if (c->rclk[me] == vc[me]) c->rmask[me] |= mask; else { c->rclk[me] = vc[me]; c->rmask[me] = mask; }
  }
}
static void access(void* p, size_t n, bool w, void* pc) {
  if (!g_track || g_busy) return;
  g_busy = true; ++stats.accesses;
  uint64_t a = (uint64_t)p, e = a + n;
  // a thread's own stack cannot be shared while unmentioned; still tracked
  while (a < e) {
    uint64_t k = a >> 3, o = a & 7, l = 8 - o < e - a ? 8 - o : e - a;
    access1(k, (uint8_t)(((1u << l) - 1) << o), w, pc); a += l;
  }
  g_busy = false;
}
static void forget(void* p, size_t n) {
  if (!g_track || g_busy || !g_tab) return;
  for (uint64_t k = (uint64_t)p >> 3; k <= ((uint64_t)p + n - 1) >> 3; ++k)
    if (Cell* c = cell(k, false)) { c->wmask = c->freed = 0; memset(c->rmask, 0, sizeof c->rmask); }
}
extern "C" { void __real_free(void*); void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); }
static void release_memory(void* p) {
  if (!p) return;
  if (!g_track || g_busy || !g_quarantine) { __real_free(p); return; }
  g_busy = true; size_t n = malloc_usable_size(p); if (n > 4096) n = 4096;
  for (uint64_t k = (uint64_t)p >> 3; k < ((uint64_t)p + n) >> 3; ++k) {  // freeing conflicts with unordered accesses like a write
    access1(k, 0xff, true, __builtin_return_address(0)); cell(k, true)->freed = 0xff; }
  if (!g_held) g_held = new std::vector<void*>; g_held->push_back(p); g_busy = false;
}
struct Sync { uint32_t gen; uint32_t vc[kMaxT]; };
static std::unordered_map<uint64_t, Sync>& syncs() { static auto* m = new std::unordered_map<uint64_t, Sync>; return *m; }
static void acquire(void* p) {
  if (!g_track) return;
  g_busy = true;
  auto it = syncs().find((uint64_t)p);
  if (it != syncs().end() && it->second.gen == g_gen) for (int i = 0; i < g_n; ++i) if (it->second.vc[i] > T[g_cur].vc[i]) T[g_cur].vc[i] = it->second.vc[i];
  g_busy = false;
}
static void release(void* p) {
  if (!g_track) return;
  g_busy = true;
  Sync& s = syncs()[(uint64_t)p];
  if (s.gen != g_gen) { s = Sync(); s.gen = g_gen; }
  for (int i = 0; i < g_n; ++i) if (T[g_cur].vc[i] > s.vc[i]) s.vc[i] = T[g_cur].vc[i];
  ++T[g_cur].vc[g_cur];
  g_busy = false;
}
std::vector<std::string> take_races() {
  std::vector<std::string> v; for (auto& r : g_races) v.push_back(r.second);
  g_races.clear(); return v;
}
static void put(std::string& o, const std::string& s) { uint64_t n = s.size(); o.append((char*)&n, 8); o += s; }
static std::string get(const std::string& o, size_t& at) { uint64_t n; memcpy(&n, o.data() + at, 8); at += 8; std::string s = o.substr(at, n); at += n; return s; }
bool in_child(const std::function<std::string()>& fn, std::string* result) {
  int fd[2]; if (pipe(fd)) abort();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); g_races.clear();
    std::string o, r = fn();
    put(o, r); uint64_t pos = g_pos, used = (uint64_t)g_used; o.append((char*)&pos, 8); o.append((char*)&used, 8);
    put(o, std::string((char*)g_trail.data(), g_trail.size() * sizeof(Choice))); o.append((char*)&stats, sizeof stats);
    for (auto& x : g_races) { o.append((char*)&x.first.first, 8); put(o, x.second); }
    for (size_t k = 0; k < o.size();) { ssize_t w = write(fd[1], o.data() + k, o.size() - k); if (w <= 0) _exit(3); k += (size_t)w; }
    _exit(0);
  }
  close(fd[1]); std::string o; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, (size_t)n); close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return false;
  size_t at = 0; *result = get(o, at); uint64_t v; memcpy(&v, o.data() + at, 8); g_pos = v; memcpy(&v, o.data() + at + 8, 8); g_used = (int)v; at += 16;
  std::string t = get(o, at); g_trail.resize(t.size() / sizeof(Choice)); memcpy(g_trail.data(), t.data(), t.size());
  memcpy(&stats, o.data() + at, sizeof stats); at += sizeof stats;
  while (at < o.size()) { void* pc; memcpy(&pc, o.data() + at, 8); at += 8; g_races[{pc, 0}] = get(o, at); }
  return true;
}
// A point where another thread may run (only interesting when exploring).
static void point() { if (g_track && g_exploring) yield_to_sched(); }
static void before_atomic(void* p, int mo, bool rd) { (void)p; (void)mo; (void)rd; point(); }
static void at_op(void* p, int mo, bool rd, bool wr) { if (mo == __ATOMIC_RELAXED) return; if (rd && mo != __ATOMIC_RELEASE) acquire(p); if (wr && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(p); }
}  // namespace omc
using namespace omc;

// ---- libgomp interface -------------------------------------------------------
extern "C" {
int omp_get_max_threads() { return g_threads; }
void omp_set_num_threads(int n) { set_threads(n); }
int omp_get_num_threads() { return g_nest ? 1 : g_n; }
int omp_get_thread_num() { return g_nest ? 0 : g_cur; }
int omp_in_parallel() { return g_in; }
int omp_get_num_procs() { return g_threads; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned nt, unsigned) { run_team(fn, d, nt ? (int)nt : g_threads); }
void GOMP_barrier() { if (!g_in || g_nest) return; T[g_cur].waiting = true; yield_to_sched(); }
static bool dyn_next(long* s, long* e) {
  if (g_nest && !g_loop.live) return false;
  if (g_in && !g_nest) point();
  if (g_loop.incr > 0 ? g_loop.next >= g_loop.end : g_loop.next <= g_loop.end) return false;
  *s = g_loop.next; long x = *s + g_loop.chunk * g_loop.incr;
  if (g_loop.incr > 0 ? x > g_loop.end : x < g_loop.end) x = g_loop.end;
  *e = x; g_loop.next = x; return true;
}
static void dyn_init(long s, long e, long i, long c) { g_loop.next = s; g_loop.end = e; g_loop.incr = i; g_loop.chunk = c; g_loop.live = true; g_loop.left = g_n; }
static bool dyn_start(long s, long e, long i, long c, long* ps, long* pe) {
  if (g_nest || !g_in || !g_loop.live) dyn_init(s, e, i, c);
  return dyn_next(ps, pe);
}
static void dyn_end() { if (g_in && !g_nest && --g_loop.left == 0) g_loop.live = false; }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* ps, long* pe) { return dyn_start(s, e, i, c, ps, pe); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* ps, long* pe) { return dyn_start(s, e, i, c, ps, pe); }
bool GOMP_loop_dynamic_next(long* ps, long* pe) { return dyn_next(ps, pe); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* ps, long* pe) { return dyn_next(ps, pe); }
typedef unsigned long long ull;
bool GOMP_loop_ull_dynamic_start(bool, ull s, ull e, ull i, ull c, ull* ps, ull* pe) { return dyn_start(s, e, i, c, (long*)ps, (long*)pe); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool, ull s, ull e, ull i, ull c, ull* ps, ull* pe) { return dyn_start(s, e, i, c, (long*)ps, (long*)pe); }
bool GOMP_loop_ull_dynamic_next(ull* ps, ull* pe) { return dyn_next((long*)ps, (long*)pe); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull* ps, ull* pe) { return dyn_next((long*)ps, (long*)pe); }
void GOMP_loop_end_nowait() { dyn_end(); }
void GOMP_loop_end() { dyn_end(); GOMP_barrier(); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) {
  struct A { void (*fn)(void*); void* d; long s, e, i, c; } a{fn, d, s, e, i, c};
  struct L { static void go(void* p) { A* a = (A*)p; if (g_nest || !g_in || !g_loop.live) dyn_init(a->s, a->e, a->i, a->c); a->fn(a->d); } };
  Loop saved = g_loop; run_team(&L::go, &a, nt ? (int)nt : g_threads); g_loop = saved;
}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, c, f); }
void GOMP_critical_start() { acquire((void*)8); }
void GOMP_critical_end() { release((void*)8); }
void GOMP_atomic_start() { acquire((void*)16); }
void GOMP_atomic_end() { release((void*)16); }
bool GOMP_single_start() { return g_nest || g_cur == 0; }

}

// ---- absl::Mutex ----------------------------------------------------------------
namespace omc {
struct Mu { int writer = -1, readers = 0; bool outside = false; };
static std::unordered_map<const void*, Mu>& mus() { static auto* m = new std::unordered_map<const void*, Mu>; return *m; }
void here() { point(); }
static bool try_lock(const void* m, bool w) { bool t = g_busy; g_busy = true; Mu& u = mus()[m]; bool ok = u.writer < 0 && (!w || u.readers == 0); if (ok) { if (w) u.writer = g_in ? g_cur : 99; else ++u.readers; } g_busy = t; return ok; }
static void lock(const void* m, bool w) {
  if (g_in) point();
  while (!try_lock(m, w)) { if (!g_in) { fprintf(stderr, "deadlock: a mutex is locked twice\n"); abort(); } T[g_cur].blocked = m; yield_to_sched(); }
  if (g_in) acquire((void*)m);
}
static void unlock(const void* m, bool w) {
  if (g_in) release((void*)m);
  bool t = g_busy; g_busy = true; Mu& u = mus()[m];
  if (w ? u.writer < 0 : u.readers <= 0) { fprintf(stderr, "unlock of an unlocked mutex\n"); abort(); }
  if (w) u.writer = -1; else --u.readers; if (u.writer < 0 && !u.readers) mus().erase(m);
  if (g_in) for (int i = 0; i < g_n; ++i) if (T[i].blocked == m) T[i].blocked = nullptr;
  g_busy = t; if (g_in) point();
}
}  // namespace omc
namespace absl { ABSL_NAMESPACE_BEGIN
Mutex::~Mutex() {}
void Mutex::Lock() { lock(this, true); }
void Mutex::Unlock() { unlock(this, true); }
bool Mutex::TryLock() { point(); if (!try_lock(this, true)) return false; acquire(this); return true; }
void Mutex::ReaderLock() { lock(this, false); }
void Mutex::ReaderUnlock() { unlock(this, false); }
bool Mutex::ReaderTryLock() { point(); if (!try_lock(this, false)) return false; acquire(this); return true; }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
void Mutex::AssertNotHeld() const {}
ABSL_NAMESPACE_END }
extern "C" {

// ---- static initialisation guards (one OS thread) ------------------------------
int __cxa_guard_acquire(long long int* g) { if (*(char*)g) { acquire(g); return 0; } return 1; }
void __cxa_guard_release(long long int* g) { *(char*)g = 1; release(g); }
void __cxa_guard_abort(long long int*) {}

// ---- compiler hooks ------------------------------------------------------------
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
// linked with -Wl,--wrap: these move memory the compiler does not instrument
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && g_track && !g_busy) { access((void*)s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && g_track && !g_busy) { access((void*)s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { if (n && g_track && !g_busy) access(d, n, true, PC); return __real_memset(d, v, n); }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && n) forget(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p && a * b) forget(p, a * b); return p; }
void* __wrap_realloc(void* q, size_t n) {
  size_t old = q ? malloc_usable_size(q) : 0; void* p = __real_realloc(q, n);
  if (p && n) { if (p != q) forget(p, n); else if (n > old) forget((char*)p + old, n - old); }
  return p;
}
int __wrap_posix_memalign(void** q, size_t a, size_t n) { int r = __real_posix_memalign(q, a, n); if (!r && n) forget(*q, n); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); if (p && n) forget(p, n); return p; }
void __wrap_free(void* p) { release_memory(p); }
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define ATOM(B, Ty) \
  Ty __tsan_atomic##B##_load(const volatile Ty* a, int mo) { before_atomic((void*)a, mo, true); Ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_op((void*)a, mo, true, false); return v; } \
  void __tsan_atomic##B##_store(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, false); at_op((void*)a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_exchange(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_fetch_add(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_fetch_sub(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_fetch_and(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_fetch_or(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_fetch_xor(volatile Ty* a, Ty v, int mo) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile Ty* a, Ty* e, Ty v, int mo, int) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile Ty* a, Ty* e, Ty v, int mo, int) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty* a, Ty e, Ty v, int mo, int) { before_atomic((void*)a, mo, true); at_op((void*)a, mo, true, true); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// GMP (a shared library) allocates through these too.
extern "C" void __gmp_set_memory_functions(void* (*)(size_t), void* (*)(void*, size_t, size_t), void (*)(void*, size_t)) __attribute__((weak));
static int g_gmp = [] {
  if (__gmp_set_memory_functions) __gmp_set_memory_functions([](size_t n) { return malloc(n); }, [](void* p, size_t, size_t n) { return realloc(p, n); }, [](void* p, size_t) { free(p); });
  return 0;
}();
// Memory handed out inside a region starts with no access history.
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n ? n : 1); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) forget(p, n ? n : 1); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); forget(p, n ? n : 1); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { release_memory(p); }
void operator delete[](void* p) noexcept { release_memory(p); }
void operator delete(void* p, size_t) noexcept { release_memory(p); }
void operator delete[](void* p, size_t) noexcept { release_memory(p); }
void operator delete(void* p, std::align_val_t) noexcept { release_memory(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release_memory(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release_memory(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release_memory(p); }
