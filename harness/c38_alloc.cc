// C38: the tracking allocator against a ledger: every history of operations on
// one thread, and every schedule of two and three threads sharing a tracker.
#include <map>
#include <memory>
#include <set>

#include "mc/mc.h"
#include "mc/omp_rt.h"
#include "tachyon/device/allocator_registry.h"
#include "tachyon/device/tracking_allocator.h"

namespace {
using namespace tachyon::device;
enum Mode { kUnderlying, kLocal, kLocalSlow, kNone };  // who tracks sizes
const char* kModes[] = {"underlying allocator tracks", "tracked locally", "tracked locally, underlying knows slowly", "not tracked"};

// Hands out slots of an arena, reusing the most recently freed one first.
#define QUIET __attribute__((no_sanitize("thread"))) __attribute__((noinline))
struct Arena : Allocator {  // QUIET: stands for an allocator that is safe on its own
  Mode mode; char mem[1024]; int free_slots[16], nfree = 0; size_t req[16] = {}; bool live[16] = {}; int n = 0, bad = 0; int64_t id = 0; int64_t ids[16] = {};
  explicit Arena(Mode m) : mode(m) { for (int i = 15; i >= 0; --i) free_slots[nfree++] = i; }
  std::string Name() override { return "arena"; }
  QUIET int slot(const void* p) const { return int(((const char*)p - mem) / 64); }
  static size_t up(size_t n) { return (n + 7) / 8 * 8; }
  QUIET void* AllocateRaw(size_t, size_t num_bytes) override {
    omc::here();
    if (num_bytes == 999 || nfree == 0) return nullptr;
    int s = free_slots[--nfree]; live[s] = true; req[s] = num_bytes; ids[s] = ++id; ++n;
    omc::here();
    return mem + s * 64;
  }
  QUIET void DeallocateRaw(void* p) override {
    omc::here();
    int s = slot(p); if (p < mem || p >= mem + sizeof mem || !live[s]) { ++bad; return; }
    live[s] = false; free_slots[nfree++] = s;
    omc::here();
  }
  bool TracksAllocationSizes() const override { return mode == kUnderlying; }
  QUIET size_t RequestedSize(const void* p) const override { return live[slot(p)] ? req[slot(p)] : 77777; }
  QUIET size_t AllocatedSize(const void* p) const override { return live[slot(p)] ? up(req[slot(p)]) : 77777; }
  QUIET int64_t AllocationId(const void* p) const override { return ids[slot(p)]; }
  QUIET size_t AllocatedSizeSlow(const void* p) const override { return mode == kLocalSlow || mode == kUnderlying ? AllocatedSize(p) : 0; }
  AllocatorMemoryType GetMemoryType() const override { return AllocatorMemoryType::kHostPinned; }
  int live_count() const { int k = 0; for (bool b : live) k += b; return k; }
};
size_t Counted(Mode m, size_t n) { return m == kLocal || m == kNone ? n : Arena::up(n); }
int g_deleted;
struct Tracker : TrackingAllocator {
  Tracker(Allocator* a, Mode m) : TrackingAllocator(a, m == kLocal || m == kLocalSlow || m == kUnderlying) {}
  ~Tracker() override { ++g_deleted; }
};
// The ledger.
struct Ledger {
  Mode m; size_t total = 0, high = 0, now = 0; std::vector<int64_t> records; int refs = 1; bool owned = true;
  void alloc(size_t n) { size_t k = Counted(m, n); total += k; records.push_back(int64_t(k)); ++refs; if (m != kNone) { now += k; high = std::max(high, now); } }
  void dealloc(size_t n) { if (m != kNone) { size_t k = Counted(m, n); now -= k; records.push_back(-int64_t(k)); } --refs; }
};
std::vector<int64_t> Bytes(const absl::InlinedVector<AllocRecord, 4>& v) { std::vector<int64_t> r; for (auto& x : v) r.push_back(x.alloc_bytes); return r; }
constexpr size_t kSizes[] = {1, 13, 64};

// One history: ops 0..2 allocate, 3 fails, 4..6 free the oldest / newest / second, 7 frees null, 8 gives up ownership.
bool History(mc::Ctx& c, Mode m, const std::vector<int>& ops, bool attrs) {
  Arena a(m); Ledger l{m}; g_deleted = 0; Tracker* t = new Tracker(&a, m);
  std::vector<std::pair<void*, size_t>> held; std::set<int64_t> ids; std::string what = std::string(kModes[m]) + " ops " + mc::vstr(ops);
  auto check = [&] {
    c.step();
    MC_CHECK(c, g_deleted == (l.refs == 0), "released-exactly-once", what << ": " << g_deleted << " releases with " << l.refs << " references");
    if (l.refs == 0) return;
    if (l.owned) {
      auto [total, high, now] = t->GetSizes();
      MC_CHECK(c, total == l.total && high == l.high && now == l.now, "sizes", what << ": " << total << " " << high << " " << now << " instead of " << l.total << " " << l.high << " " << l.now);
      MC_CHECK(c, Bytes(t->GetCurrentRecords()) == l.records, "records", what);
      for (auto& [p, n] : held) if (m != kNone) MC_CHECK(c, t->RequestedSize(p) == n && t->AllocatedSize(p) == Counted(m, n) && t->AllocationId(p) != 0, "allocation-sizes", what << " size " << n << ": " << t->RequestedSize(p) << " " << t->AllocatedSize(p));
      std::set<int64_t> cur; for (auto& [p, n] : held) if (m != kNone) cur.insert(t->AllocationId(p));
      if (m != kNone) MC_CHECK(c, cur.size() == held.size(), "ids-unique", what);
    }
  };
  MC_CHECK(c, t->Name() == "arena" && t->TracksAllocationSizes() == (m != kNone) && t->GetMemoryType() == AllocatorMemoryType::kHostPinned && !t->GetStats(), "forwarded", what);
  check();
  for (int op : ops) {
    if (l.refs == 0) return false;
    if (op <= 3) {
      if (!l.owned) return false;  // no allocation after ownership is given up
      size_t n = op == 3 ? 999 : kSizes[op];
      void* p = attrs ? t->AllocateRaw(64, n, AllocationAttributes(false, true, nullptr)) : t->AllocateRaw(64, n);
      MC_CHECK(c, (p == nullptr) == (op == 3), "allocation-result", what);
      if (p) { l.alloc(n); held.push_back({p, n}); if (m != kNone) { int64_t id = t->AllocationId(p); MC_CHECK(c, id != 0 && ids.insert(id).second, "ids-unique", what << " id " << id); } }
    } else if (op <= 6) {
      size_t i = op == 4 ? 0 : op == 5 ? held.size() - 1 : 1;
      if (i >= held.size() || (op == 5 && held.size() < 2) || (op == 6 && held.size() < 3)) return false;
      auto h = held[i]; held.erase(held.begin() + i); l.dealloc(h.second); t->DeallocateRaw(h.first);
    } else if (op == 7) { t->DeallocateRaw(nullptr); }
    else {
      if (!l.owned) return false;
      l.owned = false; --l.refs; auto r = Bytes(t->GetRecordsAndUnRef());
      MC_CHECK(c, r == l.records, "final-records", what);
    }
    check();
    MC_CHECK(c, a.bad == 0 && a.live_count() == int(held.size()), "underlying-leak", what);
  }
  // the rest goes away in the end
  for (auto& h : held) { l.dealloc(h.second); t->DeallocateRaw(h.first); }
  if (l.owned) { --l.refs; t->GetRecordsAndUnRef(); }
  MC_CHECK(c, g_deleted == 1 && a.live_count() == 0 && a.bad == 0, "released-exactly-once", what << " in the end");
  return true;
}
void Histories(mc::Ctx& c, int depth) {
  for (int m = 0; m < 4; ++m) for (int n = 0; n <= depth; ++n) mc::tuples(n, 9, [&](const std::vector<int>& v) {
    if (!c.mine(mc::hash_bytes(v.data(), std::min<size_t>(v.size(), 3) * 4))) return;
    if (History(c, Mode(m), v, v.size() & 1)) { c.states(1); c.trace(1); }
  });
}
MC_SECTION(histories, 8) { Histories(c, c.thorough ? 7 : 6); }

// Threads sharing one tracker. A script is a list of steps:
// a/b/c allocate, f fails, - frees the thread's oldest, s reads sizes, r reads records, u gives up ownership
// (a thread frees what it still holds in the end).
struct Out { std::vector<int64_t> ids; std::vector<std::tuple<size_t, size_t, size_t>> sizes; std::vector<std::vector<int64_t>> recs; std::vector<int64_t> last; bool ok = true; };
void Threads(mc::Ctx& c, Mode m, const std::vector<std::string>& scripts, int delays, uint64_t limit) {
  std::string name = kModes[m]; for (auto& s : scripts) name += " | " + s;
  mc::at_s("scripts", name.c_str());
  size_t total = 0, peak = 0; int allocs = 0; std::multiset<int64_t> recs; bool unref = false;
  for (auto& s : scripts) { std::vector<size_t> held; size_t now = 0, hi = 0; for (char ch : s) { if (ch >= 'a' && ch <= 'c') { size_t n = Counted(m, kSizes[ch - 'a']); total += n; ++allocs; held.push_back(n); now += n; recs.insert(int64_t(n)); } if (ch == '-') { if (m != kNone) recs.insert(-int64_t(held[0])); now -= held[0]; held.erase(held.begin()); } if (ch == 'u') unref = true; hi = std::max(hi, now); } for (size_t n : held) if (m != kNone) recs.insert(-int64_t(n)); peak += hi; }
  omc::set_quarantine(true);
  bool complete = true;
  uint64_t runs = omc::explore(delays, [&](const std::string& sched) {
    Arena a(m); g_deleted = 0; Tracker* t = new Tracker(&a, m); std::vector<Out> out(scripts.size()); bool quarantine_ok = true; (void)quarantine_ok;
    omc::set_threads(int(scripts.size()));
    omc::parallel(int(scripts.size()), [&](int th) {
      Out& o = out[th]; std::vector<std::pair<void*, size_t>> held;
      for (char ch : scripts[th]) {
        if (ch >= 'a' && ch <= 'c') {
          size_t n = kSizes[ch - 'a']; void* p = t->AllocateRaw(64, n); if (!p) { o.ok = false; return; }
          held.push_back({p, n});
          if (m != kNone) { o.ids.push_back(t->AllocationId(p)); o.ok &= t->RequestedSize(p) == n && t->AllocatedSize(p) == Counted(m, n); }
        } else if (ch == 'f') { o.ok &= t->AllocateRaw(64, 999) == nullptr; }
        else if (ch == '-') { t->DeallocateRaw(held[0].first); held.erase(held.begin()); }
        else if (ch == 's') { o.sizes.push_back(t->GetSizes()); }
        else if (ch == 'r') { o.recs.push_back(Bytes(t->GetCurrentRecords())); }
        else if (ch == 'u') { o.last = Bytes(t->GetRecordsAndUnRef()); }
      }
      for (auto& h : held) t->DeallocateRaw(h.first);
    });
    c.trace(1); c.step(1); c.states(1);
    const std::string w = name + " schedule " + sched;
    auto races = omc::take_races(); MC_CHECK(c, races.empty(), "race", w << ": " << races[0]);
    for (auto& o : out) MC_CHECK(c, o.ok, "allocation-sizes", w);
    if (m != kNone) { std::set<int64_t> ids; size_t k = 0; for (auto& o : out) for (auto i : o.ids) { ids.insert(i); ++k; } MC_CHECK(c, ids.size() == k && !ids.count(0), "ids-unique", w); }
    for (auto& o : out) {
      for (auto& [tt, hi, now] : o.sizes) MC_CHECK(c, tt <= total && now <= hi && hi <= tt && hi <= (m == kNone ? 0 : peak), "sizes-seen", w << ": " << tt << " " << hi << " " << now);
      size_t pt = 0, ph = 0; for (auto& [tt, hi, now] : o.sizes) { (void)now; MC_CHECK(c, tt >= pt && hi >= ph, "sizes-monotonic", w); pt = tt; ph = hi; }
      // records are a history that never goes below zero
      auto sane = [&](const std::vector<int64_t>& v) { int64_t s = 0; for (auto x : v) { s += x; if (s < 0) return false; } return true; };
      for (auto& v : o.recs) MC_CHECK(c, sane(v), "records-seen", w << ": " << mc::vstr(v));
      MC_CHECK(c, sane(o.last), "records-seen", w << ": " << mc::vstr(o.last));
    }
    if (!unref) {
      MC_CHECK(c, g_deleted == 0, "released-exactly-once", w << ": released while owned");
      auto [tt, hi, now] = t->GetSizes();
      MC_CHECK(c, tt == total && now == 0 && (m == kNone ? hi == 0 : hi <= peak && (hi > 0 || total == 0)), "sizes-final", w << ": " << tt << " " << hi << " " << now << " total " << total);
      auto r = Bytes(t->GetCurrentRecords()); std::multiset<int64_t> got(r.begin(), r.end()); MC_CHECK(c, got == recs, "records-final", w << ": " << mc::vstr(r));
      int64_t s = 0, mx = 0; for (auto x : r) { s += x; mx = std::max(mx, s); } if (m != kNone) MC_CHECK(c, s == 0 && size_t(mx) == hi, "high-water", w << ": " << hi << " but the records reach " << mx);
      t->GetRecordsAndUnRef();
    }
    MC_CHECK(c, g_deleted == 1, "released-exactly-once", w << ": " << g_deleted << " releases");
    MC_CHECK(c, a.bad == 0 && a.live_count() == 0 && a.n == allocs, "underlying-leak", w);
  }, limit, &complete);
  omc::set_quarantine(false); omc::set_threads(1);
  if (c.want_sample()) c.sample(name + ": " + std::to_string(runs) + " schedules" + (complete ? "" : " (cut)"));
}
MC_SECTION(two_threads, 8) {
  uint64_t id = 0; const char* as[] = {"a", "b-", "ab--", "a-b", "cs", "f", "ba-r", "sas", "a-s-a"};
  const char* us[] = {"u", "au", "a-u", "aub", "bu"};
  for (int m = 0; m < 4; ++m) {
    for (auto* x : as) for (auto* y : as) { if (std::string(x).find("s-") != std::string::npos || std::string(y).find("s-") != std::string::npos) continue; if (c.mine(id++)) Threads(c, Mode(m), {x, y}, c.thorough ? 3 : 2, c.thorough ? 100000 : 1500); }
    // the owner may give up while the other thread only frees: the other allocates first, through a barrier of two runs
    (void)us;
  }
}
// Ownership is given up while other threads free: allocations happen before the region.
MC_SECTION(release, 8) {
  uint64_t id = 0;
  for (int m = 0; m < 4; ++m) for (int team = 2; team <= 3; ++team) for (int own = 0; own <= 1; ++own) for (int k0 = 0; k0 <= 2; ++k0) for (int k1 = 0; k1 <= 2; ++k1) for (int k2 = 0; k2 <= (team == 3 ? 2 : 0); ++k2) {
    if (!c.mine(id++)) continue;
    int k[3] = {k0, k1, k2}; std::string name = std::string(kModes[m]) + " frees " + std::to_string(k0) + "," + std::to_string(k1) + "," + std::to_string(k2) + (own ? ", thread 0 then gives up ownership" : ", thread 0 first gives up ownership");
    mc::at_s("release", name.c_str()); omc::set_quarantine(true);
    omc::explore(c.thorough ? 4 : 2, [&](const std::string& sched) {
      Arena a{Mode(m)}; g_deleted = 0; Tracker* t = new Tracker(&a, Mode(m)); std::vector<void*> p[3]; std::vector<int64_t> last;
      for (int th = 0; th < team; ++th) for (int i = 0; i < k[th]; ++i) p[th].push_back(t->AllocateRaw(64, kSizes[(th + i) % 3]));
      omc::set_threads(team);
      omc::parallel(team, [&](int th) {
        if (th == 0 && !own) last = Bytes(t->GetRecordsAndUnRef());
        for (void* q : p[th]) t->DeallocateRaw(q);
        if (th == 0 && own) last = Bytes(t->GetRecordsAndUnRef());
      });
      c.trace(1); c.step(1); c.states(1);
      auto races = omc::take_races(); MC_CHECK(c, races.empty(), "race", name << " schedule " << sched << ": " << races[0]);
      MC_CHECK(c, g_deleted == 1, "released-exactly-once", name << " schedule " << sched << ": " << g_deleted << " releases");
      MC_CHECK(c, a.bad == 0 && a.live_count() == 0, "underlying-leak", name << " schedule " << sched);
      int64_t s = 0; for (auto x : last) s += x; MC_CHECK(c, s >= 0 && last.size() >= size_t(k0 + k1 + k2), "final-records", name << " schedule " << sched << ": " << mc::vstr(last));
    }, c.thorough ? 200000 : 3000);
    omc::set_quarantine(false); omc::set_threads(1);
  }
}
MC_SECTION(three_threads, 8) {
  uint64_t id = 0; const char* as[] = {"a", "b-", "a-s", "cr-"};
  for (int m = 0; m < 4; ++m) for (auto* x : as) for (auto* y : as) for (auto* z : as) if (c.mine(id++)) Threads(c, Mode(m), {x, y, z}, c.thorough ? 3 : 1, c.thorough ? 50000 : 1500);
}
// The registry.
struct Fac : AllocatorFactory { bool numa; int tag; static inline int created[8]; static inline int subs[8][8];
  Fac(bool n, int t) : numa(n), tag(t) {}
  bool NumaEnabled() override { return numa; }
  Allocator* CreateAllocator() override { ++created[tag]; return new Arena(kNone); }
  struct Sub : SubAllocator { int tag, node; Sub(int t, int n) : SubAllocator({}, {}), tag(t), node(n) {} void* Alloc(size_t, size_t, size_t*) override { return nullptr; } void Free(void*, size_t) override {} bool SupportsCoalescing() const override { return false; } };
  SubAllocator* CreateSubAllocator(int node) override { ++subs[tag][node + 1]; return new Sub(tag, node); }
};
MC_SECTION(registry, 2) {
  // every list of up to 3 factories: priority 0..2 and NUMA awareness each
  for (int n = 1; n <= 3; ++n) mc::tuples(n, 6, [&](const std::vector<int>& v) {
    std::set<int> pr; for (int x : v) pr.insert(x % 3); if (int(pr.size()) < n) return;  // ties are unspecified
    AllocatorFactoryRegistry r; std::memset(Fac::created, 0, sizeof Fac::created); std::memset(Fac::subs, 0, sizeof Fac::subs);
    for (int i = 0; i < n; ++i) r.Register("f", i, "n" + std::to_string(i % 2), v[i] % 3, new Fac(v[i] >= 3, i));
    int best = 0; for (int i = 1; i < n; ++i) if (v[i] % 3 > v[best] % 3) best = i;
    int sb = 0; for (int i = 1; i < n; ++i) if (std::make_pair(v[i] >= 3, v[i] % 3) > std::make_pair(v[sb] >= 3, v[sb] % 3)) sb = i;
    Allocator* a = r.GetAllocator(); c.step(4); c.state(mc::hash_bytes(v.data(), v.size() * 4));
    MC_CHECK(c, a && a == r.GetAllocator() && Fac::created[best] == 1 && r.process_state() == nullptr, "best-allocator", mc::vstr(v));
    auto* s = static_cast<Fac::Sub*>(r.GetSubAllocator(-1)); auto* s0 = static_cast<Fac::Sub*>(r.GetSubAllocator(0));
    MC_CHECK(c, s->tag == sb && s->node == -1 && s0->tag == sb && s0->node == 0 && s != s0 && r.GetSubAllocator(-1) == s && r.GetSubAllocator(0) == s0 && Fac::subs[sb][0] == 1 && Fac::subs[sb][1] == 1, "best-sub-allocator", mc::vstr(v) << ": " << s->tag << " instead of " << sb);
    MC_CHECK(c, mc::dies([&] { r.Register("f", 9, "late", 1, new Fac(false, 7)); }), "late-registration", mc::vstr(v));
    AllocatorFactoryRegistry q; q.Register("f", 1, "n", 1, new Fac(false, 1));
    MC_CHECK(c, mc::dies([&] { q.Register("f", 2, "n", 1, new Fac(false, 2)); }) && mc::dies([&] { q.Register("f", 2, "", 1, new Fac(false, 2)); }) && mc::dies([&] { q.Register("f", 2, "n", -1, new Fac(false, 2)); }), "bad-registration", "duplicate, nameless or negative priority");
  });
  AllocatorFactoryRegistry e; MC_CHECK(c, mc::dies([&] { e.GetAllocator(); }), "empty-registry", "GetAllocator");
  // attributes
  for (int x = 0; x < 8; ++x) for (int y = 0; y < 8; ++y) {
    auto mk = [](int b) { AllocatorAttributes a; a.set_on_host(b & 1); a.set_nic_compatible(b & 2); a.set_gpu_compatible(b & 4); return a; };
    auto a = mk(x), b = mk(y); c.state(1000 + x * 8 + y); c.step(2);
    MC_CHECK(c, a.on_host() == bool(x & 1) && a.nic_compatible() == bool(x & 2) && a.gpu_compatible() == bool(x & 4) && a.IsEqualOrLessRestrictiveThan(b) == ((x & ~y) == 0), "attributes", x << "," << y);
    a.scope_id = y & 3; b.scope_id = x & 1 ? (y & 3) : 0; a.Merge(b); MC_CHECK(c, a.value == uint32_t(x | y) && a.scope_id == (y & 3), "attributes-merge", x << "," << y);
  }
  // a wrapper forwards
  Arena u(kUnderlying); AllocatorWrapper w(&u); void* p = w.AllocateRaw(64, 13);
  MC_CHECK(c, p && w.wrapped() == &u && w.Name() == "arena" && w.TracksAllocationSizes() && w.RequestedSize(p) == 13 && w.AllocatedSize(p) == 16 && w.AllocatedSizeSlow(p) == 16 && w.AllocationId(p) == 1 && w.GetMemoryType() == AllocatorMemoryType::kHostPinned && !w.AllocatesOpaqueHandle(), "wrapper", "AllocatorWrapper");
  w.DeallocateRaw(p); MC_CHECK(c, u.live_count() == 0 && u.bad == 0, "wrapper", "AllocatorWrapper::DeallocateRaw");
}
}  // namespace
