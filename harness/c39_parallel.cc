// C39: the chunking helpers hand out every element exactly once, in the chunk
// the callback is told about.
#include <functional>

#include "mc/mc.h"
#include "tachyon/base/parallelize.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::base;
#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 7, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif
struct Rec { size_t off, len, idx, cs; };
constexpr size_t kNo = ~size_t(0);

// Checks that the recorded chunks are exactly ceil(n / cs) chunks of cs (the last one shorter).
bool Exact(std::vector<Rec> v, size_t n, size_t cs, int args, bool span) {
  if (cs == 0) return v.empty();
  size_t k = (n + cs - 1) / cs; if (v.size() != k) return false;
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::tie(a.off, a.idx, b.len) < std::tie(b.off, b.idx, a.len); });
  for (size_t i = 0; i < k; ++i) {
    size_t len = std::min(cs, n - i * cs);
    if (span && v[i].off != i * cs) return false;
    if (args >= 2 && v[i].idx != i) return false;
    if (args >= 3 && v[i].cs != cs) return false;
    if ((span || args >= 2) && v[i].len != len) return false;
  }
  if (!span && args == 1) { size_t s = 0, f = 0; for (auto& r : v) { s += r.len; f += r.len == cs; } return s == n && f >= k - (n % cs != 0); }
  return true;
}
// Checks that the chunks partition the range and that index * size is the offset.
bool Partition(std::vector<Rec> v, size_t n, int args, bool span) {
  size_t s = 0; for (auto& r : v) s += r.len;
  if (s != n) return false;
  if (args < 3 || !v.size()) { if (!span) return true; }
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::tie(a.off, a.idx) < std::tie(b.off, b.idx); });
  size_t pos = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (span && v[i].off != pos) return false;
    if (args >= 2 && v[i].idx != i) return false;
    if (args >= 3 && v[i].idx * v[i].cs != pos) return false;
    pos += v[i].len;
  }
  return true;
}
template <typename Span, typename Cont> void Containers(mc::Ctx& c, Cont& a, size_t n, const std::string& where0) {
  std::vector<Rec> got; auto base = a.data();
  auto f1 = [&](Span s) { got.push_back({size_t(s.data() - base), s.size(), kNo, kNo}); };
  auto f2 = [&](Span s, size_t i) { got.push_back({size_t(s.data() - base), s.size(), i, kNo}); };
  auto f3 = [&](Span s, size_t i, size_t cs) { got.push_back({size_t(s.data() - base), s.size(), i, cs}); };
  auto m1 = [&](Span s) { f1(s); return 1000 + s.size(); };
  auto m2 = [&](Span s, size_t i) { f2(s, i); return 1000 + i; };
  auto m3 = [&](Span s, size_t i, size_t cs) { f3(s, i, cs); return 1000 + i * 50 + cs; };
  std::string where = where0;
#define CK(cond, key) do { c.step(); MC_CHECK(c, (cond), key, where); got.clear(); } while (0)
  for (size_t cs = 0; cs <= n + 2; ++cs) {
    where = where0 + " chunk " + std::to_string(cs);
    ParallelizeByChunkSize(a, cs, f1); CK(Exact(got, n, cs, 1, true), "chunks-1");
    ParallelizeByChunkSize(a, cs, f2); CK(Exact(got, n, cs, 2, true), "chunks-2");
    ParallelizeByChunkSize(a, cs, f3); CK(Exact(got, n, cs, 3, true), "chunks-3");
    DynamicParallelizeByChunkSize(a, cs, f1); CK(Exact(got, n, cs, 1, true), "dynamic-1");
    DynamicParallelizeByChunkSize(a, cs, f2); CK(Exact(got, n, cs, 2, true), "dynamic-2");
    DynamicParallelizeByChunkSize(a, cs, f3); CK(Exact(got, n, cs, 3, true), "dynamic-3");
    auto r1 = ParallelizeMapByChunkSize(a, cs, m1); bool ok = Exact(got, n, cs, 1, true) && r1.size() == (cs ? (n + cs - 1) / cs : 0); for (size_t i = 0; i < r1.size(); ++i) ok &= r1[i] == 1000 + std::min(cs, n - i * cs); CK(ok, "map-1");
    auto r2 = ParallelizeMapByChunkSize(a, cs, m2); ok = Exact(got, n, cs, 2, true) && r2.size() == r1.size(); for (size_t i = 0; i < r2.size(); ++i) ok &= r2[i] == 1000 + i; CK(ok, "map-2");
    auto r3 = ParallelizeMapByChunkSize(a, cs, m3); ok = Exact(got, n, cs, 3, true) && r3.size() == r1.size(); for (size_t i = 0; i < r3.size(); ++i) ok &= r3[i] == 1000 + i * 50 + cs; CK(ok, "map-3");
  }
  for (int th = -1; th <= int(n) + 1; ++th) {
    std::optional<size_t> t; if (th >= 0) t = th;
    where = where0 + " threshold " + std::to_string(th);
    Parallelize(a, f1, t); CK(Partition(got, n, 1, true), "parallelize-1");
    Parallelize(a, f2, t); CK(Partition(got, n, 2, true), "parallelize-2");
    Parallelize(a, f3, t); CK(Partition(got, n, 3, true), "parallelize-3");
    auto r1 = ParallelizeMap(a, m1, t); size_t s = 0; for (auto x : r1) s += x - 1000; CK(Partition(got, n, 1, true) && s == n, "parallelize-map-1");
    auto r2 = ParallelizeMap(a, m2, t); bool ok = Partition(got, n, 2, true) && r2.size() == r1.size(); for (size_t i = 0; i < r2.size(); ++i) ok &= r2[i] == 1000 + i; CK(ok, "parallelize-map-2");
    auto r3 = ParallelizeMap(a, m3, t); ok = Partition(got, n, 3, true) && r3.size() == r1.size(); CK(ok, "parallelize-map-3");
  }
}
void Sizes(mc::Ctx& c, size_t n, const std::string& where0) {
  std::vector<Rec> got; std::string where = where0;
  auto f1 = [&](size_t l) { got.push_back({0, l, kNo, kNo}); };
  auto f2 = [&](size_t l, size_t i) { got.push_back({i, l, i, kNo}); };
  auto f3 = [&](size_t l, size_t i, size_t cs) { got.push_back({i, l, i, cs}); };
  auto m2 = [&](size_t l, size_t i) { f2(l, i); return 1000 + i * 50 + l; };
  auto m1 = [&](size_t l) { f1(l); return 1000 + l; };
  auto m3 = [&](size_t l, size_t i, size_t cs) { f3(l, i, cs); return 1000 + i * 50 + cs; };
  for (size_t cs = 0; cs <= n + 2; ++cs) {
    where = where0 + " chunk " + std::to_string(cs);
    ParallelizeByChunkSize(n, cs, f1); CK(Exact(got, n, cs, 1, false), "size-chunks-1");
    ParallelizeByChunkSize(n, cs, f2); CK(Exact(got, n, cs, 2, false), "size-chunks-2");
    ParallelizeByChunkSize(n, cs, f3); CK(Exact(got, n, cs, 3, false), "size-chunks-3");
    DynamicParallelizeByChunkSize(n, cs, f1); CK(Exact(got, n, cs, 1, false), "size-dynamic-1");
    DynamicParallelizeByChunkSize(n, cs, f2); CK(Exact(got, n, cs, 2, false), "size-dynamic-2");
    DynamicParallelizeByChunkSize(n, cs, f3); CK(Exact(got, n, cs, 3, false), "size-dynamic-3");
    auto r1 = ParallelizeMapByChunkSize(n, cs, m1); bool ok = Exact(got, n, cs, 1, false); for (size_t i = 0; i < r1.size(); ++i) ok &= r1[i] == 1000 + std::min(cs, n - i * cs); CK(ok, "size-map-1");
    auto r2 = ParallelizeMapByChunkSize(n, cs, m2); ok = Exact(got, n, cs, 2, false); for (size_t i = 0; i < r2.size(); ++i) ok &= r2[i] == 1000 + i * 50 + std::min(cs, n - i * cs); CK(ok, "size-map-2");
    auto r3 = ParallelizeMapByChunkSize(n, cs, m3); ok = Exact(got, n, cs, 3, false); for (size_t i = 0; i < r3.size(); ++i) ok &= r3[i] == 1000 + i * 50 + cs; CK(ok, "size-map-3");
  }
  for (int th = -1; th <= int(n) + 1; ++th) {
    std::optional<size_t> t; if (th >= 0) t = th;
    where = where0 + " threshold " + std::to_string(th);
    Parallelize(n, f1, t); CK(Partition(got, n, 1, false), "size-parallelize-1");
    Parallelize(n, f2, t); CK(Partition(got, n, 2, false), "size-parallelize-2");
    Parallelize(n, f3, t); CK(Partition(got, n, 3, false), "size-parallelize-3");
    auto r2 = ParallelizeMap(n, m2, t); bool ok = Partition(got, n, 2, false); size_t s = 0; for (size_t i = 0; i < r2.size(); ++i) { ok &= r2[i] >= 1000 + i * 50; s += r2[i] - 1000 - i * 50; } CK(ok && s == n, "size-parallelize-map");
  }
}
void FillResize(mc::Ctx& c, size_t n, const std::string& where0) {
  std::vector<Rec> got; std::string where = where0;
  for (int th = -1; th < 3; ++th) {
    std::optional<size_t> t; if (th >= 0) t = th * 5;
    std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = 100 + int(i);
    auto x = v; ParallelizeFill(x, 7, t); CK(x == std::vector<int>(n, 7), "fill");
    for (size_t m = 0; m <= n + 9; ++m) for (size_t cap : {size_t(0), n, n + 1, n + 4, n + 40}) {
      where = where0 + " to " + std::to_string(m) + " capacity " + std::to_string(cap);
      auto want = v; want.resize(m, 0); auto wantv = v; wantv.resize(m, 9);
      std::vector<int> y; y.reserve(cap); y = v; if (cap) y.reserve(cap);
      auto z = std::vector<int>(); z.reserve(cap); z.insert(z.end(), v.begin(), v.end());
      if (m >= n) { ParallelizeResize(y, m, t); CK(y == want, "resize"); }
      if (m >= n) { ParallelizeResize(z, m, 9, t); CK(z == wantv, "resize-value"); }
      if (m < n) {
        CK(!mc::dies([&] { auto q = v; q.reserve(cap); ParallelizeResize(q, m, t); if (q != want) abort(); }), "resize-down");
        CK(!mc::dies([&] { auto q = v; q.reserve(cap); ParallelizeResize(q, m, 9, t); if (q != wantv) abort(); }), "resize-value-down");
      }
    }
  }
}
MC_SECTION(chunks, 4) {
  size_t i = 0;
  for (int t : kTeams) for (size_t n = 0; n <= (c.thorough ? 40u : 20u); ++n) {
    if (!c.mine(i++)) continue;
    Team(t); c.trace(); c.states(1);
    std::string where = "team " + std::to_string(t) + " n " + std::to_string(n);
    std::vector<int> v(n, 1); Containers<absl::Span<int>>(c, v, n, where + " vector");
    Containers<absl::Span<const int>>(c, v, n, where + " const");
    absl::Span<int> s(v); Containers<absl::Span<int>>(c, s, n, where + " span");
    Sizes(c, n, where);
  }
}
MC_SECTION(fill_resize, 4) {
  size_t i = 0;
  for (int t : kTeams) for (size_t n = 0; n <= 9; ++n) { if (!c.mine(i++)) continue; Team(t); c.trace(); c.states(1); FillResize(c, n, "team " + std::to_string(t) + " n " + std::to_string(n)); }
}
}  // namespace
