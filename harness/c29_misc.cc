// C29: views, container helpers, ownership wrappers, callbacks, scoped holders, ranges.
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "tachyon/base/auto_reset.h"
#include "tachyon/base/containers/adapters.h"
#include "tachyon/base/containers/container_util.h"
#include "tachyon/base/containers/contains.h"
#include "tachyon/base/containers/cxx20_erase.h"
#include "tachyon/base/functional/callback.h"
#include "tachyon/base/functional/function_ref.h"
#include "tachyon/base/functional/invoke.h"
#include "tachyon/base/functional/identity.h"
#include "tachyon/base/maybe_owned.h"
#include "tachyon/base/no_destructor.h"
#include "tachyon/base/random.h"
#include "tachyon/base/range.h"
#include "tachyon/base/ref.h"
#include "tachyon/base/scoped_generic.h"
#include "mc/mc.h"
using namespace tachyon::base;
using VI = std::vector<int>;
namespace {
std::string Str(const VI& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
void Vectors(int maxn, int k, const std::function<void(const VI&)>& f) { for (int n = 0; n <= maxn; ++n) mc::tuples(n, k, [&](const std::vector<int>& t) { f(t); }); }

template <typename C> void Views(mc::Ctx& c, const VI& v) {
  C cc(v.begin(), v.end()); const C& kc = cc; std::string w = Str(v); c.states(1); c.trace();
  for (size_t k = 1; k <= v.size() + 2; ++k) {
    auto test = [&](auto& con, const char* key) {
      mc::at("chunked", k, v.size()); c.step(); size_t pos = 0, cnt = 0; bool ok = true;
      auto ad = Chunked(con, k); auto ad2 = ad;
      for (auto chunk : ad2) { size_t want = std::min(k, v.size() - pos); ok = ok && chunk.size() == want && want; if (!ok || ++cnt > v.size()) break; for (auto x : chunk) ok = ok && x == v[pos++]; }
      ok = ok && pos == v.size();
      size_t n = (v.size() + k - 1) / k; ok = ok && (size_t)(ad.end() - ad.begin()) == n;
      auto it = ad.begin(); for (size_t i = 0; i < n && ok; ++i) { ok = (size_t)(ad.end() - it) == n - i && (size_t)(it - ad.begin()) == i && it != ad.end() && it->size() == std::min(k, v.size() - i * k); auto old = it++; ok = ok && (*old)[0] == v[i * k]; }
      MC_CHECK(c, ok && it == ad.end(), key, w + " by " + std::to_string(k));
    };
    test(cc, "chunked"); test(kc, "chunked_const");
  }
  { // writing through
    C m(v.begin(), v.end()); for (auto chunk : Chunked(m, 2)) for (auto& x : chunk) x += 10;
    bool ok = true; size_t i = 0; for (auto x : m) ok = ok && x == v[i++] + 10; MC_CHECK(c, ok, "chunked_write", w);
    i = 0; for (auto& x : Reversed(m)) x = i++; ok = true; i = v.size(); for (auto x : m) ok = ok && x == (int)--i; MC_CHECK(c, ok, "reversed_write", w);
  }
  { VI r; for (int x : Reversed(cc)) r.push_back(x); VI r2; for (int x : Reversed(kc)) r2.push_back(x); VI e(v.rbegin(), v.rend()); MC_CHECK(c, r == e && r2 == e, "reversed", w); }
  { VI u(v.rbegin(), v.rend()); size_t i = 0; bool ok = true; auto z = Zipped(cc, u); auto z2 = z;
    for (const auto& [a, b] : z2) { ok = ok && i < v.size() && a == v[i] && b == u[i]; if (++i > v.size()) break; }
    ok = ok && i == v.size() && (size_t)(z.end() - z.begin()) == v.size();
    auto it = z.begin(); for (i = 0; i < v.size() && ok; ++i) { ok = std::get<0>(*it) == v[i] && std::get<1>(*it) == u[i]; auto o = it++; ok = ok && o != it && std::get<0>(*o) == v[i]; }
    MC_CHECK(c, ok && it == z.end(), "zipped", w); }
}
template <typename C> void EraseSeq(mc::Ctx& c, const VI& v, const char* key) {
  for (int x = 0; x < 4; ++x) {
    VI e; size_t n = 0; for (int y : v) if (y == x) ++n; else e.push_back(y);
    C a(v.begin(), v.end()), b = a; size_t r = Erase(a, (typename C::value_type)x), s = EraseIf(b, [x](int y) { return y == x; });
    c.step(2); MC_CHECK(c, r == n && s == n && VI(a.begin(), a.end()) == e && VI(b.begin(), b.end()) == e, key, Str(v) + " - " + std::to_string(x));
  }
}
template <typename C> void EraseAssoc(mc::Ctx& c, const VI& v, const char* key) {
  auto val = [](const auto& e) { if constexpr (std::is_same_v<std::decay_t<decltype(e)>, int>) return e; else return e.first; };
  for (int mask = 0; mask < 8; ++mask) {
    C a; int i = 0; for (int x : v) { if constexpr (std::is_same_v<typename C::value_type, int>) a.insert(x); else a.insert({x, i++}); }
    std::multiset<int> before, left, got; for (auto& e : a) before.insert(val(e)); size_t n = 0; for (int x : before) if (mask >> x & 1) ++n; else left.insert(x);
    size_t r = EraseIf(a, [&](const auto& e) { return mask >> val(e) & 1; }); for (auto& e : a) got.insert(val(e));
    c.step(); MC_CHECK(c, r == n && got == left, key, Str(v) + " mask " + std::to_string(mask));
  }
}
template <typename C> void Find(mc::Ctx& c, const VI& v, const char* key) {
  C con(v.begin(), v.end()); VI cp(con.begin(), con.end()); std::string w = Str(cp);
  for (int x = 0; x < 4; ++x) {
    std::vector<size_t> all; for (size_t i = 0; i < cp.size(); ++i) if (cp[i] == x) all.push_back(i);
    std::optional<size_t> first; if (all.size()) first = all[0]; c.step(4);
    std::set<int> keep{x}; auto pred = [keep](int y) { return keep.count(y) > 0; };
    bool ok = FindIndex(con, x) == first && FindIndex(con.begin(), con.end(), x) == first && FindIndices(con, x) == all && FindIndices(con.begin(), con.end(), x) == all;
    ok = ok && FindIndexIf(con, pred) == first && FindIndicesIf(con, pred) == all;
    ok = ok && FindIndicesIf(con, [keep](int y) { return keep.count(y) > 0; }) == all && FindIndicesIf(con.begin(), con.end(), std::function<bool(int)>(pred)) == all;
    MC_CHECK(c, ok, key, w + " " + std::to_string(x));
    MC_CHECK(c, Contains(con, x) == !all.empty(), key, w + " contains " + std::to_string(x));
    MC_CHECK(c, Contains(con, x + 5, [](int y) { return y + 5; }) == !all.empty(), key, w + " contains proj " + std::to_string(x));
  }
}
void Util(mc::Ctx& c, const VI& v) {
  std::string w = Str(v);
  VI dbl; for (int x : v) dbl.push_back(x * 2 + 1); VI idx; for (size_t i = 0; i < v.size(); ++i) idx.push_back(v[i] * 100 + i);
  MC_CHECK(c, Map(v, [](int x) { return x * 2 + 1; }) == dbl && Map(v.begin(), v.end(), [](int x) { return x * 2 + 1; }) == dbl, "map", w);
  MC_CHECK(c, Map(v, [](size_t i, int x) { return x * 100 + (int)i; }) == idx && Map(v.begin(), v.end(), [](size_t i, int x) { return x * 100 + (int)i; }) == idx, "map_index", w);
  VI fm; for (int x : v) for (int i = 0; i < x; ++i) fm.push_back(x * 10 + i);
  auto flat = [](int x) { VI r; for (int i = 0; i < x; ++i) r.push_back(x * 10 + i); return r; };
  MC_CHECK(c, FlatMap(v, flat) == fm && FlatMap(v.begin(), v.end(), flat) == fm, "flat_map", w);
  int n = 0; auto g0 = [&n] { return n++; };
  VI e(v.size()); for (size_t i = 0; i < v.size(); ++i) e[i] = i;
  MC_CHECK(c, CreateVector(v.size(), g0) == e && n == (int)v.size(), "create_vector0", w);
  MC_CHECK(c, CreateVector(v.size(), [&v](size_t i) { return v[i]; }) == v && CreateVectorParallel(v.size(), [&v](size_t i) { return v[i]; }) == v, "create_vector1", w);
  for (int x = 0; x < 4; ++x) { auto s = v; std::sort(s.begin(), s.end()); auto it = BinarySearchByKey(s.begin(), s.end(), x, [](int a, int b) { return a < b; }); bool has = std::count(s.begin(), s.end(), x); MC_CHECK(c, has ? it != s.end() && *it == x : it == s.end(), "binary_search", w); }
  VI a = v, b(v.rbegin(), v.rend()), ab = v; ab.insert(ab.end(), b.begin(), b.end());
  { VI t = a; const VI kb = b; Extend(t, kb); MC_CHECK(c, t == ab && kb == b, "extend_const", w); }
  { VI t = a, u = b; Extend(t, u); MC_CHECK(c, t == ab && u == b, "extend_lvalue", w); }
  { VI t = a, u = b; Extend(t, std::move(u)); MC_CHECK(c, t == ab && u.empty(), "extend_rvalue", w); }
  { VI t = v; Shuffle(t); VI x = t, y = v; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); MC_CHECK(c, x == y, "shuffle_permutes", w); }
  if (!v.empty()) { for (int i = 0; i < 4; ++i) { const int& r = UniformElement(v); MC_CHECK(c, &r >= v.data() && &r < v.data() + v.size(), "uniform_element", w); } }
}
// ---- MaybeOwned: operation sequences over two handles ----
template <typename T> struct Own {
  T ext[2]; static T Val(int i); static typename MaybeOwned<T>::Ptr PtrOf(T& t);
};
template <> std::string Own<std::string>::Val(int i) { return std::string(i == 1 ? 40 : 2, 'a' + i); }
template <> std::string* Own<std::string>::PtrOf(std::string& t) { return &t; }
template <> VI Own<VI>::Val(int i) { return VI(i + 1, i); }
template <> absl::Span<int> Own<VI>::PtrOf(VI& t) { return absl::MakeSpan(t); }
struct Mdl { int kind = 0; int v = 0; };  // 0 null, 1 owned value v, 2 borrowed ext v
template <typename T> void OwnSeq(mc::Ctx& c, int depth) {
  using M = MaybeOwned<T>; uint64_t ops = 2 * 2 + 2 * 2 * 2 + 2 + 2 + 2 + 2 + 2 + 2, tot = 1; for (int i = 0; i < depth; ++i) tot *= ops;
  for (uint64_t w = 0; w < tot; ++w) {
    if (!c.mine(w)) continue;
    Own<T> o; o.ext[0] = Own<T>::Val(5); o.ext[1] = Own<T>::Val(6); T e0 = o.ext[0], e1 = o.ext[1];
    std::optional<M> h[2]; Mdl m[2]; h[0].emplace(); h[1].emplace(); uint64_t x = w; mc::at("own", w); c.trace();
    int next = 0; std::string tr;
    for (int s = 0; s < depth; ++s, x /= ops) {
      int k = x % ops, a = k & 1, b = 1 - a; k >>= 1; c.step(); T val = Own<T>::Val(next % 4);
      tr += " " + std::to_string(k) + "/" + std::to_string(a);
      switch (k) {
        case 0: *h[a] = val; m[a] = {1, next++ % 4}; break;                                   // copy value in
        case 1: *h[a] = T(val); m[a] = {1, next++ % 4}; break;                                // move value in
        case 2: case 3: *h[a] = Own<T>::PtrOf(o.ext[k - 2]); m[a] = {2, k - 2}; break;        // borrow
        case 4: { const M& r = *h[b]; *h[a] = r; m[a] = m[b]; break; }
        case 5: *h[a] = std::move(*h[b]); m[a] = m[b]; m[b] = {0, 0}; break;
        case 6: { const M& r = *h[b]; h[a].emplace(r); m[a] = m[b]; break; }
        case 7: { M t(std::move(*h[b])); h[a].emplace(std::move(t)); m[a] = m[b]; m[b] = {0, 0}; break; }
        case 8: h[a].emplace(val); m[a] = {1, next++ % 4}; break;
        case 9: h[a].emplace(Own<T>::PtrOf(o.ext[0])); m[a] = {2, 0}; break;
        case 10: { const M& r = *h[a]; *h[a] = r; break; }
        case 11: if (m[a].kind) { if constexpr (std::is_same_v<T, std::string>) (**h[a])[0] = 'Z'; else (**h[a])[0] = 99; if (m[a].kind == 1) m[a] = {1, m[a].v | 16}; else { (m[a].v ? e1 : e0)[0] = std::is_same_v<T, std::string> ? 'Z' : 99; } } break;
      }
      for (int i = 0; i < 2; ++i) {
        bool ok; const M& r = *h[i];
        if (m[i].kind == 0) { if constexpr (std::is_same_v<T, VI>) ok = (*r).empty() && r.ptr().empty(); else ok = r.ptr() == nullptr; }
        else {
          T want = m[i].kind == 2 ? (m[i].v ? e1 : e0) : Own<T>::Val(m[i].v & 15); if (m[i].kind == 1 && m[i].v & 16) want[0] = std::is_same_v<T, std::string> ? 'Z' : 99;
          if constexpr (std::is_same_v<T, VI>) { auto sp = *r; ok = VI(sp.begin(), sp.end()) == want && (m[i].kind != 2 || sp.data() == o.ext[m[i].v].data()) && r.ptr().size() == want.size(); }
          else ok = *r == want && r.ptr() == &*r && r->size() == want.size() && (m[i].kind != 2 || r.ptr() == &o.ext[m[i].v]);
        }
        MC_CHECK(c, ok, "maybe_owned", "handle " + std::to_string(i) + " after" + tr);
      }
      if (m[0].kind == 1 && m[1].kind == 1) { bool shared; if constexpr (std::is_same_v<T, VI>) shared = (**h[0]).data() == (**h[1]).data(); else shared = h[0]->ptr() == h[1]->ptr(); MC_CHECK(c, !shared, "maybe_owned_shared", tr); }
      MC_CHECK(c, o.ext[0] == e0 && o.ext[1] == e1, "maybe_owned_ext", tr);
    }
    c.states(1);
  }
}
// ---- callbacks: operation sequences over two once and two repeating slots ----
struct Fn { static inline int live = 0; int id; std::vector<int>* log; Fn(int i, std::vector<int>* l) : id(i), log(l) { ++live; } Fn(const Fn& o) : id(o.id), log(o.log) { ++live; } ~Fn() { --live; } int operator()(int x) const { log->push_back(id * 100 + x); return id * 1000 + x; } };
void Callbacks(mc::Ctx& c, int depth) {
  const uint64_t ops = 24; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= ops;
  for (uint64_t w = 0; w < tot; ++w) {
    if (!c.mine(w)) continue;
    int l0 = Fn::live; std::vector<int> log, want; std::string tr; mc::at("cb", w); c.trace();
    {
      OnceCallback<int(int)> o[2]; RepeatingCallback<int(int)> r[2]; int mo[2] = {0, 0}, mr[2] = {0, 0}, id = 1; uint64_t x = w;
      for (int s = 0; s < depth; ++s, x /= ops) {
        int k = x % ops, a = k & 1, b = 1 - a; k >>= 1; c.step(); tr += " " + std::to_string(k) + "/" + std::to_string(a);
        switch (k) {
          case 0: o[a] = OnceCallback<int(int)>(Fn(id, &log)); mo[a] = id++; break;
          case 1: r[a] = RepeatingCallback<int(int)>(Fn(id, &log)); mr[a] = id++; break;
          case 2: if (mo[a]) { int v = std::move(o[a]).Run(s); MC_CHECK(c, v == mo[a] * 1000 + s, "once_run", tr); want.push_back(mo[a] * 100 + s); mo[a] = 0; } break;
          case 3: if (mr[a]) { int v = r[a].Run(s); MC_CHECK(c, v == mr[a] * 1000 + s, "repeating_run", tr); want.push_back(mr[a] * 100 + s); } break;
          case 4: if (mr[a]) { int v = std::move(r[a]).Run(s); MC_CHECK(c, v == mr[a] * 1000 + s, "repeating_run_rvalue", tr); want.push_back(mr[a] * 100 + s); mr[a] = 0; } break;
          case 5: o[a].Reset(); mo[a] = 0; break;
          case 6: r[a].Reset(); mr[a] = 0; break;
          case 7: o[a] = std::move(o[b]); mo[a] = mo[b]; mo[b] = 0; break;
          case 8: r[a] = r[b]; mr[a] = mr[b]; break;
          case 9: o[a] = r[b]; mo[a] = mr[b]; break;
          case 10: { OnceCallback<int(int)> t(std::move(o[a])); MC_CHECK(c, o[a].is_null() && !o[a], "once_moved_from", tr); o[a] = std::move(t); break; }
          case 11: { RepeatingCallback<int(int)> t(r[a]); OnceCallback<int(int)> u(t); o[a] = std::move(u); mo[a] = mr[a]; break; }
        }
        for (int i = 0; i < 2; ++i) MC_CHECK(c, o[i].is_null() == !mo[i] && (bool)o[i] == !!mo[i] && r[i].is_null() == !mr[i] && (bool)r[i] == !!mr[i], "callback_null", tr);
        MC_CHECK(c, Fn::live - l0 == !!mo[0] + !!mo[1] + !!mr[0] + !!mr[1], "callback_live", tr);
        MC_CHECK(c, log == want, "callback_calls", tr);
      }
    }
    c.states(1); MC_CHECK(c, Fn::live == l0, "callback_leak", tr);
  }
}
int Free7(int x) { return x + 7; }
struct Mem { int k; int f(int x) const { return k + x; } int g(int x) { k += x; return k; } };
// ---- scoped_generic ----
struct Log { std::vector<int> freed; std::multiset<int> held; };
struct Tr { Log* l = nullptr; static int InvalidValue() { return -1; } void Free(int v) { if (l) l->freed.push_back(v); } };
struct TrT : public ScopedGenericOwnershipTracking { Log* l = nullptr; static int InvalidValue() { return -1; } void Free(int v) { l->freed.push_back(v); } void Acquire(const ScopedGeneric<int, TrT>&, int v) { l->held.insert(v); } void Release(const ScopedGeneric<int, TrT>&, int v) { l->held.erase(l->held.find(v)); } };
template <typename T> void Scoped(mc::Ctx& c, int depth) {
  const uint64_t ops = 14; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= ops;
  for (uint64_t w = 0; w < tot; ++w) {
    if (!c.mine(w)) continue;
    Log log; T tr; tr.l = &log; std::vector<int> freed; int m[2] = {-1, -1}, next = 1; std::string tx; mc::at("scoped", w); c.trace();
    {
      std::optional<ScopedGeneric<int, T>> h[2]; h[0].emplace(-1, tr); h[1].emplace(-1, tr);
      uint64_t x = w; auto fr = [&](int v) { if (v != -1) freed.push_back(v); };
      for (int s = 0; s < depth; ++s, x /= ops) {
        int k = x % ops, a = k & 1, b = 1 - a; k >>= 1; c.step(); tx += " " + std::to_string(k) + "/" + std::to_string(a);
        switch (k) {
          case 0: fr(m[a]); h[a]->reset(next); m[a] = next++; break;
          case 1: fr(m[a]); h[a]->reset(); m[a] = -1; break;
          case 2: { int v = h[a]->release(); MC_CHECK(c, v == m[a], "scoped_release", tx); m[a] = -1; break; }
          case 3: { int t = m[b]; fr(m[a]); *h[a] = std::move(*h[b]); m[a] = t; m[b] = -1; break; }
          case 4: { ScopedGeneric<int, T> t(std::move(*h[a])); MC_CHECK(c, !h[a]->is_valid() && t.get() == m[a], "scoped_move", tx); *h[b] = std::move(t); fr(m[b]); m[b] = m[a]; m[a] = -1; break; }
          case 5: { typename ScopedGeneric<int, T>::Receiver r(*h[a]); int* p = r.get(); *p = next; MC_CHECK(c, h[a]->get() == m[a], "scoped_receiver_late", tx); } fr(m[a]); m[a] = next++; break;
          case 6: { typename ScopedGeneric<int, T>::Receiver r(*h[a]); typename ScopedGeneric<int, T>::Receiver r2(std::move(r)); } fr(m[a]); m[a] = -1; break;
        }
        for (int i = 0; i < 2; ++i) MC_CHECK(c, h[i]->get() == m[i] && h[i]->is_valid() == (m[i] != -1) && *h[i] == m[i] && m[i] == *h[i] && *h[i] != m[i] + 5, "scoped_value", tx);
        MC_CHECK(c, log.freed == freed, "scoped_freed", tx);
        if constexpr (std::is_same_v<T, TrT>) { std::multiset<int> held; for (int v : m) if (v != -1) held.insert(v); MC_CHECK(c, log.held == held, "scoped_tracking", tx); }
      }
      for (int i : {1, 0}) fr(m[i]);
    }
    std::multiset<int> p(freed.begin(), freed.end()), q(log.freed.begin(), log.freed.end());
    c.states(1); MC_CHECK(c, p == q, "scoped_destroyed", tx);
  }
}
// ---- ranges ----
template <typename T, bool S, bool E> void Ranges(mc::Ctx& c, const std::vector<T>& vals, bool all) {
  using R = Range<T, S, E>;
  for (T a : vals) for (T b : vals) {
    R r(a, b); c.states(1); c.step(); std::string w = std::to_string((long long)a) + ".." + std::to_string((long long)b) + (S ? " closed" : " open") + (E ? "-closed" : "-open");
    using W = __int128; W lo = (W)a + !S, hi = (W)b - !E, n = hi >= lo ? hi - lo + 1 : 0;
    bool emp = S && E ? a > b : a >= b;  // of the interval: an open (3, 4) contains no integer yet is not an empty interval
    MC_CHECK(c, r.IsEmpty() == emp && (!emp || n == 0), "range_empty", w);
    if (n < ((W)1 << 64)) MC_CHECK(c, r.GetSize() == (size_t)n, "range_size", w);
    for (T v : vals) MC_CHECK(c, r.Contains(v) == (lo <= (W)v && (W)v <= hi), "range_contains", w + " " + std::to_string((long long)v));
    MC_CHECK(c, (r == R(a, b)) && !(r != R(a, b)) && (a == b || r != R(b, a)), "range_eq", w);
    if (n > 0 && n < 300 && lo > std::numeric_limits<T>::lowest() && hi < std::numeric_limits<T>::max()) {
      W k = lo; bool ok = true; for (auto it = r.begin(); it != r.end() && ok; ++it, ++k) ok = (W)*it == k;
      MC_CHECK(c, ok && k == hi + 1 && r.end() - r.begin() == (ptrdiff_t)n, "range_iterate", w);
      auto it = r.begin(); auto o = it++; MC_CHECK(c, (W)*o == lo && (W)*it == lo + 1 && it > o && o < it && it >= o && o <= it && it - 1 == o && o + 1 == it, "range_iterator", w); auto q = it--; MC_CHECK(c, it == o && (W)*q == lo + 1, "range_iterator", w);
      it += 1; it -= 1; MC_CHECK(c, it == o, "range_iterator", w); ++it; --it; MC_CHECK(c, it == o, "range_iterator", w);
    }
    if (n > 0 && all) { T u = Uniform(r); MC_CHECK(c, r.Contains(u), "uniform", w + " " + std::to_string((long long)u)); }
    if (all) for (size_t i = 0; i < vals.size(); i += 37) { R o(vals[i], vals[(i * 7 + 3) % vals.size()]); R x = r.Intersect(o); for (size_t j = 0; j < vals.size(); j += 5) MC_CHECK(c, x.Contains(vals[j]) == (r.Contains(vals[j]) && o.Contains(vals[j])), "range_intersect", w); }
  }
  R A = R::All(), F = R::From(vals[1]), U = R::Until(vals[1]);
  MC_CHECK(c, A.from == std::numeric_limits<T>::lowest() && A.to == std::numeric_limits<T>::max() && F.from == vals[1] && F.to == A.to && U.from == A.from && U.to == vals[1], "range_factories", "All/From/Until");
}
template <typename T> void AllRanges(mc::Ctx& c, const std::vector<T>& v, bool all) { Ranges<T, true, true>(c, v, all); Ranges<T, true, false>(c, v, all); Ranges<T, false, true>(c, v, all); Ranges<T, false, false>(c, v, all); }
template <typename T> std::vector<T> Edge() { std::vector<T> v; T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); for (int i = 0; i < 4; ++i) { v.push_back(lo + i); v.push_back(hi - i); v.push_back(T(i)); v.push_back(T(-1 - i)); v.push_back(T(hi / 2 + i)); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
}  // namespace
MC_SECTION(views, 2) { uint64_t n = 0; Vectors(c.thorough ? 9 : 7, 3, [&](const VI& v) { if (!c.mine(n++)) return; Views<VI>(c, v); if (v.size() < 7) Views<std::deque<int>>(c, VI()); }); for (int k = 0; k < 40; ++k) { VI v(k); for (int i = 0; i < k; ++i) v[i] = i; Views<VI>(c, v); } }
MC_SECTION(util, 4) {
  uint64_t n = 0;
  Vectors(c.thorough ? 8 : 6, 3, [&](const VI& v) {
    if (!c.mine(n++)) return; mc::at("util", n); c.states(1); c.trace();
    EraseSeq<VI>(c, v, "erase_vector"); EraseSeq<std::deque<int>>(c, v, "erase_deque"); EraseSeq<std::list<int>>(c, v, "erase_list"); EraseSeq<std::forward_list<int>>(c, v, "erase_forward_list"); EraseSeq<std::string>(c, v, "erase_string");
    EraseAssoc<std::set<int>>(c, v, "erase_set"); EraseAssoc<std::multiset<int>>(c, v, "erase_multiset"); EraseAssoc<std::map<int, int>>(c, v, "erase_map"); EraseAssoc<std::multimap<int, int>>(c, v, "erase_multimap");
    EraseAssoc<std::unordered_set<int>>(c, v, "erase_uset"); EraseAssoc<std::unordered_multiset<int>>(c, v, "erase_umultiset"); EraseAssoc<std::unordered_map<int, int>>(c, v, "erase_umap"); EraseAssoc<std::unordered_multimap<int, int>>(c, v, "erase_umultimap");
    Find<VI>(c, v, "find_vector"); Find<std::list<int>>(c, v, "find_list"); Find<std::deque<int>>(c, v, "find_deque");
    std::set<int> st(v.begin(), v.end()); std::unordered_map<int, int> um; for (int x : v) um[x] = 1; std::string s; for (int x : v) s += char('a' + x);
    for (int x = 0; x < 4; ++x) { bool h = st.count(x); MC_CHECK(c, Contains(st, x) == h && Contains(um, x) == h && Contains(s, char('a' + x)) == h, "contains_assoc", Str(v)); }
    Util(c, v);
  });
  for (int a = -6; a < 6; ++a) for (int b = a + 1; b < 8; ++b) for (int s = 1; s < 9; ++s) { VI e; for (int x = a; x < b; x += s) e.push_back(x); MC_CHECK(c, CreateRangedVector<int>(a, b, s) == e, "ranged_vector", std::to_string(a) + ".." + std::to_string(b) + " by " + std::to_string(s)); }
  for (uint32_t lo : {0u, 1u, 4294967290u}) for (uint32_t st : {1u, 7u, 4294967295u, 4294967294u}) { uint32_t hi = 4294967295u; if ((hi - lo) / st > 100) continue; std::vector<uint32_t> e; for (uint64_t x = lo; x < hi; x += st) e.push_back(x); MC_CHECK(c, CreateRangedVector<uint32_t>(lo, hi, st) == e, "ranged_vector", "uint32 " + std::to_string(lo) + " by " + std::to_string(st)); }
  for (int lo = 0; lo < 256; lo += 5) for (int hi = lo + 1; hi < 256; hi += 3) for (int st : {1, 2, 100, 255}) { std::vector<uint8_t> e; for (int x = lo; x < hi; x += st) e.push_back(x); MC_CHECK(c, CreateRangedVector<uint8_t>(lo, hi, st) == e, "ranged_vector", "uint8"); }
  for (int lo : {0, 2147483600}) for (int st : {1, 3, 2147483647}) if (lo || st > 3) { VI e; for (int64_t x = lo; x < 2147483647; x += st) e.push_back(x); if (e.size() < 100) MC_CHECK(c, CreateRangedVector<int>(lo, 2147483647, st) == e, "ranged_vector", "int max"); }
  { int k = 0; auto a = CreateArray<5>([&k] { return k++; }); auto b = CreateArray<5>([](size_t i) { return (int)i; }); int raw[3] = {1, 2, 3}, raw2[2][3] = {{1, 2, 3}, {4, 5, 6}}; MC_CHECK(c, a == b && a[4] == 4 && ArrayToVector(raw) == (VI{1, 2, 3}) && Array2DToVector2D(raw2) == (std::vector<VI>{{1, 2, 3}, {4, 5, 6}}), "arrays", "CreateArray/ArrayToVector"); }
}
MC_SECTION(maybe_owned_string, 4) { OwnSeq<std::string>(c, c.thorough ? 5 : 4); }
MC_SECTION(maybe_owned_vector, 4) { OwnSeq<VI>(c, c.thorough ? 5 : 4); }
MC_SECTION(callbacks, 8) { Callbacks(c, c.thorough ? 5 : 4); }
MC_SECTION(scoped, 4) { Scoped<Tr>(c, c.thorough ? 6 : 5); Scoped<TrT>(c, c.thorough ? 6 : 5); }
MC_SECTION(range, 2) {
  if (c.mine(0)) { std::vector<int8_t> v; for (int i = -128; i < 128; i += c.thorough ? 1 : 3) v.push_back(i); v.push_back(127); v.push_back(126); AllRanges(c, v, true); }
  if (c.mine(1)) { AllRanges(c, Edge<int>(), true); AllRanges(c, Edge<unsigned>(), true); AllRanges(c, Edge<int64_t>(), true); AllRanges(c, Edge<uint64_t>(), true); AllRanges(c, Edge<uint8_t>(), true); AllRanges(c, Edge<int16_t>(), true); }
}
MC_SECTION(misc, 1) {
  std::vector<int> log;
  { auto l = [](int x) { return x * 3; }; FunctionRef<int(int)> r(l), s = r; FunctionRef<int(int)> f(Free7); Fn fn(2, &log); FunctionRef<int(int)> g(fn);
    for (int x = 0; x < 5; ++x) { c.states(1); MC_CHECK(c, r(x) == 3 * x && s(x) == 3 * x && f(x) == x + 7 && g(x) == 2000 + x && r.ToAbsl()(x) == 3 * x, "function_ref", std::to_string(x)); } 
    MC_CHECK(c, Fn::live == 1 && log.size() == 5, "function_ref_no_copy", "callable is not copied"); }
  { Mem m{10}; Mem* p = &m; auto rw = std::ref(m);
    MC_CHECK(c, tachyon::base::invoke(&Mem::f, m, 1) == 11 && tachyon::base::invoke(&Mem::f, p, 2) == 12 && tachyon::base::invoke(&Mem::f, rw, 3) == 13 && tachyon::base::invoke(&Mem::k, m) == 10 && tachyon::base::invoke(&Mem::k, p) == 10 && tachyon::base::invoke(&Mem::k, rw) == 10 && tachyon::base::invoke(&Mem::g, p, 5) == 15 && m.k == 15 && tachyon::base::invoke(Free7, 1) == 8, "invoke", "member and free"); 
    identity id; const int q = 4; MC_CHECK(c, &id(q) == &q && &id(m) == &m, "identity", "identity"); }
  for (int w = 0; w < 729; ++w) { // nested AutoReset: LIFO restore, moved-from ones do nothing
    int a = 1, b = 2, w2 = w; std::vector<int> st; c.states(1); c.trace();
    { std::vector<std::unique_ptr<AutoReset<int>>> v; std::vector<std::pair<int*, int>> m;
      for (int i = 0; i < 6; ++i, w2 /= 3) { int k = w2 % 3; c.step();
        if (k < 2) { int* t = k ? &b : &a; m.push_back({t, *t}); v.push_back(std::make_unique<AutoReset<int>>(t, 10 + i)); MC_CHECK(c, *t == 10 + i, "auto_reset_set", std::to_string(w)); }
        else if (!v.empty()) { auto moved = std::make_unique<AutoReset<int>>(std::move(*v.back())); v.pop_back(); int before = *m.back().first; MC_CHECK(c, *m.back().first == before, "auto_reset_move", std::to_string(w)); moved.reset(); MC_CHECK(c, *m.back().first == m.back().second, "auto_reset_restore", std::to_string(w)); m.pop_back(); } }
      while (!v.empty()) { v.pop_back(); MC_CHECK(c, *m.back().first == m.back().second, "auto_reset_restore", std::to_string(w)); m.pop_back(); } }
    MC_CHECK(c, a == 1 && b == 2, "auto_reset_all", std::to_string(w)); }
  int xs[4] = {1, 2, 2, 3};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { c.states(1); c.step();
    ShallowRef<int> s(&xs[i]), t(&xs[j]); DeepRef<int> d(&xs[i]), e(&xs[j]); std::string w = std::to_string(i) + "," + std::to_string(j);
    MC_CHECK(c, (s == t) == (i == j) && (s != t) == (i != j) && (s < t) == (i < j) && (s <= t) == (i <= j) && (s > t) == (i > j) && (s >= t) == (i >= j), "shallow_ref", w);
    MC_CHECK(c, (d == e) == (xs[i] == xs[j]) && (d != e) == (xs[i] != xs[j]) && (d < e) == (xs[i] < xs[j]) && (d <= e) == (xs[i] <= xs[j]) && (d > e) == (xs[i] > xs[j]) && (d >= e) == (xs[i] >= xs[j]), "deep_ref", w);
    MC_CHECK(c, (absl::Hash<DeepRef<int>>()(d) == absl::Hash<DeepRef<int>>()(e)) == (xs[i] == xs[j]) && *d == xs[i] && d.get() == &xs[i] && d && !ShallowRef<int>(), "ref_hash", w); }
  { static int dtor = 0; struct D { std::string s; explicit D(std::string x, int n) : s(x + std::to_string(n)) {} ~D() { ++dtor; } }; { NoDestructor<D> n("ab", 3); MC_CHECK(c, n->s == "ab3" && (*n).s == "ab3" && n.get()->s == "ab3", "no_destructor", "value"); } MC_CHECK(c, dtor == 0, "no_destructor", "destroyed"); }
  for (int i = 0; i < 50; ++i) MC_CHECK(c, Bernoulli(1.0) && !Bernoulli(0.0), "bernoulli", "p = 0 and 1");
}
