// C29: circular_deque and stack against std::deque / std::stack.
// Every (capacity, physical start offset, size) layout is built, then every
// sequence of operations (with all positions and counts) is applied.
#include <deque>
#include <memory>
#include <numeric>
#include "tachyon/base/containers/circular_deque.h"
#include "tachyon/base/containers/contains.h"
#include "tachyon/base/containers/stack.h"
#include "mc/mc.h"
using namespace tachyon::base;
namespace {
// Counts live objects and notices use of dead ones.
struct Obj {
  static inline int live = 0; static inline uint64_t bad = 0;
  static constexpr uint32_t kAlive = 0xa11ce5ed;
  uint32_t tag = kAlive; int v = 0; const Obj* self = this;
  void chk() const { if (tag != kAlive || self != this) ++bad; }
  Obj() { ++live; }
  Obj(int x) : v(x) { ++live; }
  Obj(const Obj& o) : v(o.v) { o.chk(); ++live; }
  Obj(Obj&& o) noexcept : v(o.v) { o.chk(); o.v = -77; ++live; }
  Obj& operator=(const Obj& o) { chk(); o.chk(); v = o.v; return *this; }
  Obj& operator=(Obj&& o) noexcept { chk(); o.chk(); int t = o.v; if (&o != this) o.v = -77; v = t; return *this; }
  ~Obj() { chk(); tag = 0xdead; --live; }
  bool operator==(const Obj& o) const { return v == o.v; }
};
struct CopyOnly {
  static inline int live = 0; int v = 0;
  CopyOnly() { ++live; } CopyOnly(int x) : v(x) { ++live; } CopyOnly(const CopyOnly& o) : v(o.v) { ++live; } CopyOnly& operator=(const CopyOnly&) = default; ~CopyOnly() { --live; v = -5; }
};
template <typename T> int V(const T& t) { if constexpr (std::is_same_v<T, int>) return t; else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return t ? *t : -1; else return t.v; }
template <typename T> T Mk(int v) { if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v); else return T(v); }
template <typename T> constexpr bool kCopy = std::is_copy_constructible_v<T>;

template <typename T> bool Same(mc::Ctx& c, const circular_deque<T>& d, const std::deque<int>& m, bool deep) {
  if (d.size() != m.size() || d.empty() != m.empty() || d.capacity() < m.size()) return false;
  size_t i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) if (i >= m.size() || V(*it) != m[i]) return false;
  if (i != m.size()) return false;
  if (m.size()) { if (V(d.front()) != m.front() || V(d.back()) != m.back()) return false; }
  for (i = 0; i < m.size(); ++i) if (V(d[i]) != m[i] || V(d.at(i)) != m[i]) return false;
  if (!deep) return true;
  i = m.size(); for (auto it = d.rbegin(); it != d.rend(); ++it) if (i-- == 0 || V(*it) != m[i]) return false;
  auto& nd = const_cast<circular_deque<T>&>(d);
  for (size_t a = 0; a <= m.size(); ++a) {
    auto ia = nd.begin() + a; auto ca = d.cbegin() + a; if (ia - nd.begin() != (ptrdiff_t)a || d.end() - ca != (ptrdiff_t)(m.size() - a)) return false;
    if (!(nd.end() - (m.size() - a) == ia)) return false;
    if (a < m.size()) { if (V(*ia) != m[a] || V(nd.begin()[a]) != m[a]) return false; auto x = ia; if (&*x++ != &*ia || x != nd.begin() + (a + 1)) return false; if (x-- != nd.begin() + (a + 1) || x != ia) return false; }
    for (size_t b = 0; b <= m.size(); ++b) {
      auto ib = nd.begin() + b;
      if ((ia < ib) != (a < b) || (ia <= ib) != (a <= b) || (ia > ib) != (a > b) || (ia >= ib) != (a >= b) || (ia == ib) != (a == b) || (ia != ib) != (a != b)) return false;
      if (ia - ib != (ptrdiff_t)a - (ptrdiff_t)b) return false;
      auto x = ia; x += (ptrdiff_t)b - (ptrdiff_t)a; if (!(x == ib)) return false; x -= (ptrdiff_t)b - (ptrdiff_t)a; if (!(x == ia)) return false;
    }
  }
  return true;
}
struct Op { int k, a, b; };
// All operations applicable to a deque of n elements.
template <typename T> std::vector<Op> Ops(int n, int cap, bool wide) {
  std::vector<Op> o; int m = wide ? 4 : 2;
  for (int k : {0, 1, 6, 7, 8, 14, 15, 16, 17}) o.push_back({k, 0, 0});
  if (n) { o.push_back({2, 0, 0}); o.push_back({3, 0, 0}); }
  for (int p = 0; p <= n; ++p) o.push_back({4, p, 0});                                 // emplace
  for (int p = 0; p <= n; ++p) for (int q = p; q <= n; ++q) o.push_back({5, p, q});    // erase range
  for (int p = 0; p < n; ++p) o.push_back({9, p, 0});                                  // erase one
  for (int s = 0; s <= n + 3; ++s) { if constexpr (std::is_default_constructible_v<T>) o.push_back({10, s, 0}); if constexpr (kCopy<T>) o.push_back({11, s, 0}); }
  for (int s = 0; s <= cap + 3; ++s) o.push_back({12, s, 0});                          // reserve
  if constexpr (kCopy<T>) {
    for (int p = 0; p <= n; ++p) for (int k = 0; k <= m; ++k) { o.push_back({18, p, k}); o.push_back({19, p, k}); }
    for (int k = 0; k <= n + 2; ++k) { o.push_back({13, k, 0}); o.push_back({20, k, 0}); }
    o.push_back({21, 0, 0}); o.push_back({22, 0, 0}); for (int k = 0; k < 3; ++k) o.push_back({23, k, 0});
    if constexpr (!std::is_same_v<T, CopyOnly>) { o.push_back({24, 0, 0}); o.push_back({25, 0, 0}); }
  }
  return o;
}
std::string Name(const Op& o) {
  static const char* n[] = {"push_back", "push_front", "pop_back", "pop_front", "emplace", "erase", "clear", "shrink_to_fit", "swap", "erase1", "resize", "resize_v", "reserve", "assign_n", "move_ctor", "move_assign", "emplace_back", "emplace_front", "insert_n", "insert_range", "assign_range", "copy_ctor", "copy_assign", "assign_il", "Erase", "EraseIf"};
  return std::string(n[o.k]) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")";
}
template <typename T> bool Apply(circular_deque<T>& d, std::deque<int>& m, const Op& o, int& next) {
  auto R = [&](auto it, size_t want) { return it - d.begin() == (ptrdiff_t)want; };
  switch (o.k) {
    case 0: if constexpr (kCopy<T>) { T t(next); d.push_back(t); } else d.push_back(Mk<T>(next)); m.push_back(next++); break;
    case 1: if constexpr (kCopy<T>) { T t(next); d.push_front(t); } else d.push_front(Mk<T>(next)); m.push_front(next++); break;
    case 2: d.pop_back(); m.pop_back(); break;
    case 3: d.pop_front(); m.pop_front(); break;
    case 4: { auto it = d.emplace(d.cbegin() + o.a, Mk<T>(next)); m.insert(m.begin() + o.a, next++); return R(it, o.a); }
    case 5: { auto it = d.erase(d.cbegin() + o.a, d.cbegin() + o.b); m.erase(m.begin() + o.a, m.begin() + o.b); return R(it, o.a); }
    case 6: d.clear(); m.clear(); break;
    case 7: d.shrink_to_fit(); if (d.capacity() < m.size()) return false; break;
    case 8: { circular_deque<T> e; e.push_back(Mk<T>(next)); e.push_front(Mk<T>(next + 1)); std::deque<int> f{next + 1, next}; next += 2; swap(d, e); std::swap(m, f); if (e.size() != f.size()) return false; for (size_t i = 0; i < f.size(); ++i) if (V(e[i]) != f[i]) return false; d.swap(e); std::swap(m, f); if (e.size() != 2) return false; break; }
    case 9: { auto it = d.erase(d.cbegin() + o.a); m.erase(m.begin() + o.a); return R(it, o.a); }
    case 10: d.resize(o.a); { size_t n = m.size(); m.resize(o.a, std::is_same_v<T, std::unique_ptr<int>> ? -1 : 0); for (size_t i = n; i < m.size(); ++i) if constexpr (std::is_same_v<T, int>) d[i] = 0; } break;
    case 11: if constexpr (kCopy<T>) { T t(next); d.resize(o.a, t); m.resize(o.a, next++); } break;
    case 12: d.reserve(o.a); if (d.capacity() < (size_t)o.a) return false; break;
    case 13: if constexpr (kCopy<T>) { T t(next); d.assign((size_t)o.a, t); m.assign(o.a, next++); } break;
    case 14: { circular_deque<T> e(std::move(d)); if (!d.empty()) return false; d = std::move(e); break; }
    case 15: { circular_deque<T> e; e.push_back(Mk<T>(next)); e = std::move(d); if (!d.empty() || e.size() != m.size()) return false; d.push_back(Mk<T>(next)); d = std::move(e); break; }
    case 16: if (V(d.emplace_back(Mk<T>(next))) != next) return false; m.push_back(next++); break;
    case 17: if (V(d.emplace_front(Mk<T>(next))) != next) return false; m.push_front(next++); break;
    case 18: if constexpr (kCopy<T>) { T t(next); d.insert(d.cbegin() + o.a, (size_t)o.b, t); m.insert(m.begin() + o.a, o.b, next++); } break;
    case 19: if constexpr (kCopy<T>) { std::vector<T> s; std::vector<int> w; for (int i = 0; i < o.b; ++i) { s.emplace_back(next); w.push_back(next++); } d.insert(d.cbegin() + o.a, s.begin(), s.end()); m.insert(m.begin() + o.a, w.begin(), w.end()); } break;
    case 20: if constexpr (kCopy<T>) { std::vector<T> s; std::vector<int> w; for (int i = 0; i < o.a; ++i) { s.emplace_back(next); w.push_back(next++); } d.assign(s.begin(), s.end()); m.assign(w.begin(), w.end()); } break;
    case 21: if constexpr (kCopy<T>) { circular_deque<T> e(d); if (e.size() != m.size()) return false; d.clear(); for (size_t i = 0; i < m.size(); ++i) if (V(e[i]) != m[i]) return false; d = e; } break;
    case 22: if constexpr (kCopy<T>) { circular_deque<T> e(3, T(next)); const auto& r = d; e = r; d = e; d = *&d; if (e.size() != m.size()) return false; } break;
    case 23: if constexpr (kCopy<T>) { int a = next, b = next + 1; next += 2; if (o.a == 0) { d.assign({}); m.assign({}); } else if (o.a == 1) { d.assign({T(a)}); m.assign({a}); } else { d = {T(a), T(b)}; m = {a, b}; } } break;
    case 24: if constexpr (kCopy<T> && !std::is_same_v<T, CopyOnly>) { int v = m.empty() ? 1 : m[m.size() / 2]; size_t n = 0; for (auto it = m.begin(); it != m.end();) if (*it == v) { it = m.erase(it); ++n; } else ++it; if (Erase(d, T(v)) != n) return false; } break;
    case 25: if constexpr (kCopy<T> && !std::is_same_v<T, CopyOnly>) { size_t n = 0; for (auto it = m.begin(); it != m.end();) if (*it % 2) { it = m.erase(it); ++n; } else ++it; if (EraseIf(d, [](const T& t) { return V(t) % 2 != 0; }) != n) return false; } break;
  }
  return true;
}
// Buffer of `cap` slots (+1), first element at physical offset b, s elements.
template <typename T> bool Layout(int cap, int b, int s, circular_deque<T>& d, std::deque<int>& m, int& next) {
  d.reserve(cap);
  if ((int)d.capacity() != cap) return false;
  for (int i = 0; i < cap; ++i) { d.push_back(Mk<T>(next)); m.push_back(next++); }
  for (int i = 0; i < b; ++i) {  // rotate without growing or shrinking
    d.erase(d.cbegin()); m.pop_front(); d.push_back(Mk<T>(next)); m.push_back(next++);
  }
  d.erase(d.cbegin() + s, d.cend()); m.erase(m.begin() + s, m.end());
  return (int)d.capacity() == cap;
}
template <typename T> void Deque(mc::Ctx& c, int lo, int hi, int depth) {
  uint64_t n = 0;
  for (int cap = lo; cap <= hi; ++cap) for (int b = 0; b <= cap; ++b) for (int s = 0; s <= cap; ++s) {
    if (!c.mine(n++)) continue;
    std::string lay = "cap=" + std::to_string(cap) + " begin=" + std::to_string(b) + " size=" + std::to_string(s);
    mc::at("layout", cap, b, s);
    std::vector<Op> path;
    auto live = [&] { if constexpr (std::is_same_v<T, Obj>) return Obj::live; else if constexpr (std::is_same_v<T, CopyOnly>) return CopyOnly::live; else return -1; };
    // Replays path on a fresh object; the last operation is checked.
    auto run = [&](std::deque<int>& m, int& cp, bool deep) {
      bool ok = true; int l0 = live();
      {
        circular_deque<T> d; int next = 1;
        Layout(cap, b, s, d, m, next);
        for (auto& o : path) ok = Apply(d, m, o, next) && ok;
        ok = ok && Same(c, d, m, deep); cp = d.capacity();
        if (l0 >= 0 && ok) ok = live() - l0 == (int)m.size();
      }
      return ok && (l0 < 0 || live() == l0) && Obj::bad == 0;
    };
    std::function<void(int)> rec = [&](int left) {
      std::deque<int> m; int cp = 0; bool ok = run(m, cp, path.size() < 2); c.states(1); c.step(path.size() + 1); c.trace();
      std::string w = lay; for (auto& o : path) w += " " + Name(o);
      if (path.size() == 2 && c.want_sample()) c.sample(w);
      MC_CHECK(c, ok, path.empty() ? "layout" : "op_" + Name(path.back()).substr(0, Name(path.back()).find('(')), w);
      Obj::bad = 0;
      if (!left || !ok) return;
      for (auto& o : Ops<T>(m.size(), cp, path.empty())) { path.push_back(o); mc::at("ops", o.k, o.a, o.b); rec(left - 1); path.pop_back(); }
    };
    rec(depth);
  }
}
}  // namespace
MC_SECTION(deque_int, 8) { Deque<int>(c, 3, c.thorough ? 10 : 7, 2); }
MC_SECTION(deque_obj, 8) { Deque<Obj>(c, 3, c.thorough ? 10 : 7, 2); }
MC_SECTION(deque_obj3, 8) { Deque<Obj>(c, 3, c.thorough ? 5 : 3, 3); Deque<Obj>(c, 8, 12, 1); }
MC_SECTION(deque_move, 4) { Deque<std::unique_ptr<int>>(c, 3, c.thorough ? 10 : 7, 2); }
MC_SECTION(deque_copyonly, 2) { Deque<CopyOnly>(c, 3, 4, c.thorough ? 2 : 1); }
// Growth, shrinking and rotation over long runs: every push/pop word of length N from empty.
MC_SECTION(push_pop_words, 8) {
  const int N = c.thorough ? 11 : 9;
  uint64_t total = 1; for (int i = 0; i < N; ++i) total *= 4;
  for (uint64_t w = 0; w < total; ++w) {
    if (!c.mine(w)) continue;
    int l0 = Obj::live;
    { circular_deque<Obj> d; std::deque<int> m; int next = 1; uint64_t x = w; mc::at("word", w); c.trace();
      for (int i = 0; i < N; ++i, x /= 4) {
        int k = x % 4; if (k >= 2 && m.empty()) k -= 2;
        Apply(d, m, Op{k, 0, 0}, next); c.step();
        if (!Same(c, d, m, false)) { c.fail("push_pop_word", std::to_string(w) + " step " + std::to_string(i)); break; }
      }
      c.states(1); MC_CHECK(c, Obj::live - l0 == (int)m.size() && Obj::bad == 0, "push_pop_word", std::to_string(w)); }
    MC_CHECK(c, Obj::live == l0, "push_pop_leak", std::to_string(w));
  }
}
MC_SECTION(stack, 1) {
  for (uint64_t w = 0; w < (1u << 16); ++w) {
    stack<Obj> s; std::vector<int> m; mc::at("stack", w); c.states(1); c.trace();
    for (int i = 0; i < 16; ++i) {
      if (w >> i & 1 || m.empty()) { s.push(Obj(i)); m.push_back(i); } else { s.pop(); m.pop_back(); }
      c.step(); MC_CHECK(c, s.size() == m.size() && s.empty() == m.empty() && (m.empty() || s.top().v == m.back()), "stack", std::to_string(w));
    }
  }
  // growth and shrink over hundreds of elements
  for (int n : {1, 3, 4, 5, 40, 300}) for (int r = 0; r < 8; ++r) {
    circular_deque<int> d; std::deque<int> m; int next = 1; c.trace();
    for (int i = 0; i < n; ++i) { Apply(d, m, Op{r & 1, 0, 0}, next); if (r & 2 && i % 3 == 0) Apply(d, m, Op{3, 0, 0}, next); MC_CHECK(c, Same(c, d, m, false), "grow", std::to_string(n)); }
    while (!m.empty()) { Apply(d, m, Op{r & 4 ? 2 : 3, 0, 0}, next); MC_CHECK(c, Same(c, d, m, false), "shrink", std::to_string(n)); }
  }
}
