// C39: range algorithms against their naive definitions, every small input.
#include <list>
#include <numeric>
#include <random>
#include <set>

#include "mc/mc.h"
#include "tachyon/base/ranges/algorithm.h"
#include "tachyon/base/ranges/functional.h"
#include "tachyon/base/ranges/ranges.h"

namespace {
using namespace tachyon;
namespace r = base::ranges;
using Ints = std::vector<int>;

struct E { int v, u, id; bool operator==(const E& o) const { return id == o.id && v == o.v; } };
std::string Str(const Ints& a) { std::string s; for (int x : a) s += std::to_string(x); return s + ";"; }

// Configurations: element type, comparator, equality and projection.
struct K0 {
  using T = int; static constexpr bool kDef = true;
  static T mk(int v, int) { return v; } static int key(const T& t) { return t; }
  static auto lt() { return r::less(); } static auto eq() { return r::equal_to(); } static auto pr() { return base::identity(); }
  static bool klt(int a, int b) { return a < b; } static bool keq(int a, int b) { return a == b; }
};
struct K1 {
  using T = E; static constexpr bool kDef = false;
  static T mk(int v, int i) { return {v, 2 - v, i}; } static int key(const T& t) { return t.v; }
  static auto lt() { return r::less(); } static auto eq() { return r::equal_to(); } static auto pr() { return &E::v; }
  static bool klt(int a, int b) { return a < b; } static bool keq(int a, int b) { return a == b; }
};
struct K2 {
  using T = E; static constexpr bool kDef = false;
  static T mk(int v, int i) { return {v, 2 - v, i}; } static int key(const T& t) { return 2 - t.v; }
  static auto lt() { return r::greater(); } static auto eq() { return [](int a, int b) { return a != b; }; } static auto pr() { return [](const E& e) { return e.u; }; }
  static bool klt(int a, int b) { return a > b; } static bool keq(int a, int b) { return a != b; }
};
struct K3 {  // asymmetric relation for the searches; equivalence classes for the orders
  using T = E; static constexpr bool kDef = false;
  static T mk(int v, int i) { return {v, 2 - v, i}; } static int key(const T& t) { return t.v; }
  static auto lt() { return [](int a, int b) { return a / 2 < b / 2; }; } static auto eq() { return [](int a, int b) { return a <= b; }; } static auto pr() { return &E::v; }
  static bool klt(int a, int b) { return a / 2 < b / 2; } static bool keq(int a, int b) { return a <= b; }
};
template <typename K> std::vector<typename K::T> Mk(const Ints& a, int base = 0) { std::vector<typename K::T> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(K::mk(a[i], base + int(i))); return v; }
template <typename K> Ints Keys(const std::vector<typename K::T>& v) { Ints k; for (auto& x : v) k.push_back(K::key(x)); return k; }
template <typename K, typename F> void ByLess(F f) { f(K::lt(), K::pr()); if constexpr (K::kDef) { f(); f(K::lt()); } }
template <typename K, typename F> void ByEq(F f) { f(K::eq(), K::pr()); if constexpr (K::kDef) { f(); f(K::eq()); } }
// two-sequence versions: the second projection reads another member of another element type
struct G { int w; };
inline bool operator==(const G& a, const G& b) { return a.w == b.w; }
template <typename K> auto Pr2() { if constexpr (K::kDef) return base::identity(); else return &G::w; }
template <typename K> auto Mk2(const Ints& a) { if constexpr (K::kDef) return a; else { std::vector<G> v; for (int x : a) v.push_back({x}); return v; } }
template <typename K, typename F> void ByLess2(F f) { f(K::lt(), K::pr(), Pr2<K>()); if constexpr (K::kDef) f(); }
template <typename K, typename F> void ByEq2(F f) { f(K::eq(), K::pr(), Pr2<K>()); if constexpr (K::kDef) f(); }

#define CK(cond, key) do { c.step(); MC_CHECK(c, (cond), key, where); } while (0)

template <typename K, typename T = typename K::T> std::vector<T> StableSorted(std::vector<T> v) {
  for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && K::klt(K::key(v[j]), K::key(v[j - 1])); --j) std::swap(v[j], v[j - 1]);
  return v;
}
template <typename T> int Id(const T& t) { if constexpr (std::is_same_v<T, int>) return t; else return t.id; }
template <typename T> std::multiset<int> Bag(const std::vector<T>& v) { std::multiset<int> s; for (auto& x : v) s.insert(Id(x)); return s; }
template <typename K> bool SortedK(const Ints& k) { for (size_t i = 1; i < k.size(); ++i) if (K::klt(k[i], k[i - 1])) return false; return true; }
template <typename K> bool HeapK(const Ints& k, size_t n) { for (size_t i = 1; i < n; ++i) if (K::klt(k[(i - 1) / 2], k[i])) return false; return true; }

// ---- algorithms on one sequence
template <typename K> void One(mc::Ctx& c, const Ints& a) {
  using T = typename K::T;
  std::vector<T> v0 = Mk<K>(a); Ints k = Keys<K>(v0); int n = int(a.size());
  auto pred = [](int x) { return x == 1; };
  for (int form = 0; form < 2; ++form) {
    std::string where = Str(a) + (form ? "range" : "iter");
#define FORM(call_iter, call_range) (form ? (call_range) : (call_iter))
#define ARGS v.begin(), v.end()
    auto v = v0;
    auto pr = K::pr();
    // non-modifying
    bool all = true, any = false; int cnt = 0, first = n, firstnot = n;
    for (int i = n; i-- > 0;) { if (pred(k[i])) { any = true; ++cnt; first = i; } else { all = false; firstnot = i; } }
    CK(FORM(r::all_of(ARGS, pred, pr), r::all_of(v, pred, pr)) == all, "all_of");
    CK(FORM(r::any_of(ARGS, pred, pr), r::any_of(v, pred, pr)) == any, "any_of");
    CK(FORM(r::none_of(ARGS, pred, pr), r::none_of(v, pred, pr)) == !any, "none_of");
    CK(FORM(r::count_if(ARGS, pred, pr), r::count_if(v, pred, pr)) == cnt, "count_if");
    CK(FORM(r::find_if(ARGS, pred, pr), r::find_if(v, pred, pr)) - v.begin() == first, "find_if");
    CK(FORM(r::find_if_not(ARGS, pred, pr), r::find_if_not(v, pred, pr)) - v.begin() == firstnot, "find_if_not");
    CK(FORM(r::count(ARGS, 1, pr), r::count(v, 1, pr)) == cnt, "count");
    CK(FORM(r::find(ARGS, 1, pr), r::find(v, 1, pr)) - v.begin() == first, "find");
    { Ints seen; auto f = [&](int x) { seen.push_back(x); };
      if (form) { auto res = r::for_each(v, f, pr); CK(res.in == v.end(), "for_each-in"); res.fun(7); } else { auto res = r::for_each(ARGS, f, pr); CK(res.in == v.end(), "for_each-in"); res.fun(7); }
      Ints w = k; w.push_back(7); CK(seen == w, "for_each"); }
    for (int m = 0; m <= n; ++m) { Ints seen; auto f = [&](int x) { seen.push_back(x); };
      auto res = r::for_each_n(v.begin(), m, f, pr); CK(res.in - v.begin() == m && seen == Ints(k.begin(), k.begin() + m), "for_each_n"); }
    ByEq<K>([&](auto... cp) {
      int want = n; for (int i = n - 2; i >= 0; --i) if (K::keq(k[i], k[i + 1])) want = i;
      CK(FORM(r::adjacent_find(ARGS, cp...), r::adjacent_find(v, cp...)) - v.begin() == want, "adjacent_find");
      for (int m = 0; m <= 3; ++m) for (int val = 0; val < 3; ++val) {
        int w = m == 0 ? 0 : n; for (int i = n - m; m && i >= 0; --i) { bool ok = true; for (int j = 0; j < m; ++j) ok &= K::keq(k[i + j], val); if (ok) w = i; }
        CK(FORM(r::search_n(ARGS, m, val, cp...), r::search_n(v, m, val, cp...)) - v.begin() == w, "search_n");
      }
    });
    // copies
    for (int m = 0; m <= n; ++m) { std::vector<T> o(n + 1, K::mk(9, 99)); auto it = r::copy_n(v.begin(), m, o.begin() + 1); bool ok = it - o.begin() == m + 1 && o[0] == K::mk(9, 99);
      for (int i = 0; i < n; ++i) ok &= o[i + 1] == (i < m ? v0[i] : K::mk(9, 99)); CK(ok, "copy_n"); }
    { std::vector<T> o(n + 1, K::mk(9, 99)); auto it = FORM(r::copy(ARGS, o.begin()), r::copy(v, o.begin())); CK(it - o.begin() == n && std::equal(v0.begin(), v0.end(), o.begin()) && o[n] == K::mk(9, 99), "copy"); }
    { std::vector<T> o(n + 1, K::mk(9, 99)); auto it = FORM(r::copy_backward(ARGS, o.end()), r::copy_backward(v, o.end())); CK(it - o.begin() == 1 && std::equal(v0.begin(), v0.end(), o.begin() + 1) && o[0] == K::mk(9, 99), "copy_backward"); }
    { std::vector<T> o(n + 1, K::mk(9, 99)); auto it = FORM(r::move(ARGS, o.begin()), r::move(v, o.begin())); CK(it - o.begin() == n && std::equal(v0.begin(), v0.end(), o.begin()) && o[n] == K::mk(9, 99), "move"); }
    { std::vector<T> o(n + 1, K::mk(9, 99)); auto it = FORM(r::move_backward(ARGS, o.end()), r::move_backward(v, o.end())); CK(it - o.begin() == 1 && std::equal(v0.begin(), v0.end(), o.begin() + 1) && o[0] == K::mk(9, 99), "move_backward"); }
    if (n) {  // overlapping moves
      auto x = v0; x.push_back(K::mk(9, 99)); auto y = x; r::copy_backward(x.begin(), x.end() - 1, x.end()); bool ok = x[0] == v0[0]; for (int i = 0; i < n; ++i) ok &= x[i + 1] == v0[i]; CK(ok, "copy_backward-overlap");
      r::copy(y.begin() + 1, y.end(), y.begin()); ok = y[n] == K::mk(9, 99) && y[n - 1] == K::mk(9, 99); for (int i = 1; i < n; ++i) ok &= y[i - 1] == v0[i]; CK(ok, "copy-overlap");
    }
    { std::vector<T> o, w, rej; for (int i = 0; i < n; ++i) (pred(k[i]) ? w : rej).push_back(v0[i]);
      if (form) r::copy_if(v, std::back_inserter(o), pred, pr); else r::copy_if(ARGS, std::back_inserter(o), pred, pr);
      CK(o == w, "copy_if"); o.clear();
      if (form) r::remove_copy_if(v, std::back_inserter(o), pred, pr); else r::remove_copy_if(ARGS, std::back_inserter(o), pred, pr);
      CK(o == rej, "remove_copy_if"); o.clear();
      if (form) r::remove_copy(v, std::back_inserter(o), 1, pr); else r::remove_copy(ARGS, std::back_inserter(o), 1, pr);
      CK(o == rej, "remove_copy"); o.clear();
      std::vector<T> o2(n, K::mk(9, 99)), o3(n, K::mk(9, 99));
      auto res = FORM(r::partition_copy(ARGS, o2.begin(), o3.begin(), pred, pr), r::partition_copy(v, o2.begin(), o3.begin(), pred, pr));
      CK(res.first - o2.begin() == cnt && res.second - o3.begin() == n - cnt && std::equal(w.begin(), w.end(), o2.begin()) && std::equal(rej.begin(), rej.end(), o3.begin()), "partition_copy");
      auto x = v0; auto it = FORM(r::remove_if(x.begin(), x.end(), pred, pr), r::remove_if(x, pred, pr));
      CK(it - x.begin() == n - cnt && std::equal(rej.begin(), rej.end(), x.begin()), "remove_if");
      x = v0; it = FORM(r::remove(x.begin(), x.end(), 1, pr), r::remove(x, 1, pr));
      CK(it - x.begin() == n - cnt && std::equal(rej.begin(), rej.end(), x.begin()), "remove");
      auto both = w; both.insert(both.end(), rej.begin(), rej.end());
      x = v0; it = FORM(r::stable_partition(x.begin(), x.end(), pred, pr), r::stable_partition(x, pred, pr));
      CK(it - x.begin() == cnt && x == both, "stable_partition");
      x = v0; it = FORM(r::partition(x.begin(), x.end(), pred, pr), r::partition(x, pred, pr));
      CK(it - x.begin() == cnt && Bag(x) == Bag(v0) && Bag(std::vector<T>(x.begin(), it)) == Bag(w), "partition");
      CK(FORM(r::is_partitioned(both.begin(), both.end(), pred, pr), r::is_partitioned(both, pred, pr)), "is_partitioned");
      CK(FORM(r::partition_point(both.begin(), both.end(), pred, pr), r::partition_point(both, pred, pr)) - both.begin() == cnt, "partition_point");
      bool isp = true; for (int i = 1; i < n; ++i) if (pred(k[i]) && !pred(k[i - 1])) isp = false;
      CK(FORM(r::is_partitioned(ARGS, pred, pr), r::is_partitioned(v, pred, pr)) == isp, "is_partitioned");
      // replace
      T nv = K::mk(7, 77); std::vector<T> rw = v0; for (int i = 0; i < n; ++i) if (pred(k[i])) rw[i] = nv;
      x = v0; auto e = FORM(r::replace_if(x.begin(), x.end(), pred, nv, pr), r::replace_if(x, pred, nv, pr)); CK(x == rw && e == x.end(), "replace_if");
      o.assign(n, nv); auto oe = FORM(r::replace_copy_if(ARGS, o.begin(), pred, nv, pr), r::replace_copy_if(v, o.begin(), pred, nv, pr)); CK(o == rw && oe == o.end() && v == v0, "replace_copy_if");
      if constexpr (K::kDef) {
        x = v0; auto e2 = FORM(r::replace(x.begin(), x.end(), 1, 7), r::replace(x, 1, 7)); CK(x == rw && e2 == x.end(), "replace");
        o.assign(n, nv); /* the unit test pins the returned iterator to the end of the input */ if (form) r::replace_copy(v, o.begin(), 1, 7); else r::replace_copy(ARGS, o.begin(), 1, 7); CK(o == rw && v == v0, "replace_copy");
      }
    }
    { std::vector<int> o(n + 1, 99); auto it = FORM(r::transform(ARGS, o.begin(), [](int x) { return 5 * x + 1; }, pr), r::transform(v, o.begin(), [](int x) { return 5 * x + 1; }, pr));
      bool ok = it - o.begin() == n && o[n] == 99; for (int i = 0; i < n; ++i) ok &= o[i] == 5 * k[i] + 1; CK(ok, "transform"); }
    { auto x = v0; x.push_back(K::mk(8, 88)); auto e = x.end() - 1; T f = K::mk(7, 77);
      auto it = r::fill(x.begin(), e, f); bool ok = it == e && x[n] == K::mk(8, 88); for (int i = 0; i < n; ++i) ok &= x[i] == f; CK(ok, "fill");
      auto y = v0; auto ye = r::fill(y, f); CK(ye == y.end() && y == std::vector<T>(n, f), "fill-range");
      for (int m = 0; m <= n; ++m) { y = v0; auto it2 = r::fill_n(y.begin(), m, f); ok = it2 - y.begin() == m; for (int i = 0; i < n; ++i) ok &= y[i] == (i < m ? f : v0[i]); CK(ok, "fill_n");
        y = v0; int g = 0; it2 = r::generate_n(y.begin(), m, [&] { ++g; return K::mk(g, 50 + g); }); ok = it2 - y.begin() == m && g == m; for (int i = 0; i < n; ++i) ok &= y[i] == (i < m ? K::mk(i + 1, 51 + i) : v0[i]); CK(ok, "generate_n"); }
      y = v0; int g = 0; auto gen = [&] { ++g; return K::mk(g, 50 + g); }; auto ge = FORM(r::generate(y.begin(), y.end(), gen), r::generate(y, gen)); ok = ge == y.end() && g == n; for (int i = 0; i < n; ++i) ok &= y[i] == K::mk(i + 1, 51 + i); CK(ok, "generate"); }
    // unique
    ByEq<K>([&](auto... cp) {
      std::vector<T> w; for (int i = 0; i < n; ++i) if (w.empty() || !K::keq(K::key(w.back()), k[i])) w.push_back(v0[i]);
      auto x = v0; auto it = FORM(r::unique(x.begin(), x.end(), cp...), r::unique(x, cp...));
      CK(it - x.begin() == int(w.size()) && std::equal(w.begin(), w.end(), x.begin()), "unique");
      std::vector<T> o(n, K::mk(9, 99)); auto oe = FORM(r::unique_copy(ARGS, o.begin(), cp...), r::unique_copy(v, o.begin(), cp...));
      CK(oe - o.begin() == int(w.size()) && std::equal(w.begin(), w.end(), o.begin()), "unique_copy");
    });
    // reverse, rotate, shuffle
    { auto x = v0; std::vector<T> w(v0.rbegin(), v0.rend()); auto e = FORM(r::reverse(x.begin(), x.end()), r::reverse(x)); CK(x == w && e == x.end(), "reverse");
      std::vector<T> o(n, K::mk(9, 99)); auto oe = FORM(r::reverse_copy(ARGS, o.begin()), r::reverse_copy(v, o.begin())); CK(o == w && oe == o.end(), "reverse_copy"); }
    for (int m = 0; m <= n; ++m) {
      std::vector<T> w(v0.begin() + m, v0.end()); w.insert(w.end(), v0.begin(), v0.begin() + m);
      auto x = v0; auto it = FORM(r::rotate(x.begin(), x.begin() + m, x.end()), r::rotate(x, x.begin() + m)); CK(x == w && it - x.begin() == n - m, "rotate");
      std::vector<T> o(n, K::mk(9, 99)); auto oe = FORM(r::rotate_copy(v.begin(), v.begin() + m, v.end(), o.begin()), r::rotate_copy(v, v.begin() + m, o.begin())); CK(o == w && oe == o.end(), "rotate_copy");
    }
    { auto x = v0; std::mt19937 g(3); auto e = FORM(r::shuffle(x.begin(), x.end(), g), r::shuffle(x, g)); CK(Bag(x) == Bag(v0) && e == x.end(), "shuffle"); }
    // sorting
    auto ss = StableSorted<K>(v0); Ints sk = Keys<K>(ss);
    ByLess<K>([&](auto... cp) {
      auto x = v0; auto e = FORM(r::sort(x.begin(), x.end(), cp...), r::sort(x, cp...)); CK(e == x.end() && Bag(x) == Bag(v0) && SortedK<K>(Keys<K>(x)), "sort");
      x = v0; e = FORM(r::stable_sort(x.begin(), x.end(), cp...), r::stable_sort(x, cp...)); CK(e == x.end() && x == ss, "stable_sort");
      for (int m = 0; m <= n; ++m) {
        auto part = [&](const std::vector<T>& y, int m) { Ints z = Keys<K>(y); bool ok = Bag(y) == Bag(v0); for (int i = 0; i < m; ++i) { ok &= !K::klt(z[i], sk[i]) && !K::klt(sk[i], z[i]); for (int j = m; j < n; ++j) ok &= !K::klt(z[j], z[i]); } return ok; };
        x = v0; e = FORM(r::partial_sort(x.begin(), x.begin() + m, x.end(), cp...), r::partial_sort(x, x.begin() + m, cp...)); CK(e == x.end() && part(x, m), "partial_sort");
        if (m < n) { x = v0; e = FORM(r::nth_element(x.begin(), x.begin() + m, x.end(), cp...), r::nth_element(x, x.begin() + m, cp...)); Ints z = Keys<K>(x); bool ok = e == x.end() && Bag(x) == Bag(v0) && !K::klt(z[m], sk[m]) && !K::klt(sk[m], z[m]);
          for (int i = 0; i < m; ++i) for (int j = m; j < n; ++j) ok &= !K::klt(z[j], z[i]); CK(ok, "nth_element"); }
        auto y = std::vector<T>(v0.begin(), v0.begin() + m), z = std::vector<T>(v0.begin() + m, v0.end());
        y = StableSorted<K>(y); z = StableSorted<K>(z); x = y; x.insert(x.end(), z.begin(), z.end());
        auto want = StableSorted<K>(x);
        e = FORM(r::inplace_merge(x.begin(), x.begin() + m, x.end(), cp...), r::inplace_merge(x, x.begin() + m, cp...)); CK(e == x.end() && x == want, "inplace_merge");
      }
      int su = n; for (int i = n - 1; i > 0; --i) if (K::klt(k[i], k[i - 1])) su = i;
      CK(FORM(r::is_sorted_until(ARGS, cp...), r::is_sorted_until(v, cp...)) - v.begin() == su, "is_sorted_until");
      CK(FORM(r::is_sorted(ARGS, cp...), r::is_sorted(v, cp...)) == (su == n), "is_sorted");
      // binary searches on the sorted sequence
      for (int val = -1; val < 4; ++val) {
        int lo = 0, hi = 0; for (int i = 0; i < n; ++i) { lo += K::klt(sk[i], val); hi += !K::klt(val, sk[i]); }
        CK(FORM(r::lower_bound(ss.begin(), ss.end(), val, cp...), r::lower_bound(ss, val, cp...)) - ss.begin() == lo, "lower_bound");
        CK(FORM(r::upper_bound(ss.begin(), ss.end(), val, cp...), r::upper_bound(ss, val, cp...)) - ss.begin() == hi, "upper_bound");
        auto er = FORM(r::equal_range(ss.begin(), ss.end(), val, cp...), r::equal_range(ss, val, cp...)); CK(er.first - ss.begin() == lo && er.second - ss.begin() == hi, "equal_range");
        CK(FORM(r::binary_search(ss.begin(), ss.end(), val, cp...), r::binary_search(ss, val, cp...)) == (lo < hi), "binary_search");
      }
      // heaps
      int hu = n; for (int i = n - 1; i > 0; --i) if (K::klt(k[(i - 1) / 2], k[i])) hu = i;
      CK(FORM(r::is_heap_until(ARGS, cp...), r::is_heap_until(v, cp...)) - v.begin() == hu, "is_heap_until");
      CK(FORM(r::is_heap(ARGS, cp...), r::is_heap(v, cp...)) == (hu == n), "is_heap");
      x = v0; e = FORM(r::make_heap(x.begin(), x.end(), cp...), r::make_heap(x, cp...)); CK(e == x.end() && Bag(x) == Bag(v0) && HeapK<K>(Keys<K>(x), n), "make_heap");
      auto h = x;
      if (n) { T top = h[0]; auto y = h; e = FORM(r::pop_heap(y.begin(), y.end(), cp...), r::pop_heap(y, cp...)); CK(e == y.end() && Bag(y) == Bag(v0) && y[n - 1] == top && HeapK<K>(Keys<K>(y), n - 1), "pop_heap"); 
        for (int val = 0; val < 3; ++val) { y = h; y.push_back(K::mk(val, 60)); auto bag = Bag(y); e = FORM(r::push_heap(y.begin(), y.end(), cp...), r::push_heap(y, cp...)); CK(e == y.end() && Bag(y) == bag && HeapK<K>(Keys<K>(y), n + 1), "push_heap"); } }
      e = FORM(r::sort_heap(h.begin(), h.end(), cp...), r::sort_heap(h, cp...)); CK(e == h.end() && Bag(h) == Bag(v0) && SortedK<K>(Keys<K>(h)), "sort_heap");
      // extrema: first minimum, first maximum (minmax: last maximum)
      int mn = 0, mx = 0, lm = 0; for (int i = 1; i < n; ++i) { if (K::klt(k[i], k[mn])) mn = i; if (K::klt(k[mx], k[i])) mx = i; if (!K::klt(k[i], k[lm])) lm = i; }
      CK(FORM(r::min_element(ARGS, cp...), r::min_element(v, cp...)) - v.begin() == mn, "min_element");
      CK(FORM(r::max_element(ARGS, cp...), r::max_element(v, cp...)) - v.begin() == mx, "max_element");
      auto mm = FORM(r::minmax_element(ARGS, cp...), r::minmax_element(v, cp...)); CK(mm.first - v.begin() == mn && mm.second - v.begin() == (n ? lm : 0), "minmax_element");
      if (n) {
        CK(r::min(v, cp...) == v0[mn], "min-range"); CK(r::max(v, cp...) == v0[mx], "max-range");
        auto p = r::minmax(v, cp...); CK(p.first == v0[mn] && p.second == v0[lm], "minmax-range");
      }
      if (n == 2) {
        CK(r::min(v0[0], v0[1], cp...) == v0[mn], "min"); CK(r::max(v0[0], v0[1], cp...) == v0[mx], "max");
        CK(&r::min(v[0], v[1], cp...) == &v[mn], "min-ref"); CK(&r::max(v[0], v[1], cp...) == &v[mx], "max-ref");
        auto p = r::minmax(v[0], v[1], cp...); CK(p.first == v0[mn] && p.second == v0[lm], "minmax");
        CK(r::min({v0[0], v0[1]}, cp...) == v0[mn], "min-list"); CK(r::max({v0[0], v0[1]}, cp...) == v0[mx], "max-list");
        auto q = r::minmax({v0[0], v0[1]}, cp...); CK(q.first == v0[mn] && q.second == v0[lm], "minmax-list");
      }
      if (n == 3) {
        CK(r::min({v0[0], v0[1], v0[2]}, cp...) == v0[mn], "min-list"); CK(r::max({v0[0], v0[1], v0[2]}, cp...) == v0[mx], "max-list");
        auto q = r::minmax({v0[0], v0[1], v0[2]}, cp...); CK(q.first == v0[mn] && q.second == v0[lm], "minmax-list");
      }
      // permutations: next is the least greater rearrangement of the keys' classes
      auto lex = [&](const Ints& p, const Ints& q) { for (size_t i = 0; i < p.size(); ++i) { if (K::klt(p[i], q[i])) return -1; if (K::klt(q[i], p[i])) return 1; } return 0; };
      if (n <= 4) {
        std::vector<int> idx(n); std::iota(idx.begin(), idx.end(), 0); Ints nb, pb; bool hn = false, hp = false; Ints lo = k, hi = k;
        do {
          Ints p; for (int i : idx) p.push_back(k[i]);
          if (lex(p, k) > 0 && (!hn || lex(p, nb) < 0)) { hn = true; nb = p; }
          if (lex(p, k) < 0 && (!hp || lex(p, pb) > 0)) { hp = true; pb = p; }
          if (lex(p, lo) < 0) lo = p;
          if (lex(p, hi) > 0) hi = p;
        } while (std::next_permutation(idx.begin(), idx.end()));
        x = v0; bool got = FORM(r::next_permutation(x.begin(), x.end(), cp...), r::next_permutation(x, cp...)); CK(got == hn && Bag(x) == Bag(v0) && lex(Keys<K>(x), hn ? nb : lo) == 0, "next_permutation");
        x = v0; got = FORM(r::prev_permutation(x.begin(), x.end(), cp...), r::prev_permutation(x, cp...)); CK(got == hp && Bag(x) == Bag(v0) && lex(Keys<K>(x), hp ? pb : hi) == 0, "prev_permutation");
      }
    });
    CK(v == v0, "const");
  }
  c.states(1);
}
// ---- algorithms on two sequences
template <typename K> void Two(mc::Ctx& c, const Ints& a, const Ints& b) {
  using T = typename K::T;
  auto v = Mk<K>(a); auto w = Mk2<K>(b); Ints k = Keys<K>(v); int n = int(a.size()), m = int(b.size());
  auto v0 = v; auto w0 = w;
  for (int form = 0; form < 2; ++form) {
    std::string where = Str(a) + " " + Str(b) + (form ? "range" : "iter");
#define ARGS2 v.begin(), v.end(), w.begin(), w.end()
    ByEq2<K>([&](auto... cp) {
      auto at = [&](int i) { if (i + m > n) return false; for (int j = 0; j < m; ++j) if (!K::keq(k[i + j], b[j])) return false; return true; };
      int s = n, e = n; for (int i = n - m; i >= 0; --i) if (at(i)) s = i;
      if (m) { for (int i = 0; i + m <= n; ++i) if (at(i)) e = i; }
      CK(FORM(r::search(ARGS2, cp...), r::search(v, w, cp...)) - v.begin() == s, "search");
      CK(FORM(r::find_end(ARGS2, cp...), r::find_end(v, w, cp...)) - v.begin() == e, "find_end");
      int f = n; for (int i = n; i-- > 0;) for (int j = 0; j < m; ++j) if (K::keq(k[i], b[j])) f = i;
      CK(FORM(r::find_first_of(ARGS2, cp...), r::find_first_of(v, w, cp...)) - v.begin() == f, "find_first_of");
      int d = 0; while (d < n && d < m && K::keq(k[d], b[d])) ++d;
      auto mi = FORM(r::mismatch(ARGS2, cp...), r::mismatch(v, w, cp...)); CK(mi.first - v.begin() == d && mi.second - w.begin() == d, "mismatch");
      CK(FORM(r::equal(ARGS2, cp...), r::equal(v, w, cp...)) == (n == m && d == n), "equal");
    });
    if constexpr (std::is_same_v<K, K0>) {
      Ints x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      CK(FORM(r::is_permutation(ARGS2), r::is_permutation(v, w)) == (x == y), "is_permutation");
      auto p = v; auto q = w; auto sr = FORM(r::swap_ranges(p.begin(), p.end(), q.begin(), q.end()), r::swap_ranges(p, q)); int l = std::min(n, m);
      bool ok = sr - q.begin() == l; for (int i = 0; i < n; ++i) ok &= p[i] == (i < l ? b[i] : a[i]); for (int i = 0; i < m; ++i) ok &= q[i] == (i < l ? a[i] : b[i]); CK(ok, "swap_ranges");
    } else if constexpr (std::is_same_v<K, K1>) {
      auto z = Mk<K>(b, 10); Ints x = a, y; for (auto& t : z) y.push_back(t.u); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      { Ints xx = a, yy = b; std::sort(xx.begin(), xx.end()); std::sort(yy.begin(), yy.end()); auto z2 = Mk<K>(b, 10);
        CK(FORM(r::is_permutation(v.begin(), v.end(), z2.begin(), z2.end(), r::equal_to(), &E::v, &E::v), r::is_permutation(v, z2, r::equal_to(), &E::v, &E::v)) == (xx == yy), "is_permutation");
        CK(FORM(r::is_permutation(v.begin(), v.end(), w.begin(), w.end(), r::equal_to(), &E::v, &G::w), r::is_permutation(v, w, r::equal_to(), &E::v, &G::w)) == (xx == yy), "is_permutation"); }
      CK(FORM(r::is_permutation(v.begin(), v.end(), z.begin(), z.end(), r::equal_to(), &E::v, &E::u), r::is_permutation(v, z, r::equal_to(), &E::v, &E::u)) == (x == y), "is_permutation-ambiguous");
      CK(FORM(r::is_permutation(z.begin(), z.end(), v.begin(), v.end(), r::equal_to(), &E::u, &E::v), r::is_permutation(z, v, r::equal_to(), &E::u, &E::v)) == (x == y), "is_permutation-ambiguous");
    }
    ByLess2<K>([&](auto... cp) {
      auto lt = [&](int x, int y) { return K::klt(x, y); };
      int l = 0; bool lc = false; for (;; ++l) { if (l == m) { lc = false; break; } if (l == n) { lc = true; break; } if (lt(k[l], b[l])) { lc = true; break; } if (lt(b[l], k[l])) { lc = false; break; } }
      CK(FORM(r::lexicographical_compare(ARGS2, cp...), r::lexicographical_compare(v, w, cp...)) == lc, "lexicographical_compare");
      // sorted inputs
      auto sv = StableSorted<K>(v0); auto sb = b; for (int i = 1; i < m; ++i) for (int j = i; j > 0 && lt(sb[j], sb[j - 1]); --j) std::swap(sb[j], sb[j - 1]);
      auto sw = Mk2<K>(sb); Ints sk = Keys<K>(sv);
      bool inc = true; { Ints rest = sk; for (int y : sb) { bool hit = false; for (size_t i = 0; i < rest.size(); ++i) if (!lt(rest[i], y) && !lt(y, rest[i])) { rest.erase(rest.begin() + i); hit = true; break; } inc &= hit; } }
      CK(FORM(r::includes(sv.begin(), sv.end(), sw.begin(), sw.end(), cp...), r::includes(sv, sw, cp...)) == inc, "includes");
    });
    // transform with two ranges
    { Ints o(std::min(n, m) + 1, 99); auto op = [](int x, int y) { return 10 * x + y; };
      auto it = FORM(r::transform(ARGS2, o.begin(), op, K::pr(), Pr2<K>()), r::transform(v, w, o.begin(), op, K::pr(), Pr2<K>()));
      bool ok = it - o.begin() == std::min(n, m) && o.back() == 99; for (int i = 0; i < std::min(n, m); ++i) ok &= o[i] == 10 * k[i] + b[i]; CK(ok, "transform2"); }
    // merge and set operations need a common output element: the second sequence is of the same type with another projection
    {
      auto z = Mk<K>(b, 10);
      std::vector<int> kz;
      // |amb|: two different projections that both accept either element.
      auto doit = [&](bool amb, auto pr2, auto key2) {
        auto sv = StableSorted<K>(v0); auto sz = z;
        for (int i = 1; i < m; ++i) for (int j = i; j > 0 && K::klt(key2(sz[j]), key2(sz[j - 1])); --j) std::swap(sz[j], sz[j - 1]);
        auto run = [&](auto... cp) {
          struct El { T t; int k; }; std::vector<El> p, q;
          for (auto& t : sv) p.push_back({t, K::key(t)});
          for (auto& t : sz) q.push_back({t, key2(t)});
          std::vector<T> mg, un, in, di, sy; size_t i = 0, j = 0;
          { auto lt = [&](const El& x, const El& y) { return K::klt(x.k, y.k); };
            size_t x = 0, y = 0; while (x < p.size() || y < q.size()) { if (y < q.size() && (x == p.size() || lt(q[y], p[x]))) mg.push_back(q[y++].t); else mg.push_back(p[x++].t); }
            while (i < p.size() || j < q.size()) {
              if (j == q.size() || (i < p.size() && lt(p[i], q[j]))) { un.push_back(p[i].t); di.push_back(p[i].t); sy.push_back(p[i].t); ++i; }
              else if (i == p.size() || lt(q[j], p[i])) { un.push_back(q[j].t); sy.push_back(q[j].t); ++j; }
              else { un.push_back(p[i].t); in.push_back(p[i].t); ++i; ++j; }
            } }
#define SET(alg, want) do { std::vector<T> o(n + m + 1, K::mk(9, 99)); \
            auto it = form ? r::alg(sv, sz, o.begin(), cp...) : r::alg(sv.begin(), sv.end(), sz.begin(), sz.end(), o.begin(), cp...); \
            CK(it - o.begin() == int(want.size()) && std::equal(want.begin(), want.end(), o.begin()), amb ? #alg "-ambiguous" : #alg); } while (0)
          SET(merge, mg); SET(set_union, un); SET(set_intersection, in); SET(set_difference, di); SET(set_symmetric_difference, sy);
        };
        run(K::lt(), K::pr(), pr2);
        if constexpr (K::kDef) run();
      };
      doit(false, K::pr(), [](const T& t) { return K::key(t); });
      if constexpr (std::is_same_v<K, K1> || std::is_same_v<K, K3>) doit(true, &E::u, [](const T& t) { return t.u; });
      if constexpr (std::is_same_v<K, K2>) doit(true, &E::v, [](const T& t) { return t.v; });
    }
    // partial_sort_copy: output ranges of every size
    ByLess<K>([&](auto... cp) {
      auto ss = Keys<K>(StableSorted<K>(v0));
      std::vector<T> o(m + 1, K::mk(9, 99)); int l = std::min(n, m);
      if constexpr (sizeof...(cp) == 2) {
        auto tup = std::make_tuple(cp...);
        auto it = r::partial_sort_copy(v.begin(), v.end(), o.begin(), o.begin() + m, std::get<0>(tup), std::get<1>(tup), std::get<1>(tup));
        bool ok = it - o.begin() == l && o[m] == K::mk(9, 99); for (int i = 0; i < l; ++i) { int y = K::key(o[i]); ok &= !K::klt(y, ss[i]) && !K::klt(ss[i], y); } CK(ok, "partial_sort_copy");
        std::vector<T> o2(m, K::mk(9, 99)); auto it2 = r::partial_sort_copy(v, o2, std::get<0>(tup), std::get<1>(tup), std::get<1>(tup));
        ok = it2 - o2.begin() == l; for (int i = 0; i < l; ++i) { int y = K::key(o2[i]); ok &= !K::klt(y, ss[i]) && !K::klt(ss[i], y); } CK(ok, "partial_sort_copy-range");
      }
    });
    CK(v == v0 && w == w0, "const2");
  }
  c.states(1);
}
template <typename K> void AllOne(mc::Ctx& c) {
  int max = c.thorough ? 7 : 5; size_t i = 0;
  for (int n = 0; n <= max; ++n) mc::tuples(n, 3, [&](const Ints& a) { if (c.mine(i++)) { c.trace(); One<K>(c, a); } });
  for (int n : {6, 9, 17, 33}) mc::tuples(n == 6 ? 6 : 4, 2, [&](const Ints& s) { if (!c.mine(i++)) return; Ints a; for (int j = 0; j < n; ++j) a.push_back((s[j % s.size()] + j * j) % 3); c.trace(); One<K>(c, a); });
}
template <typename K> void AllTwo(mc::Ctx& c) {
  int max = c.thorough ? 5 : 4; size_t i = 0;
  for (int n = 0; n <= max; ++n) mc::tuples(n, 3, [&](const Ints& a) {
    if (!c.mine(i++)) return;
    c.trace();
    for (int m = 0; m <= (c.thorough ? 4 : 3); ++m) mc::tuples(m, 3, [&](const Ints& b) { Two<K>(c, a, b); });
  });
}
MC_SECTION(one_int, 2) { AllOne<K0>(c); }
MC_SECTION(one_proj, 2) { AllOne<K1>(c); }
MC_SECTION(one_greater, 2) { AllOne<K2>(c); }
MC_SECTION(one_classes, 2) { AllOne<K3>(c); }
MC_SECTION(two_int, 2) { AllTwo<K0>(c); }
MC_SECTION(two_proj, 2) { AllTwo<K1>(c); }
MC_SECTION(two_greater, 2) { AllTwo<K2>(c); }
MC_SECTION(two_classes, 2) { AllTwo<K3>(c); }

// ---- ranges.h and weaker iterator categories
struct Adl { int a[3] = {1, 2, 3}; };
int* begin(Adl& x) { return x.a; }
int* end(Adl& x) { return x.a + 3; }
MC_SECTION(access, 1) {
  std::string where = "access";
  int arr[4] = {3, 1, 2, 1}; const int carr[2] = {5, 6}; std::array<int, 3> sa = {1, 2, 3}; const std::array<int, 3> csa = {4, 5, 6}; std::array<int, 0> za; std::vector<int> v = {1, 2}; Adl adl;
  CK(r::begin(arr) == arr && r::end(arr) == arr + 4, "array"); CK(r::begin(carr) == carr && r::end(carr) == carr + 2, "const-array");
  CK(r::begin(sa) == sa.data() && r::end(sa) == sa.data() + 3, "std-array"); CK(r::begin(csa) == csa.data() && r::end(csa) == csa.data() + 3, "const-std-array");
  CK(r::begin(za) == r::end(za), "empty-std-array"); CK(r::begin(v) == v.begin() && r::end(v) == v.end(), "member"); CK(r::begin(adl) == adl.a && r::end(adl) == adl.a + 3, "adl");
  CK(r::count(arr, 1) == 2 && r::count(sa, 2) == 1 && r::find(csa, 5) == csa.data() + 1 && r::count(adl, 3) == 1, "ranges");
  mc::tuples(4, 3, [&](const Ints& a) {
    where = Str(a); std::list<int> l(a.begin(), a.end()); Ints s = a; std::sort(s.begin(), s.end());
    r::reverse(l); CK(Ints(l.begin(), l.end()) == Ints(a.rbegin(), a.rend()), "list-reverse"); r::reverse(l);
    CK(std::distance(l.begin(), r::find(l, 1)) == std::find(a.begin(), a.end(), 1) - a.begin(), "list-find");
    auto it = r::remove(l, 1); CK(std::distance(l.begin(), it) == 4 - std::count(a.begin(), a.end(), 1), "list-remove");
    int raw[4]; std::copy(a.begin(), a.end(), raw); r::sort(raw); CK(Ints(raw, raw + 4) == s, "array-sort");
    c.states(1);
  });
  c.trace();
}
}  // namespace
