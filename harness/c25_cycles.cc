// Copy constraints: linking cells yields exactly the equivalence the links generate.
#include <map>
#include <numeric>
#include <set>

#include "mc/mc.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"

namespace {
using namespace tachyon;
using namespace tachyon::zk::plonk;
using tachyon::zk::RowIndex;
const bool quiet = (FLAGS_minloglevel = 3, true);

struct Classes {
  std::vector<int> p;
  explicit Classes(int n) : p(size_t(n)) { std::iota(p.begin(), p.end(), 0); }
  int find(int x) const { while (p[size_t(x)] != x) x = p[size_t(x)]; return x; }
  bool join(int a, int b) { a = find(a); b = find(b); if (a == b) return false; p[size_t(std::max(a, b))] = std::min(a, b); return true; }
};
std::vector<AnyColumnKey> Keys(int cols) {
  std::vector<AnyColumnKey> k;
  for (int i = 0; i < cols; ++i) { if (i % 3 == 0) k.push_back(AdviceColumnKey(size_t(i), kFirstPhase)); else if (i % 3 == 1) k.push_back(FixedColumnKey(size_t(i - 1))); else k.push_back(InstanceColumnKey(size_t(i - 2))); }
  return k;
}
Label At(int cell, int rows) { return Label(size_t(cell / rows), RowIndex(cell % rows)); }
int Of(const Label& l, int rows) { return int(l.col) * rows + int(l.row); }

void CheckStore(mc::Ctx& c, const CycleStore& s, const Classes& cl, int cols, int rows, const std::vector<std::pair<int, int>>& links) {
  int n = cols * rows;
  auto show = [&] { std::string t = std::to_string(cols) + "x" + std::to_string(rows); for (auto& l : links) t += " " + std::to_string(l.first) + "~" + std::to_string(l.second); return t; };
  std::vector<int> hit(size_t(n), 0);
  for (int i = 0; i < n; ++i) {
    std::set<int> want, got; for (int j = 0; j < n; ++j) if (cl.find(i) == cl.find(j)) want.insert(j);
    int l = i, steps = 0; do { got.insert(l); l = Of(s.GetNextLabel(At(l, rows)), rows); } while (l != i && ++steps <= n);
    hit[size_t(Of(s.GetNextLabel(At(i, rows)), rows))]++;
    MC_CHECK(c, got == want && l == i, "cycle", show() << ": the cycle of " << i);
    MC_CHECK(c, s.GetCycleSize(At(i, rows)) == want.size(), "size", show() << ": " << i);
    std::vector<Label> all = s.GetAllLabels(At(i, rows)); std::vector<int> cells; for (const Label& x : all) cells.push_back(Of(x, rows)); std::sort(cells.begin(), cells.end());
    MC_CHECK(c, cells == std::vector<int>(want.begin(), want.end()), "labels", show() << ": of " << i << " " << mc::vstr(cells));
    MC_CHECK(c, want.count(Of(s.GetCycleBase(At(i, rows)), rows)), "base", show() << ": " << i);
    for (int j = 0; j < n; ++j) MC_CHECK(c, s.CheckSameCycle(At(i, rows), At(j, rows)) == (want.count(j) > 0), "same", show() << ": " << i << " and " << j);
  }
  for (int h : hit) MC_CHECK(c, h == 1, "permutation", show());
}
template <typename FN>
void Histories(mc::Ctx& c, int cols, int rows, int depth, FN fn) {
  int n = cols * rows; uint64_t id = 0;
  mc::tuples(depth, n * n, [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("cells", cols, rows, id);
    std::vector<std::pair<int, int>> links; for (int x : v) links.emplace_back(x / n, x % n);
    c.states(1); c.trace(); c.step(uint64_t(depth)); if (c.want_sample()) c.sample(std::to_string(cols) + "x" + std::to_string(rows) + " links " + mc::vstr(v)); fn(links);
  });
}
MC_SECTION(stores, 8) {
  for (auto [cols, rows, depth] : std::vector<std::array<int, 3>>{{1, 1, 2}, {1, 3, 4}, {3, 1, 4}, {2, 2, c.thorough ? 5 : 4}, {2, 3, 3}, {3, 2, 3}, {4, 2, 2}, {2, 4, c.thorough ? 3 : 2}, {5, 3, 2}})
    Histories(c, cols, rows, depth, [&, cols = cols, rows = rows](const std::vector<std::pair<int, int>>& links) {
      CycleStore s{size_t(cols), RowIndex(rows)}; Classes cl(cols * rows);
      for (auto& [a, b] : links) { bool merged = cl.join(a, b); bool got = s.MergeCycle(At(a, rows), At(b, rows)); MC_CHECK(c, got == merged, "merged", a << "~" << b << " after " << links.size()); }
      CheckStore(c, s, cl, cols, rows, links);
    });
}
// Chains and unions of long cycles, in every order.
MC_SECTION(merges, 4) {
  uint64_t id = 0; std::vector<int> order = {0, 1, 2, 3, 4, 5, 6};
  do { if (!c.mine(id++)) continue; mc::at("order", id); CycleStore s{2, 4}; Classes cl(8); std::vector<std::pair<int, int>> links; for (int k : order) { links.emplace_back(k, k + 1); cl.join(k, k + 1); s.MergeCycle(At(k, 4), At(k + 1, 4)); if (links.size() == 4) CheckStore(c, s, cl, 2, 4, links); } c.states(1); c.trace(); c.step(7); CheckStore(c, s, cl, 2, 4, links); } while (std::next_permutation(order.begin(), order.end()));
}
template <typename F>
void Assembly(mc::Ctx& c) {
  F::Init();
  using Domain = math::UnivariateEvaluationDomain<F, 31>; using Evals = math::UnivariateEvaluations<F, 31>;
  F delta = GetDelta<F>();
  for (auto [cols, rows, depth] : std::vector<std::array<int, 3>>{{1, 4, 2}, {2, 2, 3}, {3, 4, 2}, {4, 2, 2}, {5, 2, 2}}) {
    auto domain = math::UnivariateEvaluationDomainFactory<F, 31>::Create(size_t(rows)); F w = domain->group_gen();
    std::map<std::string, int> where; std::vector<F> name;  // delta^col * w^row, all different
    for (int i = 0; i < cols * rows; ++i) { F x = F::One(); for (int k = 0; k < i / rows; ++k) x *= delta; for (int k = 0; k < i % rows; ++k) x *= w; where[x.ToString()] = i; name.push_back(x); }
    MC_CHECK(c, where.size() == size_t(cols * rows), "names", "the names of " << cols << "x" << rows << " cells collide");
    UnpermutedTable<Evals> table = UnpermutedTable<Evals>::Construct(size_t(cols), RowIndex(rows), domain.get());
    for (int i = 0; i < cols * rows; ++i) MC_CHECK(c, table[At(i, rows)] == name[size_t(i)], "unpermuted", cols << "x" << rows << " cell " << i);
    std::vector<AnyColumnKey> keys = Keys(cols);
    Histories(c, cols, rows, depth, [&, cols = cols, rows = rows](const std::vector<std::pair<int, int>>& links) {
      PermutationAssembly a{PermutationArgument(keys), RowIndex(rows)}; Classes cl(cols * rows);
      for (auto& [x, y] : links) { cl.join(x, y); a.Copy(keys[size_t(x / rows)], RowIndex(x % rows), keys[size_t(y / rows)], RowIndex(y % rows)); }
      std::vector<Evals> p = a.template GeneratePermutations<Evals>(domain.get());
      MC_CHECK(c, p.size() == size_t(cols), "columns", p.size());
      std::vector<int> next;
      for (int i = 0; i < cols * rows; ++i) { auto it = where.find(p[size_t(i / rows)][size_t(i % rows)].ToString()); MC_CHECK(c, it != where.end(), "name", "cell " << i << " " << cols << "x" << rows); if (it == where.end()) return; next.push_back(it->second); }
      for (int i = 0; i < cols * rows; ++i) { std::set<int> got; int l = i; do { got.insert(l); l = next[size_t(l)]; } while (!got.count(l)); std::set<int> want; for (int j = 0; j < cols * rows; ++j) if (cl.find(i) == cl.find(j)) want.insert(j); MC_CHECK(c, got == want && l == i, "assembly", cols << "x" << rows << " cell " << i << " after " << links.size() << " links"); }
    });
  }
}
MC_SECTION(assembly_bn254, 4) { Assembly<math::bn254::Fr>(c); }
MC_SECTION(assembly_bls12_381, 4) { Assembly<math::bls12_381::Fr>(c); }
// The cosets delta^i * H of every domain the proof may use are disjoint.
template <typename F>
void Delta(mc::Ctx& c) {
  F::Init();
  F d = GetDelta<F>(), x = d;
  for (int i = 1; i <= 4096; ++i) { F y = x; for (uint32_t k = 0; k < F::Config::kTwoAdicity; ++k) y.SquareInPlace(); MC_CHECK(c, !y.IsOne(), "cosets", "delta^" << i << " lies in the largest subgroup"); x *= d; }
  c.states(4096); c.step(4096);
}
MC_SECTION(delta, 1) { Delta<math::bn254::Fr>(c); Delta<math::bls12_381::Fr>(c); }
// Cells outside the grid and columns without equality are refused.
MC_SECTION(outside, 4) {
  uint64_t id = 0; std::vector<AnyColumnKey> keys = Keys(3);
  for (int rows = 1; rows <= 4; ++rows) for (int col = 0; col < 3; ++col) for (int bad = rows; bad <= rows + 2; ++bad) for (int side = 0; side < 2; ++side) { if (!c.mine(id++)) continue; c.states(1); c.trace(); c.step();
    MC_CHECK(c, mc::dies([&] { PermutationAssembly a(keys, RowIndex(rows)); if (side) a.Copy(keys[0], 0, keys[size_t(col)], RowIndex(bad)); else a.Copy(keys[size_t(col)], RowIndex(bad), keys[0], 0); }), "row", "row " << bad << " of " << rows); }
  for (int k = 0; k < 3; ++k) { if (!c.mine(id++)) continue; std::vector<AnyColumnKey> some; for (int i = 0; i < 3; ++i) if (i != k) some.push_back(keys[size_t(i)]); MC_CHECK(c, mc::dies([&] { PermutationAssembly a(some, 2); a.Copy(keys[size_t(k)], 0, some[0], 0); }), "column", k); }
}
}  // namespace
