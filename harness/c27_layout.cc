// C27: the simple and the two-pass floor planner on every small list of regions.
#include <map>
#include <set>

#include "mc/fields/m17.h"
#include "mc/mc.h"
#include "mc/two.h"
MC_TWO(mcf::M17)
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/halo2/witness_collection.h"
#include "tachyon/zk/plonk/keys/assembly.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"

namespace {
using namespace tachyon;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
const bool quiet = (FLAGS_minloglevel = 4, true);
using F = math::mcf::M17;
using RF = math::RationalField<F>;
F V(int64_t v) { return F(static_cast<uint32_t>(v % 17)); }
struct Key { int type; size_t index; bool operator<(const Key& o) const { return std::tie(type, index) < std::tie(o.type, o.index); } bool operator==(const Key& o) const { return type == o.type && index == o.index; } };
constexpr int kSel = 100;
Key K(const ColumnKeyBase& k) { return {int(k.type()), k.index()}; }
using At = std::pair<Key, RowIndex>;
std::string Text(const At& a) { return (a.first.type == kSel ? "s" : a.first.type == int(ColumnType::kAdvice) ? "a" : a.first.type == int(ColumnType::kFixed) ? "f" : "i") + std::to_string(a.first.index) + "@" + std::to_string(a.second); }
struct Recorder : Assignment<F> {
  std::map<At, std::vector<RF>> cells; std::multiset<std::pair<At, At>> copies; std::vector<std::string> trace; std::vector<std::tuple<Key, RowIndex, RF>> fills; std::string region; std::map<At, std::string> owner; bool bad = false;
  void Put(const At& a, const RF& v) { cells[a].push_back(v); owner[a] = region; }
  void EnterRegion(std::string_view n) override { if (!region.empty()) bad = true; region = std::string(n); }
  void ExitRegion() override { if (region.empty()) bad = true; region.clear(); }
  void EnableSelector(std::string_view, Selector s, RowIndex r) override { Put({{kSel, s.index()}, r}, RF::One()); }
  Value<F> QueryInstance(const InstanceColumnKey& c, RowIndex r) override { return Value<F>::Known(V(int64_t(3 + 5 * r + c.index()))); }
  void AssignAdvice(std::string_view, const AdviceColumnKey& c, RowIndex r, AssignCallback f) override { Put({K(c), r}, std::move(f).Run().value()); }
  void AssignFixed(std::string_view, const FixedColumnKey& c, RowIndex r, AssignCallback f) override { Put({K(c), r}, std::move(f).Run().value()); }
  void Copy(const AnyColumnKey& a, RowIndex r, const AnyColumnKey& b, RowIndex s) override { At x{K(a), r}, y{K(b), s}; if (y < x) std::swap(x, y); copies.insert({x, y}); }
  void FillFromRow(const FixedColumnKey& c, RowIndex r, const RF& v) override { fills.push_back({K(c), r, v}); }
  void NameColumn(std::string_view n, const AnyColumnKey&) override { trace.push_back("name " + std::string(n)); }
  Value<F> GetChallenge(Challenge c) override { return Value<F>::Known(V(int64_t(c.index() + 2))); }
  void PushNamespace(std::string_view n) override { trace.push_back("push " + std::string(n)); }
  void PopNamespace(const std::optional<std::string>&) override { trace.push_back("pop"); }
};

// A region: columns (bit 0,1: advice, bit 2: selector, bit 3: the constants
// column, bit 4: another fixed column), its height, which column reaches the
// last row, the number of constants and of links to the region before it.
struct Shape { int columns, height, reach, constants, link; };
struct Program { std::vector<Shape> regions; int constant_columns = 1; bool table = false, instance = false; };
std::string Text(const Program& p) { std::string s = std::to_string(p.constant_columns) + " constant columns:"; for (auto& r : p.regions) { s += " {"; for (int i = 0; i < 5; ++i) if (r.columns >> i & 1) s += std::vector<std::string>{"a0 ", "a1 ", "s0 ", "f0 ", "f1 "}[size_t(i)]; s += std::to_string(r.height) + " rows reach " + std::to_string(r.reach) + (r.constants ? " constants " + std::to_string(r.constants) : "") + (r.link ? " link" : "") + "}"; } return s; }
struct Config { using Field = F; int x = 0; Config Clone() const { return *this; } };
Key Col(int i) { return i < 2 ? Key{int(ColumnType::kAdvice), size_t(i)} : i == 2 ? Key{kSel, 0} : Key{int(ColumnType::kFixed), size_t(i - 3)}; }
int First(int columns) { int i = 0; while (!(columns >> i & 1)) ++i; return i; }
struct Circ : Circuit<Config> {
  const Program& p; bool witness; explicit Circ(const Program& p, bool witness = true) : p(p), witness(witness) {}
  std::unique_ptr<Circuit<Config>> WithoutWitness() const override { return std::make_unique<Circ>(p, false); }
  void Synthesize(Config&&, Layouter<F>* layouter) const override {
    std::vector<std::optional<AssignedCell<F>>> cells(p.regions.size());
    for (size_t i = 0; i < p.regions.size(); ++i) {
      const Shape& s = p.regions[i];
      auto assign = [&](Region<F>& region) {
        std::optional<AssignedCell<F>> last; int constants = s.constants, seen = 0;
        for (int k = 0; k < 5; ++k) { if (!(s.columns >> k & 1)) continue; bool full = seen++ == s.reach;
          for (int r = 0; r < s.height; ++r) { if (!full && r != (k == 1 ? s.height / 2 : 0)) continue;
            int64_t value = int64_t(i) * 5 + k + r * 2; auto give = [this, value]() { return witness ? Value<F>::Known(V(value)) : Value<F>::Unknown(); };
            if (k < 2) { AdviceColumnKey col{size_t(k)}; if (constants > 0) { --constants; last = region.AssignAdviceFromConstant("c", col, RowIndex(r), V(value)); } else last = region.AssignAdvice("a", col, RowIndex(r), give); }
            else if (k == 2) region.EnableSelector("s", Selector::Simple(0), RowIndex(r));
            else { region.NameColumn("fixed", FixedColumnKey(size_t(k - 3))); auto known = [value]() { return Value<F>::Known(V(value)); }; auto f = region.AssignFixed("f", FixedColumnKey(size_t(k - 3)), RowIndex(r), known); if (!last) last = f; } } }
        if (p.instance && s.columns & 1) { auto got = region.AssignAdviceFromInstance("i", InstanceColumnKey(0), RowIndex(i), AdviceColumnKey(0), RowIndex(s.height)); last = got; }
        if (s.link && i > 0 && last && cells[i - 1]) region.ConstrainEqual(last->cell(), cells[i - 1]->cell());
        if (last) cells[i] = last; };
      std::string name = "r" + std::to_string(i);
      if (i % 2) { auto sub = layouter->Namespace("ns"); sub->AssignRegion(name, assign); } else layouter->AssignRegion(name, assign);
    }
    if (p.instance && !cells.empty() && cells[0]) layouter->ConstrainInstance(cells[0]->cell(), InstanceColumnKey(0), 7);
    if (p.table) layouter->AssignLookupTable("t", [](LookupTable<F>& t) { for (int r = 0; r < 3; ++r) for (int k = 0; k < 2; ++k) if (!t.AssignCell("", LookupTableColumn(FixedColumnKey(size_t(2 + k))), RowIndex(r), [=]() { return Value<F>::Known(V(r * 2 + k + 1)); })) std::abort(); });
  }
};
int Height(const Program& p, const Shape& s) { bool reached = false; int seen = 0, h = 1; for (int k = 0; k < 5; ++k) { if (!(s.columns >> k & 1)) continue; if (seen++ == s.reach) { reached = true; h = std::max(h, s.height); } else if (k == 1) h = std::max(h, s.height / 2 + 1); } (void)reached; if (p.instance && s.columns & 1) h = std::max(h, s.height + 1); return h; }
// Expected cells of a region, relative to its start.
std::map<At, RF> Cells(const Program& p, size_t i) {
  const Shape& s = p.regions[i]; std::map<At, RF> out; int seen = 0;
  for (int k = 0; k < 5; ++k) { if (!(s.columns >> k & 1)) continue; bool full = seen++ == s.reach; for (int r = 0; r < s.height; ++r) { if (!full && r != (k == 1 ? s.height / 2 : 0)) continue; out[{Col(k), RowIndex(r)}] = k == 2 ? RF::One() : RF(V(int64_t(i) * 5 + k + r * 2)); } }
  if (p.instance && s.columns & 1) out[{Col(0), RowIndex(s.height)}] = RF(V(int64_t(3 + 5 * i)));
  return out;
}
std::vector<FixedColumnKey> ConstantColumns(const Program& p) { std::vector<FixedColumnKey> v; for (int i = 0; i < p.constant_columns; ++i) v.push_back(FixedColumnKey(size_t(i))); return v; }
void Run(const Program& p, bool v1, Assignment<F>* a) { Circ circuit(p); auto constants = ConstantColumns(p); if (v1) { V1FloorPlanner<Circ> planner; planner.Synthesize(a, circuit, Config{}, constants); } else { SimpleFloorPlanner<Circ> planner; planner.Synthesize(a, circuit, Config{}, constants); } }
int AdviceColumns(const Shape& s) { return (s.columns & 1) + (s.columns >> 1 & 1); }

bool Decide(mc::Ctx& c, const Program& p, bool v1, Recorder* out = nullptr) {
  size_t n = p.regions.size(); int constants = 0; for (auto& s : p.regions) { int room = 0; int seen = 0; for (int k = 0; k < 5; ++k) if (s.columns >> k & 1) { bool full = seen++ == s.reach; if (k < 2) room += full ? s.height : s.height > 0 && (k == 1 ? s.height / 2 : 0) < s.height ? 1 : 0; } constants += std::min(s.constants, room); }
  const char* planner = v1 ? "two-pass" : "simple";
  if (constants > 0 && p.constant_columns == 0) { MC_CHECK(c, mc::dies([&]() { Recorder r; Run(p, v1, &r); }), "no column for constants", planner << " " << Text(p)); c.step(1); return true; }
  // Where the regions are must be found from the recorded cells; the two-pass
  // planner may refuse when there is no room for the constants.
  Recorder rec;
  if (v1 && constants > 0) {
    // Plan without the constants first, to know how many free cells there are.
    Program q = p; for (auto& s : q.regions) s.constants = 0; Recorder r; Run(q, true, &r); RowIndex end = 0; std::map<Key, std::set<RowIndex>> used;
    for (size_t i = 0; i < n; ++i) { RowIndex start = ~0u; for (auto& [a, o] : r.owner) if (o == "r" + std::to_string(i)) { auto cells = Cells(q, i); for (auto& [b, v] : cells) if (b.first == a.first) { RowIndex lowest = ~0u; for (auto& [e, w] : r.owner) if (w == o && e.first == a.first) lowest = std::min(lowest, e.second); start = lowest - b.second; break; } break; }
      for (int k = 0; k < 5; ++k) if (p.regions[i].columns >> k & 1) for (int h = 0; h < Height(p, p.regions[i]); ++h) used[Col(k)].insert(start + RowIndex(h)); end = std::max(end, start + RowIndex(Height(p, p.regions[i]))); }
    size_t room = 0; for (int k = 0; k < p.constant_columns; ++k) room += end - used[Col(3 + k)].size();
    if (room < size_t(constants)) { MC_CHECK(c, mc::dies([&]() { Recorder r2; Run(p, v1, &r2); }), "no room for constants", planner << " " << Text(p) << ": room " << room); c.step(1); return true; }
  }
  Run(p, v1, &rec); c.step(1); c.states(1);
  MC_CHECK(c, !rec.bad && rec.region.empty(), "entering and leaving", planner << " " << Text(p));
  // Starts.
  std::vector<RowIndex> start(n); std::map<Key, std::set<RowIndex>> used;
  for (size_t i = 0; i < n; ++i) {
    auto want = Cells(p, i); std::map<At, RF> got; for (auto& [a, o] : rec.owner) if (o == "r" + std::to_string(i)) { MC_CHECK(c, rec.cells[a].size() == 1, "assigned once", planner << " " << Text(p) << " " << Text(a)); got[a] = rec.cells[a].back(); }
    MC_CHECK(c, got.size() == want.size() && !got.empty(), "number of cells", planner << " " << Text(p) << " region " << i << ": " << got.size() << " not " << want.size()); if (got.size() != want.size() || got.empty()) return false;
    start[i] = got.begin()->first.second - want.begin()->first.second; bool same = true; for (auto& [a, v] : want) { auto it = got.find({a.first, a.second + start[i]}); same &= it != got.end() && it->second == v; }
    MC_CHECK(c, same, "cells of a region", planner << " " << Text(p) << " region " << i << " at " << start[i]);
    for (int k = 0; k < 5; ++k) if (p.regions[i].columns >> k & 1) for (int r = 0; r < Height(p, p.regions[i]); ++r) MC_CHECK(c, used[Col(k)].insert(start[i] + RowIndex(r)).second, "overlap", planner << " " << Text(p) << " region " << i << " at " << start[i]);
  }
  for (size_t i = 0; i < n; ++i) {
    const Shape& s = p.regions[i]; RowIndex h = RowIndex(Height(p, s));
    if (v1) { // No earlier place is free of the regions placed before it.
      for (RowIndex at = 0; at < start[i]; ++at) { bool blocked = false; for (size_t j = 0; j < n && !blocked; ++j) { const Shape& o = p.regions[j]; if (j == i || !(o.columns & s.columns) || AdviceColumns(o) * Height(p, o) < AdviceColumns(s) * Height(p, s)) continue; RowIndex g = RowIndex(Height(p, o)); blocked = at < start[j] + g && start[j] < at + h; } MC_CHECK(c, blocked, "earliest row", planner << " " << Text(p) << " region " << i << " at " << start[i] << " though " << at << " is free"); }
    } else if (constants == 0 || !(s.columns & 8)) { RowIndex want = 0; for (size_t j = 0; j < i; ++j) if (p.regions[j].columns & s.columns) want = std::max(want, start[j] + RowIndex(Height(p, p.regions[j]))); MC_CHECK(c, start[i] == want, "row after the columns' last", planner << " " << Text(p) << " region " << i << " at " << start[i]); }
  }
  // Constants: a cell of a constants column of their own, linked to the advice cell.
  auto copies = rec.copies; std::map<At, std::vector<RF>> rest; RowIndex end = 0; for (auto& [k, rows] : used) if (!rows.empty()) end = std::max(end, *rows.rbegin() + 1);
  for (auto& [a, v] : rec.cells) if (rec.owner[a].empty()) rest[a] = v;
  size_t found = 0;
  for (auto& [a, v] : rest) {
    MC_CHECK(c, a.first.type == int(ColumnType::kFixed) && a.first.index < size_t(p.constant_columns) && v.size() == 1 && !used[a.first].count(a.second), "cell of a constant", planner << " " << Text(p) << " " << Text(a)); if (v1) MC_CHECK(c, a.second < end, "constant inside the planned rows", planner << " " << Text(p) << " " << Text(a));
    bool linked = false; for (auto it = copies.begin(); it != copies.end(); ++it) { At o = it->first == a ? it->second : it->first; if (!(it->first == a || it->second == a)) continue; auto cell = rec.cells.find(o); linked = cell != rec.cells.end() && o.first.type == int(ColumnType::kAdvice) && cell->second[0] == v[0]; copies.erase(it); break; }
    MC_CHECK(c, linked, "constant linked", planner << " " << Text(p) << " " << Text(a)); ++found;
  }
  MC_CHECK(c, found == size_t(constants), "number of constants", planner << " " << Text(p) << ": " << found << " of " << constants);
  // Links between regions and instances.
  std::multiset<std::pair<At, At>> want; std::vector<std::optional<At>> last(n);
  for (size_t i = 0; i < n; ++i) {
    const Shape& s = p.regions[i]; std::optional<At> l; int seen = 0;
    for (int k = 0; k < 5; ++k) { if (!(s.columns >> k & 1)) continue; bool full = seen++ == s.reach; for (int r = 0; r < s.height; ++r) { if (!full && r != (k == 1 ? s.height / 2 : 0)) continue; At a{Col(k), start[i] + RowIndex(r)}; if (k < 2 || (k > 2 && !l)) l = a; } }
    if (p.instance && s.columns & 1) { l = At{Col(0), start[i] + RowIndex(s.height)}; At x = *l, y{{int(ColumnType::kInstance), 0}, RowIndex(i)}; if (y < x) std::swap(x, y); want.insert({x, y}); }
    if (s.link && i > 0 && l && last[i - 1]) { At x = *l, y = *last[i - 1]; if (y < x) std::swap(x, y); want.insert({x, y}); }
    last[i] = l;
  }
  if (p.instance && n && last[0]) { At x = *last[0], y{{int(ColumnType::kInstance), 0}, 7}; if (y < x) std::swap(x, y); want.insert({x, y}); }
  MC_CHECK(c, copies == want, "links", planner << " " << Text(p) << ": " << copies.size() << " not " << want.size());
  std::vector<std::string> names; for (auto& t : rec.trace) if (t != "name fixed") names.push_back(t); size_t expect = n / 2; bool order = names.size() == 2 * expect; for (size_t i = 0; order && i < names.size(); ++i) order = names[i] == (i % 2 ? "pop" : "push ns"); MC_CHECK(c, order, "namespaces", planner << " " << Text(p));
  if (p.table) { bool ok = rec.fills.size() == 2; for (auto& [k, r, v] : rec.fills) ok &= r == 3 && k.type == int(ColumnType::kFixed) && (k.index == 2 || k.index == 3) && v == RF(V(int64_t(k.index) - 1)); for (RowIndex r = 0; r < 3; ++r) for (size_t k = 0; k < 2; ++k) { auto it = rec.cells.find({{int(ColumnType::kFixed), 2 + k}, r}); ok &= it != rec.cells.end() && it->second.size() == 1 && it->second[0] == RF(V(int64_t(r * 2 + k + 1))); } MC_CHECK(c, ok, "table", planner << " " << Text(p)); } else MC_CHECK(c, rec.fills.empty(), "no table", planner << " " << Text(p));
  c.trace(1); if (out) *out = rec; return true;
}
void Both(mc::Ctx& c, const Program& p) { Decide(c, p, false); Decide(c, p, true); }
std::vector<Shape> Shapes(const std::vector<int>& columns, int height) { std::vector<Shape> v; for (int s : columns) for (int h = 1; h <= height; ++h) v.push_back({s, h, 0, 0, 0}); return v; }
std::vector<int> Subsets(int mask) { std::vector<int> v; for (int s = 1; s < 32; ++s) if ((s & mask) == s) v.push_back(s); return v; }

MC_SECTION(packing, 8) {
  uint64_t id = 0; F::Init();
  auto lists = [&](const std::vector<Shape>& shapes, int len) { mc::tuples(len, int(shapes.size()), [&](const std::vector<int>& v) { if (!c.mine(id++)) return; mc::at("packing", id); Program p; for (int x : v) p.regions.push_back(shapes[size_t(x)]); Both(c, p); }); };
  for (int len = 0; len <= 2; ++len) lists(Shapes(Subsets(31), 4), len);
  lists(Shapes(Subsets(7), 3), 3);
  lists(Shapes(Subsets(3), 3), 4);
  lists(Shapes(Subsets(3), 2), 5);
  lists(Shapes({1, 2, 3, 4, 5}, 3), 4);
  if (c.thorough) { lists(Shapes(Subsets(7), 4), 4); lists(Shapes(Subsets(3), 3), 6); }
}
// Regions whose columns end at different rows, with constants, links and inputs.
MC_SECTION(cells, 8) {
  uint64_t id = 0; F::Init(); std::vector<Shape> shapes; for (int s : {1, 2, 3, 8, 9, 11, 5, 17}) for (int h : {1, 3}) for (int reach = 0; reach < (s == 11 ? 3 : __builtin_popcount(unsigned(s))); ++reach) for (int k : {0, 1, 2}) { if (k && !(s & 3)) continue; if (k == 2 && h == 1) continue; if (h == 1 && reach) continue; shapes.push_back({s, h, reach, k, 0}); }
  for (int len = 1; len <= (c.thorough ? 4 : 3); ++len) mc::tuples(len, int(shapes.size()), [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("cells", id); Program p; for (int x : v) { p.regions.push_back(shapes[size_t(x)]); p.regions.back().link = 1; }
    p.constant_columns = int(id % 3) == 0 ? 2 : 1; p.instance = id % 5 == 1; p.table = id % 7 == 2; Both(c, p); if (len < 3) for (int k = 0; k <= 2; ++k) for (int i = 0; i < 4; ++i) { p.constant_columns = k; p.instance = i & 1; p.table = i & 2; Both(c, p); } });
}
// The first-fit search against a direct search, over allocated intervals.
MC_SECTION(first_fit, 8) {
  uint64_t id = 0; int rows = c.thorough ? 8 : 7, cols = 2;
  // Each column: a set of occupied rows, allocated as maximal intervals or row by row.
  for (int a = 0; a < 1 << rows; ++a) { if (!c.mine(id++)) continue; mc::at("first fit", uint64_t(a)); for (int b = 0; b < 1 << rows; ++b) for (int len = 1; len <= 3; ++len) for (int which = 1; which < 1 << cols; ++which) {
    CircuitAllocations alloc; std::vector<RegionColumn> columns{RegionColumn(AnyColumnKey(AdviceColumnKey(0))), RegionColumn(Selector::Simple(0))}, wanted;
    for (int k = 0; k < cols; ++k) { int bits = k ? b : a; if (!bits) continue; auto& set = alloc[columns[size_t(k)]].allocations(); for (int r = 0; r < rows;) { if (!(bits >> r & 1)) { ++r; continue; } int e = r + 1; if ((a + b) % 2 == 0) while (e < rows && bits >> e & 1) ++e; set.insert(AllocatedRegion(RowIndex(r), RowIndex(e - r))); r = e; } }
    for (int k = 0; k < cols; ++k) if (which >> k & 1) wanted.push_back(columns[size_t(k)]);
    auto got = FirstFitRegion(&alloc, wanted, RowIndex(len), 0, std::nullopt); c.states(1); c.step(1);
    int want = 0; auto fits = [&](int r) { for (int k = 0; k < cols; ++k) if (which >> k & 1) for (int i = 0; i < len; ++i) if (r + i < rows && (k ? b : a) >> (r + i) & 1) return false; return true; }; while (!fits(want)) ++want;
    MC_CHECK(c, got.has_value() && *got == RowIndex(want), "first fit", "rows " << a << " and " << b << " length " << len << " columns " << which << " not " << want);
    bool same = true; for (int k = 0; k < cols; ++k) { std::set<int> occupied; for (int r = 0; r < rows; ++r) if ((k ? b : a) >> r & 1) occupied.insert(r); if (which >> k & 1) for (int i = 0; i < len; ++i) occupied.insert(want + i); std::set<int> have; size_t total = 0; for (auto& e : alloc[columns[size_t(k)]].allocations()) for (RowIndex r = e.start(); r < e.End(); ++r) { have.insert(int(r)); ++total; } same &= have == occupied && total == have.size(); RowIndex top = alloc[columns[size_t(k)]].UnboundedIntervalStart(); same &= top == (occupied.empty() ? 0u : RowIndex(*occupied.rbegin() + 1));
      // Free intervals, bounded and unbounded.
      if (which == 3 && len == 1 && a % 4 == 1) for (int from = 0; from <= rows; ++from) for (int to = from; to <= rows + 1; ++to) { bool open = to > rows; std::set<int> free; bool order = true; int prev = -1; for (auto& e : alloc[columns[size_t(k)]].FreeIntervals(RowIndex(from), open ? std::nullopt : std::optional<RowIndex>(RowIndex(to)))) { int lo = int(e.start()), hi = e.end() ? int(*e.end()) : rows + 5; order &= lo < hi && lo > prev && (e.end().has_value() || open) && e.Range().has_value() == e.end().has_value(); prev = hi - 1; for (int r = lo; r < hi; ++r) free.insert(r); } std::set<int> ref; for (int r = from; r < (open ? rows + 5 : to); ++r) if (!occupied.count(r)) ref.insert(r);
        for (int r = 0; r < (open ? rows + 5 : to); ++r) MC_CHECK(c, free.count(r) == ref.count(r), "free intervals", "rows " << (k ? b : a) << " from " << from << " to " << (open ? -1 : to) << " row " << r); MC_CHECK(c, order, "order of the intervals", "from " << from << " to " << to); } }
    MC_CHECK(c, same, "allocations after", "rows " << a << " and " << b << " length " << len << " columns " << which); } }
}
// Every sequence of table assignments.
MC_SECTION(tables, 8) {
  F::Init(); uint64_t id = 0; int n = c.thorough ? 5 : 4;
  for (int len = 0; len <= n; ++len) mc::tuples(len, 6, [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("table", id);
    std::map<int, std::set<int>> rows; std::vector<bool> want; std::map<int, int> first; std::vector<int> index; int at = 0;
    for (int x : v) { int col = x % 2, row = x / 2; bool ok = !(row == 0 && rows[col].count(0)); want.push_back(ok); if (row == 0 && ok) first[col] = at; rows[col].insert(row); ++at; }
    for (auto it = rows.begin(); it != rows.end();) it = it->second.empty() ? rows.erase(it) : std::next(it);
    bool valid = !rows.empty(); for (auto& [k, r] : rows) valid &= int(r.size()) == *r.rbegin() + 1 && r.size() == rows.begin()->second.size();
    auto run = [&](Recorder* rec, std::vector<bool>* got, std::vector<LookupTableColumn>* used) { LookupTableAssigner<F> t(rec, *used); t.AssignLookupTable("t", [&](LookupTable<F>& table) { int i = 0; for (int x : v) { int value = i++; got->push_back(table.AssignCell("", LookupTableColumn(FixedColumnKey(size_t(x % 2))), RowIndex(x / 2), [value]() { return Value<F>::Known(V(value + 1)); })); } }); };
    c.states(1); c.step(1); if (!valid) { MC_CHECK(c, mc::dies([&]() { Recorder r; std::vector<bool> g; std::vector<LookupTableColumn> u; run(&r, &g, &u); }), "bad table", mc::vstr(v)); return; }
    Recorder rec; std::vector<bool> got; std::vector<LookupTableColumn> used; run(&rec, &got, &used); MC_CHECK(c, got == want, "answers", mc::vstr(v)); bool ok = rec.fills.size() == rows.size() && used.size() == rows.size(); for (auto& [k, r, value] : rec.fills) ok &= r == rows[int(k.index)].size() && value == RF(V(first[int(k.index)] + 1)); MC_CHECK(c, ok, "fill", mc::vstr(v));
    // The same columns cannot be used by a second table.
    for (int col = 0; col < 2; ++col) { if (!rows.count(col)) continue; Recorder r2; LookupTableAssigner<F> t(&r2, used); bool answer = true; bool died = mc::dies([&]() { t.AssignLookupTable("u", [&](LookupTable<F>& table) { if (!table.AssignCell("", LookupTableColumn(FixedColumnKey(size_t(col))), 0, []() { return Value<F>::Known(V(1)); })) std::abort(); }); }); MC_CHECK(c, died, "column used twice", mc::vstr(v)); (void)answer; break; }
    c.trace(1); });
}
// The real key and witness assignments: exactly as many rows as needed.
MC_SECTION(rows, 8) {
  F::Init(); using REvals = math::UnivariateEvaluations<RF, 15>; using Evals = math::UnivariateEvaluations<F, 15>; uint64_t id = 0;
  std::vector<Shape> shapes; for (int s : {1, 3, 7, 9, 16, 27, 2}) for (int h : {1, 2, 3}) shapes.push_back({s, h, 0, 0, 0}); shapes.push_back({1, 2, 0, 2, 0}); shapes.push_back({3, 3, 1, 1, 0});
  for (int len = 1; len <= 3; ++len) mc::tuples(len, int(shapes.size()), [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("rows", id); Program p; for (int x : v) { p.regions.push_back(shapes[size_t(x)]); p.regions.back().link = 1; } p.instance = id % 3 == 0; if (len == 3 && !c.thorough && id / 8 % 4 != 0) return;
    for (bool v1 : {false, true}) {
      int constants = 0; for (auto& s : p.regions) constants += s.constants; Recorder rec; bool refused = v1 && constants && mc::dies([&]() { Recorder r; Run(p, true, &r); }); if (refused) continue; Run(p, v1, &rec);
      RowIndex fixed_need = 0, advice_need = 0; for (auto& [a, x] : rec.cells) (a.first.type == int(ColumnType::kAdvice) ? advice_need : fixed_need) = std::max(a.first.type == int(ColumnType::kAdvice) ? advice_need : fixed_need, a.second + 1);
      for (auto& [a, b] : rec.copies) fixed_need = std::max({fixed_need, a.second + 1, b.second + 1}); if (p.instance) for (size_t i = 0; i < p.regions.size(); ++i) if (p.regions[i].columns & 1) { fixed_need = std::max(fixed_need, RowIndex(i + 1)); advice_need = std::max(advice_need, RowIndex(i + 1)); }
      if (fixed_need > 15 || advice_need > 15) continue; RowIndex need = std::max<RowIndex>(1, std::max(fixed_need, advice_need));
      for (RowIndex usable : {need - 1, need, need + 1}) { if (usable == 0 || usable > 15) continue; c.states(1);
        auto assembly = [&]() { std::vector<REvals> f(4, REvals(std::vector<RF>(16, RF::Zero()))); std::vector<AnyColumnKey> cols{AdviceColumnKey(0), AdviceColumnKey(1), FixedColumnKey(0), FixedColumnKey(1), InstanceColumnKey(0)}; return Assembly<REvals>(std::move(f), PermutationAssembly(cols, 16), {std::vector<bool>(16, false)}, base::Range<RowIndex>::Until(usable)); };
        if (usable < fixed_need) { MC_CHECK(c, mc::dies([&]() { auto a = assembly(); Run(p, v1, &a); }), "key with too few rows", Text(p) << " usable " << usable); }
        else { auto a = assembly(); Run(p, v1, &a); bool ok = true; for (size_t k = 0; k < 2; ++k) for (RowIndex r = 0; r < 16; ++r) { auto it = rec.cells.find({{int(ColumnType::kFixed), k}, r}); ok &= a.fixed_columns()[k].at(r) == (it == rec.cells.end() ? RF::Zero() : it->second[0]); } for (RowIndex r = 0; r < 16; ++r) ok &= a.selectors()[0][r] == (rec.cells.count({{kSel, 0}, r}) > 0); MC_CHECK(c, ok, "key cells", Text(p) << " usable " << usable);
          bool linked = true; std::map<int, int> colidx; auto idx = [](const Key& k) { return k.type == int(ColumnType::kAdvice) ? k.index : k.type == int(ColumnType::kFixed) ? 2 + k.index : 4; };
          for (auto& [x, y] : rec.copies) { Label from(idx(x.first), x.second), to(idx(y.first), y.second), l = from; bool seen = false; for (int i = 0; i < 100; ++i) { if (l == to) { seen = true; break; } l = a.permutation().cycle_store().GetNextLabel(l); if (l == from) break; } linked &= seen; } std::string cs; for (auto& [x, y] : rec.copies) cs += " " + std::to_string(idx(x.first)) + "/" + std::to_string(x.second) + "-" + std::to_string(idx(y.first)) + "/" + std::to_string(y.second); for (int k = 0; k < 5; ++k) for (RowIndex r = 0; r < 16; ++r) { Label n = a.permutation().cycle_store().GetNextLabel(Label(size_t(k), r)); if (!(n == Label(size_t(k), r))) cs += " " + std::to_string(k) + "/" + std::to_string(r) + ">" + std::to_string(n.col) + "/" + std::to_string(n.row); } MC_CHECK(c, linked, "key links", Text(p) << cs); }
        std::unique_ptr<math::UnivariateEvaluationDomain<F, 15>> d = math::Radix2EvaluationDomain<F, 15>::Create(16); std::vector<F> inst; for (int64_t i = 0; i < 16; ++i) inst.push_back(V(3 + 5 * i)); std::vector<Evals> instances{Evals(inst)};
        auto collection = [&]() { return halo2::WitnessCollection<Evals, REvals>(d.get(), 2, usable, kFirstPhase, absl::btree_map<size_t, F>(), instances); };
        if (usable < advice_need) { MC_CHECK(c, mc::dies([&]() { auto w = collection(); Run(p, v1, &w); }), "witness with too few rows", Text(p) << " usable " << usable); }
        else { auto w = collection(); Run(p, v1, &w); std::vector<REvals> adv = std::move(w).TakeAdvices(); bool ok = adv.size() == 2; for (size_t k = 0; ok && k < 2; ++k) for (RowIndex r = 0; r < 16; ++r) { auto it = rec.cells.find({{int(ColumnType::kAdvice), k}, r}); RF want = it == rec.cells.end() ? RF::Zero() : it->second[0]; RF got = r < adv[k].NumElements() ? adv[k][r] : RF::Zero(); ok &= got == want; } MC_CHECK(c, ok, "witness cells", Text(p) << " usable " << usable); }
        c.step(2); }
    }
    c.trace(1); });
}
}  // namespace
