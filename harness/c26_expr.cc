// C26: one meaning per expression: the prover's, the verifier's and the
// flattened graph's evaluation of every small tree, alone and sharing a graph.
#include "glog/logging.h"
#include "mc/fields/m97.h"
#include "mc/mc.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"

namespace {
using namespace tachyon::zk; using namespace tachyon::zk::plonk; using F = tachyon::math::mcf::M97; using Evals = tachyon::math::UnivariateEvaluations<F, 15>;
[[maybe_unused]] const bool quiet = (FLAGS_minloglevel = 3, true);
enum Kind { kConst, kFix, kAdv, kIns, kCh, kNeg, kScale, kSum, kMul, kSub };
struct Tree { int kind, x, y; const Tree *l = nullptr, *r = nullptr; };
constexpr int P = 97;
int m(int64_t v) { return int(((v % P) + P) % P); }
struct Data {
  int n, scale; std::vector<std::vector<int>> col[3]; std::vector<int> ch = {58, 19};
  Data(int rows, int s) : n(rows), scale(s) { int k = 3; for (auto& t : col) for (int i = 0; i < 2; ++i) { t.emplace_back(); for (int r = 0; r < rows; ++r) { t.back().push_back(k % P); k = k * 5 + 7 + r; k %= 1000; } } }
};
int Value(const Tree& t, const Data& d, int row) {
  switch (t.kind) {
    case kConst: return m(t.x);
    case kFix: case kAdv: case kIns: return d.col[t.kind - kFix][size_t(t.x)][size_t((((row + t.y * d.scale) % d.n) + d.n) % d.n)];
    case kCh: return d.ch[size_t(t.x)];
    case kNeg: return m(-Value(*t.l, d, row));
    case kScale: return m(Value(*t.l, d, row) * t.x);
    case kSum: return m(Value(*t.l, d, row) + Value(*t.r, d, row));
    case kMul: return m(Value(*t.l, d, row) * Value(*t.r, d, row));
    default: return m(Value(*t.l, d, row) - Value(*t.r, d, row));
  }
}
size_t Deg(const Tree& t) { if (t.kind == kConst || t.kind == kCh) return 0; if (t.kind <= kIns) return 1; if (t.kind < kSum) return Deg(*t.l); size_t a = Deg(*t.l), b = Deg(*t.r); return t.kind == kMul ? a + b : std::max(a, b); }
std::string Str(const Tree& t) {
  static const char* names[] = {"c", "fixed", "advice", "instance", "challenge", "-", "scale", "+", "*", "-"};
  if (t.kind <= kCh) return std::string(names[t.kind]) + std::to_string(t.x) + (t.kind != kConst && t.kind != kCh ? "@" + std::to_string(t.y) : "");
  if (t.kind == kSub) return "(" + Str(*t.l) + "+-(" + Str(*t.r) + "))";
  if (t.kind < kSum) return std::string(names[t.kind]) + (t.kind == kScale ? std::to_string(t.x) : "") + "(" + Str(*t.l) + ")";
  return "(" + Str(*t.l) + names[t.kind] + Str(*t.r) + ")";
}
// Where the verifier finds a query's evaluation: not the column's own index.
size_t QueryIndex(int col, int rot) { return size_t((rot + 2) * 2 + (1 - col)); }
using E = std::unique_ptr<Expression<F>>;
E Make(const Tree& t) {
  using X = plonk::ExpressionFactory<F>;
  switch (t.kind) {
    case kConst: return X::Constant(F(uint32_t(t.x)));
    case kFix: return X::Fixed(FixedQuery(QueryIndex(t.x, t.y), Rotation(t.y), FixedColumnKey(size_t(t.x))));
    case kAdv: return X::Advice(AdviceQuery(QueryIndex(t.x, t.y), Rotation(t.y), AdviceColumnKey(size_t(t.x))));
    case kIns: return X::Instance(InstanceQuery(QueryIndex(t.x, t.y), Rotation(t.y), InstanceColumnKey(size_t(t.x))));
    case kCh: return X::Challenge(Challenge(size_t(t.x), kFirstPhase));
    case kNeg: return -Make(*t.l);
    case kScale: return Make(*t.l) * F(uint32_t(t.x));
    case kSum: return Make(*t.l) + Make(*t.r);
    case kMul: return Make(*t.l) * Make(*t.r);
    default: return Make(*t.l) - Make(*t.r);
  }
}
const std::vector<Tree>& Leaves() { static std::vector<Tree> v; if (!v.empty()) return v; for (int k : {0, 1, 2, 96}) v.push_back({kConst, k, 0}); for (auto [k, x, y] : {std::tuple{kFix, 0, 0}, {kFix, 1, 1}, {kAdv, 0, 0}, {kAdv, 0, -1}, {kAdv, 1, 2}, {kIns, 1, 0}, {kCh, 0, 0}, {kCh, 1, 0}}) v.push_back({k, x, y}); return v; }
template <typename Fn> void Above(const std::vector<Tree>& below, const std::vector<Tree>& right, Fn fn) {
  for (const Tree& t : below) { fn(Tree{kNeg, 0, 0, &t}); for (int s : {0, 1, 2, 5}) fn(Tree{kScale, s, 0, &t}); for (const Tree& r : right) for (int k : {kSum, kMul, kSub}) fn(Tree{k, 0, 0, &t, &r}); }
}
std::vector<Tree> One(const std::vector<Tree>& leaves) { std::vector<Tree> one = leaves; Above(leaves, leaves, [&](const Tree& t) { one.push_back(t); }); return one; }
struct Table {
  Data d; std::vector<Evals> cols[3]; std::vector<F> ch; MultiPhaseRefTable<Evals> table;
  Table(int n, int scale) : d(n, scale) { for (int k = 0; k < 3; ++k) for (auto& v : d.col[k]) { std::vector<F> e; for (int x : v) e.push_back(F(uint32_t(x))); cols[k].push_back(Evals(std::move(e))); } for (int x : d.ch) ch.push_back(F(uint32_t(x))); table = MultiPhaseRefTable<Evals>(cols[0], cols[1], cols[2], ch); }
};
const F kTheta(uint32_t{11}), kBeta(uint32_t{13}), kGamma(uint32_t{17});
struct Graph {
  GraphEvaluator<F> ev; std::vector<ValueSource> out;
  void Check(mc::Ctx& c, const std::vector<const Tree*>& ts, Table& t, bool horner) {
    F y(uint32_t{23}); EvaluationInput<Evals> in(ev.CreateInitialIntermediates(), ev.CreateEmptyRotations(), t.table, kTheta, kBeta, kGamma, y, t.d.n);
    for (int row = 0; row < t.d.n; ++row) { F prev(uint32_t(31 + row)); F last = ev.Evaluate(in, size_t(row), t.d.scale, prev); int64_t h = 31 + row; c.step();
      for (size_t i = 0; i < ts.size(); ++i) { int v = Value(*ts[i], t.d, row); h = m(h * 23 + v); F got = out[i].Get(in, ev.constants(), prev); MC_CHECK(c, got == F(uint32_t(v)), "graph", Str(*ts[i]) << " (" << i + 1 << " of " << ts.size() << ") at row " << row << " of " << t.d.n << ": " << got.ToString() << ", should be " << v); }
      if (horner) MC_CHECK(c, last == F(uint32_t(h)), "gate", Str(*ts[0]) << ", " << Str(*ts.back()) << " at row " << row); }
  }
};
bool Mine(mc::Ctx& c, uint64_t id) { return c.mine(id); }
void Check(mc::Ctx& c, const Tree& t, std::vector<std::unique_ptr<Table>>& tables, bool full) {
  c.states(1); c.trace(); E e = Make(t); MC_CHECK(c, e->Degree() == Deg(t), "degree", Str(t)); Graph g; g.out.push_back(g.ev.AddExpression(e.get())); E cl; if (full) { cl = e->Clone(); MC_CHECK(c, *cl == *e && !(*cl != *e), "clone", Str(t)); }
  for (auto& tb : tables) {
    for (int row = 0; row < tb->d.n; ++row) { ProvingEvaluator<Evals> pe(row, tb->d.n, tb->d.scale, tb->table); F want(uint32_t(Value(t, tb->d, row))); c.step(); MC_CHECK(c, pe.Evaluate(e.get()) == want, "prover", Str(t) << " at row " << row << " of " << tb->d.n); if (full) MC_CHECK(c, pe.Evaluate(cl.get()) == want, "clone value", Str(t)); }
    g.Check(c, {&t}, *tb, false);
  }
  // The verifier reads each query's evaluation from its own place.
  Table& tb = *tables[0]; for (int row = 0; row < tb.d.n; ++row) { std::vector<F> ev[3]; for (int k = 0; k < 3; ++k) { ev[k].resize(10); for (int col = 0; col < 2; ++col) for (int rot = -1; rot <= 2; ++rot) ev[k][QueryIndex(col, rot)] = tb.cols[k][size_t(col)][size_t((row + rot + tb.d.n) % tb.d.n)]; }
    VerifyingEvaluator<F> ve(MultiPhaseEvaluations<F>(ev[0], ev[1], ev[2], tb.ch)); c.step(); MC_CHECK(c, ve.Evaluate(e.get()) == F(uint32_t(Value(t, tb.d, row))), "verifier", Str(t) << " at row " << row); }
  if (c.want_sample()) c.sample("tree " + Str(t));
}
MC_SECTION(trees_depth2, 8) {
  F::Init(); std::vector<Tree> leaves = Leaves(), one = One(leaves); std::vector<std::unique_ptr<Table>> tables; tables.push_back(std::make_unique<Table>(4, 1)); tables.push_back(std::make_unique<Table>(8, 2)); uint64_t id = 0;
  for (const Tree& t : one) if (Mine(c, id++)) { mc::at("tree", id); Check(c, t, tables, true); }
  std::vector<std::unique_ptr<Table>> small; small.push_back(std::make_unique<Table>(4, 1)); Above(one, one, [&](const Tree& t) { if (Mine(c, id++)) { mc::at("tree", id); Check(c, t, small, false); } });
}
MC_SECTION(trees_depth3, 8) {
  F::Init(); std::vector<Tree> l = Leaves(), leaves = {l[0], l[1], l[2], l[4], l[7]}; if (c.thorough) leaves = {l[0], l[1], l[2], l[3], l[4], l[5], l[7], l[10]}; std::vector<Tree> one = One(leaves), two = one; Above(one, leaves, [&](const Tree& t) { two.push_back(t); }); std::vector<std::unique_ptr<Table>> small; small.push_back(std::make_unique<Table>(4, 1)); uint64_t id = 0;
  Above(two, one, [&](const Tree& t) { if (Mine(c, id++)) { mc::at("tree", id); Check(c, t, small, false); } });
}
// Two and three expressions in one graph, closed by a gate's Horner step.
MC_SECTION(graphs_pairs, 8) {
  F::Init(); std::vector<Tree> one = One(Leaves()); Table tb(4, 1); std::vector<E> es; for (auto& t : one) es.push_back(Make(t)); uint64_t id = 0;
  for (size_t i = 0; i < one.size(); ++i) for (size_t j = 0; j < one.size(); ++j) { if (!c.mine(id++)) continue; mc::at("pair", i, j); c.states(1); c.trace(); Graph g; for (size_t k : {i, j}) g.out.push_back(g.ev.AddExpression(es[k].get())); g.ev.AddCalculation(Calculation::Horner(ValueSource::PreviousValue(), g.out, ValueSource::Y())); g.Check(c, {&one[i], &one[j]}, tb, true); }
}
MC_SECTION(graphs_triples, 8) {
  F::Init(); std::vector<Tree> l = Leaves(), leaves = {l[1], l[2], l[4], l[6], l[7]}, one = One(leaves); Table tb(4, 1); std::vector<E> es; for (auto& t : one) es.push_back(Make(t)); uint64_t id = 0; size_t n = c.thorough ? one.size() : 40;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < one.size(); ++k) { if (!c.mine(id++)) continue; mc::at("triple", i, j, k); c.states(1); c.trace(); Graph g; for (size_t x : {i, j, k}) g.out.push_back(g.ev.AddExpression(es[x].get())); g.ev.AddCalculation(Calculation::Horner(ValueSource::PreviousValue(), g.out, ValueSource::Y())); g.Check(c, {&one[i], &one[j], &one[k]}, tb, true); }
}
struct Rows { size_t n; template <typename T> T Zero() const { return T(std::vector<F>(n)); } };
MC_SECTION(compression, 4) {
  F::Init(); std::vector<Tree> one = One(Leaves()); Table tb(8, 1); uint64_t id = 0; Rows rows{8}; ProvingEvaluator<Evals> tpl(0, 8, 1, tb.table);
  auto check = [&](const std::vector<const Tree*>& ts) { if (!c.mine(id++)) return; mc::at("compress", id); for (uint32_t theta : {0u, 1u, 11u, 96u}) { std::vector<E> es; for (auto* t : ts) es.push_back(Make(*t)); c.states(1); c.step(); c.trace(); auto r = CompressExpressions(&rows, es, F(theta), tpl); bool ok = r.evaluations().size() == 8; MC_CHECK(c, ok, "rows", ts.size()); for (int row = 0; ok && row < 8; ++row) { int64_t h = 0; for (auto* t : ts) h = m(h * theta + Value(*t, tb.d, row)); MC_CHECK(c, r.evaluations()[size_t(row)] == F(uint32_t(h)), "compressed", ts.size() << " expressions, row " << row << ", theta " << theta << ", last " << (ts.empty() ? "" : Str(*ts.back()))); } } };
  check({}); for (auto& a : one) check({&a}); for (size_t i = 0; i < one.size(); i += 3) for (auto& b : one) check({&one[i], &b}); for (size_t i = 0; i < one.size(); i += 37) for (size_t j = 0; j < one.size(); j += 31) for (size_t k = 0; k < one.size(); k += 23) check({&one[i], &one[j], &one[k]});
}
// Identifiers name expressions: equal exactly for equal trees.
// A scaled expression may share the name of the same product with a constant.
std::string Norm(const Tree& t) {
  if (t.kind == kScale) return "(" + Norm(*t.l) + "*c" + std::to_string(t.x) + ")";
  if (t.kind == kSub) return "(" + Norm(*t.l) + "+-(" + Norm(*t.r) + "))";
  if (t.kind < kNeg) return Str(t);
  if (t.kind == kNeg) return "-(" + Norm(*t.l) + ")";
  return "(" + Norm(*t.l) + (t.kind == kSum ? "+" : "*") + Norm(*t.r) + ")";
}
MC_SECTION(identifiers, 4) {
  F::Init(); std::vector<Tree> one = One(Leaves()), two = one;
  std::vector<Tree> few = {Leaves()[1], Leaves()[3], Leaves()[4], Leaves()[7]}, keep = One(few); Above(keep, one, [&](const Tree& t) { two.push_back(t); });
  std::map<std::string, std::string> seen; std::map<std::string, std::string> back; for (size_t i = 0; i < two.size(); ++i) { mc::at("id", i); if (c.shard) break; c.states(1); c.step(); c.trace(); E e = Make(two[i]); std::string id = GetIdentifier(e.get()), s = Norm(two[i]); auto it = seen.emplace(id, s).first; MC_CHECK(c, it->second == s, "identifier", s << " and " << it->second << " are both called " << id); auto jt = back.emplace(Str(two[i]), id).first; MC_CHECK(c, jt->second == id, "one name", s << ": " << id << " and " << jt->second); }
}
// Rotations wrap around for every row, distance and scale.
MC_SECTION(rotations, 1) {
  for (int n = 1; n <= 16; ++n) for (int row = 0; row < n; ++row) for (int s : {1, 2, 4}) for (int r = -20; r <= 20; ++r) { c.step(); int64_t want = (((row + int64_t{r} * s) % n) + n) % n; MC_CHECK(c, int64_t(Rotation(r).GetIndex(row, s, n)) == want, "rotation", "row " << row << " + " << r << " * " << s << " of " << n); }
  c.states(16); c.trace();
}
}  // namespace
