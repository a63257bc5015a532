// C37: every small AIR expression and every small trace against an evaluator
// over the harness's own description of the expression.
#include "glog/logging.h"
#include "mc/fields/m3.h"
#include "mc/fields/m97.h"
#include "mc/mc.h"
#include "tachyon/zk/air/constraint_system/constraint_system.h"
#include "tachyon/zk/air/expressions/expression_factory.h"

namespace {
using namespace tachyon::zk; using namespace tachyon::zk::air; using tachyon::math::mcf::M3; using tachyon::math::mcf::M97;
[[maybe_unused]] const bool quiet = (FLAGS_minloglevel = 3, true);
enum Kind { kConst, kPub, kMain, kPre, kNeg, kScale, kFirst, kLast, kTrans, kSum, kMul, kSub };
struct Tree { int kind, x, y; const Tree *l = nullptr, *r = nullptr; };
// What an expression is worth in one window: rows i and i+1 of n rows.
struct Env { int p; int row, n; std::vector<int> pub; std::vector<std::vector<int>> main, pre; };
int64_t Value(const Tree& t, const Env& e) {
  auto m = [&](int64_t v) { return ((v % e.p) + e.p) % e.p; };
  switch (t.kind) {
    case kConst: return m(t.x);
    case kPub: return m(e.pub[size_t(t.x)]);
    case kMain: return m(e.main[size_t(e.row + t.x)][size_t(t.y)]);
    case kPre: return m(e.pre[size_t(e.row + t.x)][size_t(t.y)]);
    case kNeg: return m(-Value(*t.l, e));
    case kScale: return m(Value(*t.l, e) * t.x);
    case kFirst: return e.row == 0 ? Value(*t.l, e) : 0;
    case kLast: return e.row == e.n - 2 ? Value(*t.l, e) : 0;
    case kTrans: return Value(*t.l, e);
    case kSum: return m(Value(*t.l, e) + Value(*t.r, e));
    case kMul: return m(Value(*t.l, e) * Value(*t.r, e));
    case kSub: return m(Value(*t.l, e) - Value(*t.r, e));
  }
  return -1;
}
size_t Deg(const Tree& t) { if (t.kind == kConst) return 0; if (t.kind <= kPre) return 1; if (t.kind < kSum) return Deg(*t.l); size_t a = Deg(*t.l), b = Deg(*t.r); return t.kind == kMul ? a + b : std::max(a, b); }
std::string Str(const Tree& t) {
  static const char* names[] = {"c", "pub", "main", "pre", "-", "scale", "first", "last", "trans", "+", "*", "-"};
  if (t.kind <= kPre) return std::string(names[t.kind]) + std::to_string(t.x) + (t.kind >= kMain ? "," + std::to_string(t.y) : "");
  if (t.kind == kSub) return "(" + Str(*t.l) + "+-(" + Str(*t.r) + "))";
  if (t.kind < kSum) return std::string(names[t.kind]) + (t.kind == kScale ? std::to_string(t.x) : "") + "(" + Str(*t.l) + ")";
  return "(" + Str(*t.l) + names[t.kind] + Str(*t.r) + ")";
}
template <typename F> using E = std::unique_ptr<Expression<F>>;
template <typename F> E<F> Make(const Tree& t, bool copying) {
  using X = air::ExpressionFactory<F>;
  switch (t.kind) {
    case kConst: return X::Constant(F(uint32_t(t.x)));
    case kPub: return X::Variable(Variable::Public(size_t(t.x)));
    case kMain: return X::Variable(Variable::Main(size_t(t.x), size_t(t.y)));
    case kPre: return X::Variable(Variable::Preprocessed(size_t(t.x), size_t(t.y)));
    case kFirst: return X::FirstRow(Make<F>(*t.l, copying));
    case kLast: return X::LastRow(Make<F>(*t.l, copying));
    case kTrans: return X::Transition(Make<F>(*t.l, copying));
    default: break;
  }
  E<F> l = Make<F>(*t.l, copying), r = t.r ? Make<F>(*t.r, copying) : nullptr;
  if (copying) switch (t.kind) { case kNeg: return -l; case kScale: return l * F(uint32_t(t.x)); case kSum: return l + r; case kMul: return l * r; default: return l - r; }
  switch (t.kind) { case kNeg: return -std::move(l); case kScale: return std::move(l) * F(uint32_t(t.x)); case kSum: return std::move(l) + std::move(r); case kMul: return std::move(l) * std::move(r); default: return std::move(l) - std::move(r); }
}
std::vector<Tree> Leaves(int pubs, int cols, int pres) {
  std::vector<Tree> v; for (int i : {0, 1, 2}) v.push_back({kConst, i, 0}); for (int i = 0; i < pubs; ++i) v.push_back({kPub, i, 0});
  for (int r = 0; r < 2; ++r) for (int i = 0; i < cols; ++i) v.push_back({kMain, r, i});
  for (int r = 0; r < 2; ++r) for (int i = 0; i < pres; ++i) v.push_back({kPre, r, i});
  return v;
}
// Every tree one operator above |below| (at most |b| of them on the right).
template <typename Fn> void Above(const std::vector<Tree>& below, size_t b, Fn fn) {
  for (const Tree& t : below) {
    for (int k : {kNeg, kFirst, kLast, kTrans}) fn(Tree{k, 0, 0, &t});
    for (int s : {0, 1, 2}) fn(Tree{kScale, s, 0, &t});
    for (size_t j = 0; j < b; ++j) for (int k : {kSum, kMul, kSub}) fn(Tree{k, 0, 0, &t, &below[j]});
  }
}
template <typename F> tachyon::math::RowMajorMatrix<F> Matrix(const std::vector<std::vector<int>>& v, size_t cols) { tachyon::math::RowMajorMatrix<F> m(Eigen::Index(v.size()), Eigen::Index(cols)); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < cols; ++j) m(Eigen::Index(i), Eigen::Index(j)) = F(uint32_t(v[i][j])); return m; }
template <typename F> std::vector<F> Publics(const std::vector<int>& v) { std::vector<F> r; for (int x : v) r.push_back(F(uint32_t(x))); return r; }

// Windows of a trace whose cells are all different.
template <typename F> struct Windows {
  Env env; tachyon::math::RowMajorMatrix<F> main, pre; std::vector<F> pub;
  explicit Windows(int n) {
    env.p = 97; env.n = n; env.pub = {71, 83}; int k = 5; for (int i = 0; i < n; ++i) { env.main.push_back({k % 97, (k * 7 + 1) % 97}); env.pre.push_back({(k * 11 + 2) % 97, (k * 3 + 64) % 97}); k += 9; }
    main = Matrix<F>(env.main, 2); pre = Matrix<F>(env.pre, 2); pub = Publics<F>(env.pub);
  }
};
void Depth(mc::Ctx& c, bool third) {
  M97::Init(); std::vector<Tree> leaves = Leaves(2, 2, 2), one = leaves; Above(leaves, leaves.size(), [&](const Tree& t) { one.push_back(t); });
  if (third) { std::vector<Tree> few = {leaves[2], leaves[3], leaves[5], leaves[8], leaves[10]}; static std::vector<Tree> keep; keep = few; std::vector<Tree> two = keep; two.reserve(4000); Above(keep, keep.size(), [&](const Tree& t) { two.push_back(t); }); static std::vector<Tree> mid; mid = two; one = mid; static std::vector<Tree> top; top.clear(); size_t b = c.thorough ? mid.size() : 8; Above(mid, b, [&](const Tree& t) { top.push_back(t); }); one = top; }
  std::vector<std::unique_ptr<Windows<M97>>> ws; for (int n : {2, 3, 4}) ws.push_back(std::make_unique<Windows<M97>>(n));
  using Block = AirEvaluator<M97>::ConstMatrixBlock; uint64_t id = 0;
  auto check = [&](const Tree& t, bool full) {
    if (!c.mine(id++)) return; mc::at("tree", id); c.trace(); std::string s; auto e = Make<M97>(t, id & 1); std::unique_ptr<Expression<M97>> cl; if (full) { cl = e->Clone(); MC_CHECK(c, *cl == *e && !(*cl != *e) && cl->ToString() == e->ToString() && cl->Degree() == e->Degree() && cl->Complexity() == e->Complexity(), "clone", Str(t)); }
    MC_CHECK(c, e->Degree() == Deg(t), "degree", Str(t) << ": " << e->Degree());
    AirEvaluator<M97> ev;
    for (auto& w : ws) { ev.set_public_values(w->pub); ev.set_num_rows(w->env.n); Env env = w->env; for (int r = 0; r + 1 < env.n; ++r) { const Block mw(w->main, r, 0, 2, 2), pw(w->pre, r, 0, 2, 2); ev.SetCurrentWindowData(r, &mw, &pw); env.row = r; int64_t want = Value(t, env); M97 got = ev.Evaluate(e.get()); c.step();
      MC_CHECK(c, got == M97(static_cast<uint32_t>(want)), "value", Str(t) << " row " << r << " of " << env.n << ": " << got.ToString() << ", should be " << want); if (full) { MC_CHECK(c, e->Evaluate(&ev) == got && cl->Evaluate(&ev) == got, "same", Str(t)); } } }
    c.states(1); if (c.want_sample()) c.sample("tree " + Str(t));
  };
  if (!third) for (const Tree& t : one) check(t, true);
  Above(one, third ? 1 : one.size(), [&](const Tree& t) { check(t, !third && t.kind < kSum); });
}
MC_SECTION(trees_depth2, 8) { Depth(c, false); }
MC_SECTION(trees_depth3, 8) { Depth(c, true); }

// Structural equality between all pairs of one-operator trees.
MC_SECTION(equality_all, 4) {
  M97::Init(); std::vector<Tree> leaves = Leaves(2, 2, 1), one = leaves; Above(leaves, leaves.size(), [&](const Tree& t) { one.push_back(t); });
  std::vector<E<M97>> es; std::vector<std::string> names; for (const Tree& t : one) { es.push_back(Make<M97>(t, false)); names.push_back(Str(t)); }
  for (size_t i = 0; i < es.size(); ++i) { if (!c.mine(i)) continue; c.trace(); for (size_t j = 0; j < es.size(); ++j) { mc::at("pair", i, j); bool want = names[i] == names[j]; c.step(); MC_CHECK(c, (*es[i] == *es[j]) == want && (*es[i] != *es[j]) == !want, "equality", names[i] << " and " << names[j]); } c.states(es.size()); }
}

// All traces over three values; each constraint enforced in each of the four ways.
MC_SECTION(traces_one, 8) {
  M3::Init(); uint64_t id = 0;
  for (int with_pre : {0, 1}) {
    std::vector<Tree> leaves = Leaves(1, with_pre ? 1 : 2, with_pre), one = leaves; Above(leaves, leaves.size(), [&](const Tree& t) { one.push_back(t); }); size_t cols = with_pre ? 1 : 2;
    for (const Tree& t : one) for (int kind = 0; kind < 4; ++kind) {
      if (!c.mine(id++)) continue; mc::at("constraint", with_pre, id); ConstraintSystem<M3> cs(1, cols, size_t(with_pre)); auto e = Make<M3>(t, false);
      if (kind == 0) cs.EnforceConstraint(std::move(e)); else if (kind == 1) cs.EnforceFirstRowConstraint(std::move(e)); else if (kind == 2) cs.EnforceLastRowConstraint(std::move(e)); else cs.EnforceTransitionConstraint(std::move(e));
      Tree top = t; if (kind) top = Tree{kind == 1 ? kFirst : kind == 2 ? kLast : kTrans, 0, 0, &t}; c.states(1);
      for (int n : {2, 3}) mc::tuples(n * 2 + 1, 3, [&](const std::vector<int>& cells) {
        Env env; env.p = 3; env.n = n; env.pub = {cells.back()}; for (int i = 0; i < n; ++i) { if (with_pre) { env.main.push_back({cells[size_t(i)]}); env.pre.push_back({cells[size_t(n + i)]}); } else env.main.push_back({cells[size_t(2 * i)], cells[size_t(2 * i + 1)]}); }
        bool want = true; for (env.row = 0; env.row + 1 < n; ++env.row) want &= Value(top, env) == 0;
        auto m = Matrix<M3>(env.main, cols); AirEvaluator<M3> ev; bool got; if (with_pre) { auto p = Matrix<M3>(env.pre, 1); got = cs.IsSatisfied(ev, Publics<M3>(env.pub), m, &p); } else got = cs.IsSatisfied(ev, Publics<M3>(env.pub), m); c.step(); c.trace();
        MC_CHECK(c, got == want, "satisfied", Str(top) << " on " << mc::vstr(cells) << " (" << n << " rows" << (with_pre ? ", preprocessed" : "") << ")"); });
    }
  }
}
// Two constraints, any order: satisfied exactly when both are; the evaluator is used again.
MC_SECTION(traces_two, 8) {
  M3::Init(); std::vector<Tree> leaves = Leaves(1, 1, 0), t; for (const Tree& l : leaves) t.push_back(l); std::vector<Tree> some; Above(leaves, leaves.size(), [&](const Tree& x) { if (x.kind == kSub || (x.kind >= kFirst && x.kind <= kTrans)) some.push_back(x); });
  uint64_t id = 0; AirEvaluator<M3> ev;
  for (const Tree& a : some) for (const Tree& b : some) for (int kind = 0; kind < 4; ++kind) {
    if (!c.mine(id++)) continue; mc::at("constraints", id); ConstraintSystem<M3> cs(1, 1, 0); cs.EnforceConstraint(Make<M3>(a, false)); auto e = Make<M3>(b, false);
    if (kind == 0) cs.EnforceConstraint(std::move(e)); else if (kind == 1) cs.EnforceFirstRowConstraint(std::move(e)); else if (kind == 2) cs.EnforceLastRowConstraint(std::move(e)); else cs.EnforceTransitionConstraint(std::move(e));
    Tree top = b; if (kind) top = Tree{kind == 1 ? kFirst : kind == 2 ? kLast : kTrans, 0, 0, &b}; c.states(1);
    for (int n : {2, 3, 4}) mc::tuples(n + 1, 3, [&](const std::vector<int>& cells) {
      Env env; env.p = 3; env.n = n; env.pub = {cells.back()}; for (int i = 0; i < n; ++i) env.main.push_back({cells[size_t(i)]});
      bool want = true; for (env.row = 0; env.row + 1 < n; ++env.row) want &= Value(a, env) == 0 && Value(top, env) == 0;
      c.step(); c.trace(); MC_CHECK(c, cs.IsSatisfied(ev, Publics<M3>(env.pub), Matrix<M3>(env.main, 1)) == want, "both", Str(a) << " and " << Str(top) << " on " << mc::vstr(cells)); });
  }
}
// Wrong shapes are refused.
MC_SECTION(shapes_all, 1) {
  M3::Init(); for (size_t pub = 0; pub < 3; ++pub) for (int cols = 1; cols < 4; ++cols) for (int pre = -1; pre < 3; ++pre) for (int extra = 0; extra < 2; ++extra) {
    mc::at("shape", pub, cols, pre + 1, extra); c.states(1); c.step(); c.trace(); if (pre < 0 && extra) continue; bool ok = pub == 1 && cols == 2 && pre == 1 && !extra;
    bool died = mc::dies([&] { ConstraintSystem<M3> cs(1, 2, 1); cs.EnforceConstraint(air::ExpressionFactory<M3>::Constant(M3(0))); AirEvaluator<M3> ev; tachyon::math::RowMajorMatrix<M3> m(3, cols), p(3 + extra, std::max(pre, 0)); std::vector<M3> v(pub); cs.IsSatisfied(ev, v, m, pre < 0 ? nullptr : &p); });
    MC_CHECK(c, died == !ok, "shape", pub << " publics, " << cols << " columns, " << pre << " preprocessed, extra rows " << extra);
  }
}
}  // namespace
