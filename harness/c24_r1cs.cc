// C24: linear combinations, rank-one constraint systems, their matrices and the
// reduction to a quadratic arithmetic program, over small fields.
#include <map>

#include "mc/fields/m17.h"
#include "mc/fields/m5.h"
#include "mc/fields/m97.h"
#include "mc/mc.h"
#include "mc/two.h"
MC_TWO(mcf::M17)
MC_TWO(mcf::M97)
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"

namespace {
using namespace tachyon;
using namespace tachyon::zk::r1cs;
const bool quiet = (FLAGS_minloglevel = 3, true);

template <typename F> F V(int64_t v) { int64_t p = F::Config::kModulus; v %= p; return F(static_cast<uint32_t>(v < 0 ? v + p : v)); }
using F5 = math::mcf::M5;

// ---- linear combinations ----
using Lc = LinearCombination<F5>;
using Tm = Term<F5>;
Variable Var(int i) {
  switch (i % 8) {
    case 0: return Variable::One();
    case 1: return Variable::Instance(1);
    case 2: return Variable::Instance(2);
    case 3: return Variable::Witness(0);
    case 4: return Variable::Witness(1);
    case 5: return Variable::Witness(7);
    case 6: return Variable::SymbolicLinearCombination(0);
    default: return Variable::SymbolicLinearCombination(3);
  }
}
using Model = std::map<int, F5>;  // variable to coefficient; a variable that occurs stays even with coefficient 0
Lc Make(const Model& m) { std::vector<Tm> t; for (auto& [v, k] : m) t.push_back(Tm(k, Var(v))); return Lc(t); }
bool Same(const Lc& l, const Model& m) {
  if (l.terms().size() != m.size()) return false; size_t i = 0;
  for (auto& [v, k] : m) { if (l.terms()[i].variable != Var(v) || l.terms()[i].coefficient != k) return false; ++i; }
  return true;
}
Model Add(Model a, const Model& b, bool neg) { for (auto& [v, k] : b) { auto it = a.find(v); F5 x = neg ? -k : k; if (it == a.end()) a[v] = x; else it->second += x; } return a; }
MC_SECTION(combinations, 8) {
  F5::Init(); uint64_t id = 0;
  auto check = [&](const Model& a, const Model& b) {
    Lc x = Make(a), y = Make(b); c.states(1);
    MC_CHECK(c, Same(x + y, Add(a, b, false)), "lc sum", x.ToString() << " + " << y.ToString());
    MC_CHECK(c, Same(x - y, Add(a, b, true)), "lc difference", x.ToString() << " - " << y.ToString());
    Lc z = x; z += y; MC_CHECK(c, z == x + y, "lc +=", x.ToString() << " + " << y.ToString());
    z = x; z -= y; MC_CHECK(c, z == x - y, "lc -=", x.ToString() << " - " << y.ToString());
    MC_CHECK(c, (x == y) == (a == b) && (x != y) == (a != b), "lc ==", x.ToString() << " == " << y.ToString());
    c.step(6);
  };
  // All pairs over four variables and three coefficients each (or absent).
  const int pick[] = {0, 1, 3, 6};
  std::vector<Model> all; mc::tuples(4, 4, [&](const std::vector<int>& v) { Model m; for (int i = 0; i < 4; ++i) if (v[size_t(i)]) m[pick[i]] = V<F5>(std::vector<int>{0, 1, 0, 4}[size_t(v[size_t(i)])]); all.push_back(m); });
  for (auto& a : all) { if (!c.mine(id++)) continue; mc::at("pair", id); for (auto& b : all) check(a, b); }
  // All subsets of eight variables, with every single term and scalar.
  for (int bits = 0; bits < 256; ++bits) {
    if (!c.mine(id++)) continue; mc::at("subset", uint64_t(bits)); Model m; for (int i = 0; i < 8; ++i) if (bits >> i & 1) m[i] = V<F5>(i % 4 + 1);
    Lc x = Make(m); MC_CHECK(c, x.IsSorted(), "sorted", x.ToString());
    for (int v = 0; v < 8; ++v) for (int k = 0; k < 5; ++k) {
      Model t{{v, V<F5>(k)}}; Tm term(V<F5>(k), Var(v)); c.states(1); c.step(6);
      Lc y = x; y += term; MC_CHECK(c, Same(y, Add(m, t, false)) && x + term == y, "term added", x.ToString() << " + " << term.ToString());
      y = x; y -= term; MC_CHECK(c, Same(y, Add(m, t, true)) && x - term == y, "term subtracted", x.ToString() << " - " << term.ToString());
      if (k == 1) { MC_CHECK(c, x + Var(v) == x + term && x - Var(v) == x - term, "variable added", x.ToString()); y = x; y += Var(v); y -= Var(v); MC_CHECK(c, y == (x + term) - term, "variable += -=", x.ToString()); }
    }
    for (int k = 0; k < 5; ++k) { Model s = m; for (auto& e : s) e.second *= V<F5>(k); MC_CHECK(c, Same(x * V<F5>(k), s), "scaled", x.ToString() << " by " << k); }
    Model s = m; for (auto& e : s) e.second = -e.second; Lc y = x; y.NegateInPlace(); MC_CHECK(c, Same(-x, s) && y == -x, "negated", x.ToString());
    for (int other = 0; other < 256; ++other) { Model o; for (int i = 0; i < 8; ++i) if (other >> i & 1) o[i] = V<F5>(i % 3 + 1); check(m, o); }
  }
  // Deduplication of every list of up to five (six) terms.
  for (int len = 0; len <= (c.thorough ? 6 : 5); ++len) mc::tuples(len, 8, [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("list", id); Model m; std::vector<Tm> t;
    for (size_t i = 0; i < v.size(); ++i) { F5 k = V<F5>(int64_t(i) + 1); t.push_back(Tm(k, Var(v[i]))); m = Add(m, {{v[i], k}}, false); }
    Lc x = Lc::CreateDeduplicated(t), y(t); y.Deduplicate(); c.states(1); c.step(2); MC_CHECK(c, Same(x, m) && x == y, "deduplicated", Lc(t).ToString() << " gives " << x.ToString());
    bool sorted = true; for (size_t i = 1; i < v.size(); ++i) if (v[i - 1] > v[i]) sorted = false; MC_CHECK(c, Lc(t).IsSorted() == sorted, "IsSorted", Lc(t).ToString()); });
}

// ---- constraint systems ----
// Variables of a program: -1 zero, 0 one, 1 instance, 2.. witnesses, 100+i the
// i-th symbolic combination.
struct T { int k, v; };
using L = std::vector<T>;
struct Program { int witnesses; std::vector<L> symbols; std::vector<std::array<L, 3>> constraints; };
using Row = std::vector<F5>;  // dense coefficients of one, instance, witnesses
Row Expand(const Program& p, const L& l) {
  Row r(size_t(2 + p.witnesses), F5::Zero());
  for (auto& t : l) { if (t.v < 0) continue; if (t.v < 100) r[size_t(t.v)] += V<F5>(t.k); else { Row s = Expand(p, p.symbols[size_t(t.v - 100)]); for (size_t i = 0; i < r.size(); ++i) r[i] += s[i] * V<F5>(t.k); } }
  return r;
}
std::string Text(const Program& p) {
  auto lc = [](const L& l) { std::string s = "("; for (auto& t : l) s += std::to_string(t.k) + "*" + (t.v < 0 ? "zero" : t.v == 0 ? "one" : t.v == 1 ? "x" : t.v < 100 ? "w" + std::to_string(t.v - 2) : "s" + std::to_string(t.v - 100)) + " "; return s + ")"; };
  std::string s; for (size_t i = 0; i < p.symbols.size(); ++i) s += "s" + std::to_string(i) + "=" + lc(p.symbols[i]) + " "; for (auto& k : p.constraints) s += lc(k[0]) + "*" + lc(k[1]) + "=" + lc(k[2]) + " "; return s;
}
void Synthesize(const Program& p, const std::vector<F5>& z, ConstraintSystem<F5>* cs, bool move) {
  std::vector<Variable> vars{cs->CreateOne(), cs->CreateInstanceVariable([&]() { return z[1]; })}, syms;
  for (int i = 0; i < p.witnesses; ++i) vars.push_back(cs->CreateWitnessVariable([&]() { return z[size_t(2 + i)]; }));
  auto lc = [&](const L& l) { std::vector<Tm> t; for (auto& e : l) t.push_back(Tm(V<F5>(e.k), e.v < 0 ? cs->CreateZero() : e.v < 100 ? vars[size_t(e.v)] : syms[size_t(e.v - 100)])); return Lc(t); };
  for (auto& s : p.symbols) { if (move) syms.push_back(cs->CreateLinearCombination(lc(s))); else { Lc l = lc(s); syms.push_back(cs->CreateLinearCombination(l)); } }
  for (auto& k : p.constraints) { if (move) cs->EnforceConstraint(lc(k[0]), lc(k[1]), lc(k[2])); else { Lc a = lc(k[0]), b = lc(k[1]), d = lc(k[2]); cs->EnforceConstraint(a, b, d); } }
}
F5 Dot(const Row& r, const std::vector<F5>& z) { F5 s = F5::Zero(); for (size_t i = 0; i < r.size(); ++i) s += r[i] * z[i]; return s; }
void Decide(mc::Ctx& c, const Program& p, const std::vector<std::vector<F5>>& assignments) {
  std::vector<std::array<Row, 3>> want; for (auto& k : p.constraints) want.push_back({Expand(p, k[0]), Expand(p, k[1]), Expand(p, k[2])});
  size_t n = size_t(2 + p.witnesses);
  c.states(1);
  for (OptimizationGoal goal : {OptimizationGoal::kConstraints, OptimizationGoal::kWeight}) {
    bool weight = goal == OptimizationGoal::kWeight; std::optional<ConstraintMatrices<F5>> setup;
    for (size_t which = 0; which <= assignments.size(); ++which) {
      bool proving = which > 0; ConstraintSystem<F5> cs; cs.set_optimization_goal(goal); if (!proving) cs.set_mode(SynthesisMode::Setup());
      std::vector<F5> z = proving ? assignments[which - 1] : std::vector<F5>(n, F5::One());
      Synthesize(p, z, &cs, which & 1); c.step(1);
      bool good = true; for (auto& w : want) good &= Dot(w[0], z) * Dot(w[1], z) == Dot(w[2], z);
      MC_CHECK(c, cs.num_constraints() == want.size() && cs.num_instance_variables() == 2 && cs.num_witness_variables() == size_t(p.witnesses), "counts", Text(p));
      if (proving) MC_CHECK(c, cs.IsSatisfied() == good, "satisfied before", Text(p)); else MC_CHECK(c, !cs.IsSatisfied(), "satisfied in setup", Text(p));
      cs.Finalize();
      if (proving) MC_CHECK(c, cs.IsSatisfied() == good, "satisfied after", Text(p) << (weight ? " outlined" : " inlined"));
      std::optional<ConstraintMatrices<F5>> m = cs.ToMatrices(); MC_CHECK(c, m.has_value(), "matrices", Text(p)); if (!m) return;
      size_t extra = cs.num_witness_variables() - size_t(p.witnesses), rows = cs.num_constraints();
      MC_CHECK(c, rows == want.size() + extra && (weight || extra == 0), "outlined counts", Text(p) << extra << " more witnesses, " << rows << " rows");
      MC_CHECK(c, m->num_instance_variables == 2 && m->num_witness_variables == size_t(p.witnesses) + extra && m->num_constraints == rows, "matrix counts", Text(p));
      if (rows != want.size() + extra) return;
      if (!proving) setup = m; else MC_CHECK(c, *setup == *m, "setup and proving matrices", Text(p));
      if (proving && which > 1) continue;
      // Each added witness stands for a combination of the earlier variables.
      std::vector<Row> value; for (size_t i = 0; i < n; ++i) { Row e(n, F5::Zero()); e[i] = F5::One(); value.push_back(e); }
      bool ok = true; size_t counts[3] = {0, 0, 0};
      auto flat = [&](const std::vector<Cell<F5>>& row) { Row r(n, F5::Zero()); for (auto& cell : row) { if (cell.index >= value.size()) { ok = false; continue; } if (cell.coefficient.IsZero()) ok = false; for (size_t i = 0; i < n; ++i) r[i] += cell.coefficient * value[cell.index][i]; } return r; };
      for (size_t i = 0; i < extra && ok; ++i) { Row a = flat(m->a[want.size() + i]); auto &b = m->b[want.size() + i], &d = m->c[want.size() + i]; ok &= b.size() == 1 && b[0].index == 0 && b[0].coefficient.IsOne() && d.size() == 1 && d[0].coefficient.IsOne() && d[0].index == n + i; value.push_back(a); }
      MC_CHECK(c, ok, "outlining constraints", Text(p));
      for (size_t i = 0; i < want.size() && ok; ++i) for (int k = 0; k < 3; ++k) { auto& mat = k == 0 ? m->a : k == 1 ? m->b : m->c; Row r = flat(mat[i]); MC_CHECK(c, ok && r == want[i][size_t(k)], "row", Text(p) << (weight ? " outlined" : " inlined") << " row " << i << " of " << "abc"[k]); c.step(1); }
      for (size_t i = 0; i < rows; ++i) { counts[0] += m->a[i].size(); counts[1] += m->b[i].size(); counts[2] += m->c[i].size(); }
      MC_CHECK(c, m->a_num_non_zero == counts[0] && m->b_num_non_zero == counts[1] && m->c_num_non_zero == counts[2], "non-zero counts", Text(p));
      if (proving) {
        bool same = cs.instance_assignments().size() == 2 && cs.witness_assignments().size() == size_t(p.witnesses) + extra && cs.instance_assignments()[0].IsOne() && cs.instance_assignments()[1] == z[1];
        if (same) for (size_t i = 0; i < size_t(p.witnesses) + extra; ++i) same &= cs.witness_assignments()[i] == Dot(value[2 + i], z);
        MC_CHECK(c, same, "assignments", Text(p));
      }
    }
  }
  c.trace(1);
}
std::vector<std::vector<F5>> Assignments(int witnesses) { std::vector<std::vector<F5>> out; mc::tuples(1 + witnesses, 3, [&](const std::vector<int>& v) { std::vector<F5> z{F5::One()}; for (int x : v) z.push_back(V<F5>(x == 2 ? 4 : 2 * x)); out.push_back(z); }); return out; }
MC_SECTION(systems, 8) {
  F5::Init(); uint64_t id = 0; auto z = Assignments(1);
  std::vector<L> first{{}}, second{{}};
  std::vector<T> items{{1, -1}, {1, 0}, {3, 0}, {1, 1}, {2, 1}, {1, 2}, {4, 2}}, more = items; more.push_back({1, 100}); more.push_back({2, 100});
  auto lists = [](const std::vector<T>& from, std::vector<L>* to) { for (auto& a : from) { to->push_back({a}); for (auto& b : from) to->push_back({a, b}); } };
  lists(items, &first); lists(more, &second);
  std::vector<L> ops{{}, {{1, 0}}, {{1, 1}, {1, -1}}, {{1, 101}}, {{2, 101}, {1, 100}}, {{1, 2}, {3, 101}, {1, 2}}};
  if (!c.thorough) { std::vector<std::vector<F5>> few{z[1], z[5], z[8]}; z = few; }
  for (auto& a : first) for (auto& b : second) {
    if (!c.mine(id++)) continue; mc::at("symbols", id);
    for (size_t i = 0; i < ops.size(); ++i) for (size_t j = 0; j < ops.size(); ++j) for (size_t k = 0; k < ops.size(); ++k) { Decide(c, {1, {a, b}, {{{ops[i], ops[j], ops[k]}}}}, z); }
  }
}
MC_SECTION(assignments, 8) {
  F5::Init(); uint64_t id = 0; std::vector<std::vector<F5>> z; mc::tuples(3, 5, [&](const std::vector<int>& v) { z.push_back({F5::One(), V<F5>(v[0]), V<F5>(v[1]), V<F5>(v[2])}); });
  std::vector<L> ops{{}, {{1, 0}}, {{1, 1}}, {{1, 2}}, {{2, 3}, {1, 0}}, {{1, 1}, {1, 2}, {4, 3}}, {{1, 100}}};
  for (auto& a : ops) for (auto& b : ops) for (auto& d : ops) for (auto& e : ops) for (auto& f : ops) {
    if (!c.mine(id++)) continue; mc::at("constraints", id); Decide(c, {2, {{{1, 2}, {2, 3}, {1, -1}}}, {{{a, b, d}}, {{e, a, f}}}}, z);
  }
}
// Long combinations used often enough to be given a variable of their own.
MC_SECTION(outlining, 8) {
  F5::Init(); uint64_t id = 0; const int w = 5; auto all = Assignments(w); std::vector<std::vector<F5>> z{all[1], all[100], all[500], all.back()};
  for (int n0 = 0; n0 <= 7; ++n0) for (int n1 = 0; n1 <= 5; ++n1) for (int link1 = 0; link1 < 3; ++link1) for (int n2 = 0; n2 <= 3; ++n2) for (int link2 = 0; link2 < 4; ++link2) for (int u0 = 0; u0 <= 3; ++u0) for (int u1 = 0; u1 <= 3; ++u1) for (int u2 = 0; u2 <= 3; ++u2) {
    if (!c.mine(id++)) continue; mc::at("outline", id); Program p{w, {}, {}};
    L a, b, d; for (int i = 0; i < n0; ++i) a.push_back({i % 4 + 1, i}); for (int i = 0; i < n1; ++i) b.push_back({(i + n0) % 4 + 1, 6 - i}); for (int i = 0; i < link1; ++i) b.push_back({i + 1, 100});
    for (int i = 0; i < n2; ++i) d.push_back({3, 2 * i}); if (link2 & 1) d.push_back({2, 100}); if (link2 & 2) d.push_back({1, 101});
    p.symbols = {a, b, d};
    for (int i = 0; i < std::max({u0, u1, u2}); ++i) { L x, y, t{{1, 2}}; if (i < u0) { x.push_back({1, 100}); t.push_back({i, 100}); } if (i < u1) { y.push_back({2, 101}); t.push_back({1, 101}); } if (i < u2) { x.push_back({1, 102}); y.push_back({4, 102}); } p.constraints.push_back({{x, y, t}}); }
    Decide(c, p, z);
  }
}

// ---- quadratic arithmetic programs ----
// Every system of one to three constraints over a few combinations, at every
// point of the field and with every assignment.
template <typename F> void Qap(mc::Ctx& c, const char* name, const std::vector<int64_t>& values) {
  F::Init(); using Domain = math::UnivariateEvaluationDomain<F, 15>; using Q = QuadraticArithmeticProgram<F>; const int64_t p = F::Config::kModulus; uint64_t id = 0;
  auto pw = [](F b, size_t e) { F r = F::One(); while (e--) r *= b; return r; };
  for (int inst = 0; inst <= 2; ++inst) for (int wit = 0; wit <= 2; ++wit) {
    int vars = 1 + inst + wit; std::vector<std::vector<int>> lcs; lcs.push_back(std::vector<int>(size_t(vars), 0));
    for (int i = 0; i < vars; ++i) { std::vector<int> e(size_t(vars), 0); e[size_t(i)] = 1; lcs.push_back(e); }
    { std::vector<int> e; for (int i = 0; i < vars; ++i) e.push_back(i + 2); lcs.push_back(e); e.assign(size_t(vars), 0); e.back() = -1; e[0] = 3; lcs.push_back(e); }
    int K = int(lcs.size());
    for (int cons = 0; cons <= 3; ++cons) {
      // One free constraint, the others derived from it by rotation.
      for (int pick = 0; pick < (cons == 0 ? 1 : K * K * K); ++pick) for (int step = 0; step < (cons <= 1 ? 1 : 3); ++step) {
        if (!c.mine(id++)) continue; mc::at(name, uint64_t(inst), uint64_t(wit), uint64_t(cons), uint64_t(pick));
        std::vector<std::array<std::vector<int>, 3>> ks; for (int i = 0; i < cons; ++i) { int t = i * step; ks.push_back({lcs[size_t((pick + t) % K)], lcs[size_t((pick / K + 2 * t) % K)], lcs[size_t((pick / K / K + i) % K)]}); }
        auto build = [&](const std::vector<F>& z, ConstraintSystem<F>* cs) {
          std::vector<Variable> v{Variable::One()}; for (int i = 0; i < inst; ++i) v.push_back(cs->CreateInstanceVariable([&]() { return z[size_t(1 + i)]; })); for (int i = 0; i < wit; ++i) v.push_back(cs->CreateWitnessVariable([&]() { return z[size_t(1 + inst + i)]; }));
          auto lc = [&](const std::vector<int>& l) { std::vector<Term<F>> t; for (size_t i = 0; i < l.size(); ++i) if (l[i]) t.push_back(Term<F>(V<F>(l[i]), v[i])); return LinearCombination<F>(t); };
          for (auto& k : ks) cs->EnforceConstraint(lc(k[0]), lc(k[1]), lc(k[2])); cs->Finalize(); };
        ConstraintSystem<F> setup; setup.set_mode(SynthesisMode::Setup()); build(std::vector<F>(size_t(vars), F::One()), &setup);
        size_t need = size_t(cons + 1 + inst);
        for (size_t size = 1; size <= 16; size *= 2) {
          std::unique_ptr<Domain> d = math::Radix2EvaluationDomain<F, 15>::Create(size);
          if (size < need) { if (pick % 29 == 0) { MC_CHECK(c, mc::dies([&]() { Q::InstanceMap(d.get(), setup, V<F>(3)); }), "instance map on a small domain", name << ": " << cons << " constraints, " << inst << " inputs, size " << size); c.step(1); } continue; }
          if (size > 2 * need && size > 4) continue;
          F w = F::One(); { for (int64_t g = 1; g < p; ++g) { F x = V<F>(g); size_t o = 1; F y = x; while (!y.IsOne()) { y *= x; ++o; } if (o == size && x == d->GetElement(1)) w = x; } if (size > 1) MC_CHECK(c, !w.IsOne(), "root", size); }
          std::vector<F> roots; for (size_t i = 0; i < size; ++i) roots.push_back(pw(w, i));
          // The polynomials of each variable at x, by Lagrange interpolation.
          auto polys = [&](const F& x) { std::array<std::vector<F>, 3> r; for (auto& v : r) v.assign(size_t(vars), F::Zero());
            for (size_t j = 0; j < size; ++j) { F num = F::One(), den = F::One(); for (size_t k = 0; k < size; ++k) if (k != j) { num *= x - roots[k]; den *= roots[j] - roots[k]; } F l = num * *den.Inverse();
              if (j < size_t(cons)) { for (size_t k = 0; k < 3; ++k) for (size_t v = 0; v < size_t(vars); ++v) r[k][v] += l * V<F>(ks[j][k][v]); } else if (j < need) r[0][j - size_t(cons)] += l; }
            return r; };
          auto vanish = [&](const F& x) { F t = F::One(); for (auto& r : roots) t *= x - r; return t; };
          std::vector<std::array<std::vector<F>, 3>> at; std::vector<F> ts;
          int64_t stride = p > 20 && !c.thorough ? 5 : 1;
          for (int64_t x = 0; x < p; x += stride) { F fx = V<F>(x); auto want = polys(fx); auto got = Q::InstanceMap(d.get(), setup, fx); c.step(1);
            MC_CHECK(c, got.a == want[0] && got.b == want[1] && got.c == want[2], "instance map", name << " at " << x << ": " << cons << " constraints " << inst << " inputs " << wit << " witnesses, choice " << pick << " size " << size);
            MC_CHECK(c, got.t_x == vanish(fx), "vanishing", name << " at " << x);
            MC_CHECK(c, got.num_constraints == size_t(cons) && got.num_instance_variables == size_t(1 + inst) && got.num_witness_variables == size_t(wit) && got.num_qap_variables == size_t(inst + wit), "instance map counts", name);
            std::vector<F> h = size > 1 ? Q::ComputeHQuery(d.get(), got.t_x, fx, V<F>(2)) : std::vector<F>(); bool same = h.size() == size - 1; if (same) for (size_t i = 0; i < h.size(); ++i) same &= h[i] == pw(fx, i) * got.t_x * V<F>(2); MC_CHECK(c, same, "h query", name << " at " << x << " size " << size);
            at.push_back(want); ts.push_back(vanish(fx)); }
          mc::tuples(inst + wit, int(values.size()), [&](const std::vector<int>& v) {
            std::vector<F> z{F::One()}; for (int x : v) z.push_back(V<F>(values[size_t(x)])); ConstraintSystem<F> cs; build(z, &cs); c.states(1);
            bool good = true; auto dot = [&](const std::vector<int>& l) { F s = F::Zero(); for (size_t i = 0; i < l.size(); ++i) s += V<F>(l[i]) * z[i]; return s; }; for (auto& k : ks) good &= dot(k[0]) * dot(k[1]) == dot(k[2]);
            MC_CHECK(c, cs.IsSatisfied() == good, "qap satisfied", name);
            auto r = Q::WitnessMap(d.get(), cs); c.step(1); MC_CHECK(c, r.full_assignments == z, "full assignment", name);
            MC_CHECK(c, r.h.size() <= size, "h length", name << ": " << r.h.size()); size_t len = r.h.size(); while (len && r.h[len - 1].IsZero()) --len;
            if (good) MC_CHECK(c, len <= size - 1, "h degree", name << ": " << len << " of " << size);
            bool divides = true; for (size_t i = 0; i < at.size(); ++i) { F s[3]; for (size_t k = 0; k < 3; ++k) { s[k] = F::Zero(); for (size_t j = 0; j < z.size(); ++j) s[k] += at[i][k][j] * z[j]; } F h = F::Zero(), xp = F::One(), x = V<F>(int64_t(i) * stride); for (auto& e : r.h) { h += e * xp; xp *= x; } divides &= s[0] * s[1] - s[2] == h * ts[i]; }
            // Two polynomials of degree < 2 size that agree everywhere on a field with more elements are equal.
            if (good) MC_CHECK(c, divides, "qap divides", name << ": " << cons << " constraints " << inst << " inputs " << wit << " witnesses, choice " << pick << " size " << size);
            else if (at.size() >= 2 * size) MC_CHECK(c, !divides, "qap does not divide", name);
          });
        }
        c.trace(1);
      }
    }
  }
}
MC_SECTION(qap17, 8) { Qap<math::mcf::M17>(c, "F17", {0, 1, 5}); }
MC_SECTION(qap97, 8) { Qap<math::mcf::M97>(c, "F97", {1, 96}); }
}  // namespace
