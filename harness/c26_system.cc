// C26: constraint systems: selector compression, lookup chunking, and the
// bookkeeping of queries and degrees over configuration histories.
#include "glog/logging.h"
#include "mc/fields/m97.h"
#include "mc/mc.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"

namespace {
using namespace tachyon::zk; using namespace tachyon::zk::plonk; using F = tachyon::math::mcf::M97; using Evals = tachyon::math::UnivariateEvaluations<F, 15>; using X = plonk::ExpressionFactory<F>; using E = std::unique_ptr<Expression<F>>;
[[maybe_unused]] const bool quiet = (FLAGS_minloglevel = 3, true);
F Num(uint32_t v) { return F(v); }
E Power(VirtualCells<F>& cells, const AdviceColumnKey& a, int d) { E e; for (int i = 0; i < d; ++i) { E q = cells.QueryAdvice(a, Rotation::Cur()); e = e ? std::move(e) * std::move(q) : std::move(q); } return e; }
// Simple selectors times advice^degree, one complex selector; every activation pattern.
void Selectors(mc::Ctx& c, int simple, int rows, const std::vector<int>& degrees, const std::vector<int>& minimums, bool patterns_all) {
  F::Init(); uint64_t id = 0; const uint32_t x[4] = {5, 1, 96, 33};
  mc::tuples(simple, int(degrees.size()), [&](const std::vector<int>& di) { for (int minimum : minimums) for (uint32_t pat = 0; pat < (1u << (simple * rows)); ++pat) {
    if (!c.mine(id++)) continue; if (!patterns_all && (pat * 2654435761u >> 30)) continue; mc::at("selectors", id, pat); c.states(1); c.trace(); auto on = [&](int s, int row) { return s < simple ? bool(pat >> (s * rows + row) & 1) : bool((pat + uint32_t(s) * 3) >> row & 1); };
    ConstraintSystem<F> cs; AdviceColumnKey a = cs.CreateAdviceColumn(); cs.CreateFixedColumn(); std::vector<Selector> sel; int complex_at = int(pat % uint32_t(simple + 1)); std::vector<int> of(size_t(simple) + 1);
    for (int i = 0, s = 0; i <= simple; ++i) { if (i == complex_at) { of[size_t(i)] = simple; sel.push_back(cs.CreateComplexSelector()); } else { of[size_t(i)] = s++; sel.push_back(cs.CreateSimpleSelector()); } }
    struct G { int sel, degree; }; std::vector<G> gates; std::string log = std::to_string(simple) + " selectors, pattern " + std::to_string(pat) + ", minimum " + std::to_string(minimum) + ", degrees"; if (minimum) cs.set_minimum_degree(size_t(minimum));
    for (int i = 0; i <= simple; ++i) { int s = of[size_t(i)], d = s < simple ? degrees[size_t(di[size_t(s)])] : 1; log += " " + std::to_string(d); if (d < 0) continue; for (int e : {d, d ? 1 : 0}) { if (e == 1 && e == d && gates.size() && gates.back().sel == i) continue; gates.push_back({i, e}); cs.CreateGate("gate", [&](VirtualCells<F>& cells) { std::vector<Constraint<F>> v; E q = cells.QuerySelector(sel[size_t(i)]); if (e) { if (e & 1) q = std::move(q) * Power(cells, a, e); else q = Power(cells, a, e) * std::move(q); } v.emplace_back(std::move(q)); return v; }); } }
    Selector cx = sel[size_t(complex_at)]; cs.LookupAny("lookup", [&](VirtualCells<F>& cells) { lookup::Pairs<E> p; p.emplace_back(cells.QuerySelector(cx) * cells.QueryAdvice(a, Rotation::Cur()), cells.QueryFixed(FixedColumnKey(0), Rotation::Cur())); return p; });
    cs.Shuffle("shuffle", [&](VirtualCells<F>& cells) { shuffle::Pairs<E> p; p.emplace_back(cells.QuerySelector(cx), cells.QueryAdvice(a, Rotation::Cur())); return p; });
    size_t degree = cs.ComputeDegree(); std::vector<std::vector<bool>> act; for (int i = 0; i <= simple; ++i) { act.emplace_back(); for (int r = 0; r < rows; ++r) act.back().push_back(on(of[size_t(i)], r)); }
    auto cols = cs.CompressSelectors(act); c.step(); MC_CHECK(c, cs.num_fixed_columns() == 1 + cols.size() && cs.ComputeDegree() == degree && cs.selector_map().size() == sel.size(), "columns", log); size_t true_degree = 0; for (auto& g : cs.gates()) for (auto& p : g.polys()) true_degree = std::max(true_degree, p->Degree()); MC_CHECK(c, true_degree <= degree, "degree", log << ": " << true_degree << " over " << degree);
    std::vector<Evals> fixed, advice; fixed.push_back(Evals(std::vector<F>(size_t(rows), Num(7)))); bool shape = true; for (auto& col : cols) { shape &= col.size() == size_t(rows); fixed.push_back(Evals(std::vector<F>(col))); } std::vector<F> xs; for (int r = 0; r < rows; ++r) xs.push_back(Num(x[r])); advice.push_back(Evals(std::move(xs))); MC_CHECK(c, shape && cs.gates().size() == gates.size(), "rows", log); if (!shape) continue;
    MultiPhaseRefTable<Evals> table(fixed, advice, {}, {}); std::map<int, F> kappa;
    for (size_t g = 0; g < gates.size(); ++g) for (int r = 0; r < rows; ++r) { ProvingEvaluator<Evals> ev(r, rows, 1, table); F v = ev.Evaluate(cs.gates()[g].polys()[0].get()), xp = F::One(); for (int k = 0; k < gates[g].degree; ++k) xp *= Num(x[r]); bool active = act[size_t(gates[g].sel)][size_t(r)]; int s = of[size_t(gates[g].sel)]; c.step();
      if (!active) { MC_CHECK(c, v.IsZero(), "off", log << ": gate " << g << " row " << r << " is " << v.ToString()); continue; }
      if (s == simple) { MC_CHECK(c, v == xp, "complex", log << ": row " << r); continue; }
      F k = v * *xp.Inverse(); auto it = kappa.emplace(gates[g].sel, k).first; MC_CHECK(c, !k.IsZero() && it->second == k, "on", log << ": gate " << g << " row " << r << " is " << v.ToString()); }
    for (int r = 0; r < rows; ++r) { ProvingEvaluator<Evals> ev(r, rows, 1, table); bool o = act[size_t(complex_at)][size_t(r)]; MC_CHECK(c, ev.Evaluate(cs.lookups()[0].input_expressions()[0].get()) == (o ? Num(x[r]) : F::Zero()) && ev.Evaluate(cs.lookups()[0].table_expressions()[0].get()) == Num(7) && ev.Evaluate(cs.shuffles()[0].input_expressions()[0].get()) == (o ? F::One() : F::Zero()), "argument", log << ": row " << r); for (size_t i = 0; i < sel.size(); ++i) { size_t col = cs.selector_map()[i].index(); MC_CHECK(c, col >= 1 && col < fixed.size() && (!act[i][size_t(r)] || !fixed[col][size_t(r)].IsZero()), "map", log << ": selector " << i << " row " << r); } }
    if (c.want_sample()) c.sample(log);
  } });
}
MC_SECTION(selectors_two, 4) { Selectors(c, 2, 4, {-1, 0, 1, 2, 3}, {0, 4, 7}, true); }
MC_SECTION(selectors_three, 8) { Selectors(c, 3, 3, {-1, 0, 1, 2, 3}, {0, 6}, true); }
MC_SECTION(selectors_four, 8) { Selectors(c, 4, 2, {0, 1, 3}, {0, 6, 8}, true); }
MC_SECTION_THOROUGH(selectors_five, 8) { Selectors(c, 5, 2, {0, 1, 2}, {0, 6, 8}, true); }

// Chunked log-derivative lookups: every input stays with its own table.
MC_SECTION(chunks_all, 8) {
  F::Init(); uint64_t id = 0; constexpr int kTables = 7; int depth = c.thorough ? 5 : 4;
  for (int len = 1; len <= depth; ++len) for (int gate : {0, 6}) mc::tuples(len, kTables * 3, [&](const std::vector<int>& ops) {
    if (!c.mine(id++)) return; if (len >= 4 && !(c.thorough && len == 4)) { for (int o : ops) if (o % kTables >= 4 || o / kTables == 1) return; } mc::at("chunks", id); c.states(1); c.trace(); ConstraintSystem<F> cs; cs.set_lookup_type(lookup::Type::kLogDerivativeHalo2); std::vector<AdviceColumnKey> a; for (int i = 0; i < len; ++i) a.push_back(cs.CreateAdviceColumn()); for (int i = 0; i < 2; ++i) cs.CreateFixedColumn();
    if (gate) cs.CreateGate("gate", [&](VirtualCells<F>& cells) { std::vector<Constraint<F>> v; v.emplace_back(Power(cells, a[0], gate)); return v; });
    std::vector<std::pair<std::string, std::string>> want, got; std::string log = "tables/degrees";
    for (int i = 0; i < len; ++i) { int t = ops[size_t(i)] % kTables, d = ops[size_t(i)] / kTables + 1; log += " " + std::to_string(t) + "/" + std::to_string(d);
      cs.LookupAny("l" + std::to_string(t), [&](VirtualCells<F>& cells) { lookup::Pairs<E> p; auto fix = [&](size_t k) { return cells.QueryFixed(FixedColumnKey(k), Rotation::Cur()); }; std::vector<E> tb;
        if (t == 0) tb.push_back(fix(0)); if (t == 1) tb.push_back(fix(1)); if (t == 2) tb.push_back(fix(0) * Num(2)); if (t == 3) tb.push_back(fix(1) * Num(2)); if (t == 4) { tb.push_back(X::Constant(Num(1))); tb.push_back(X::Constant(Num(11))); } if (t == 5) { tb.push_back(X::Constant(Num(11))); tb.push_back(X::Constant(Num(1))); } if (t == 6) { tb.push_back(-fix(0)); tb.push_back(fix(0) * fix(1)); }
        std::string ts, is; for (E& e : tb) { E in = Power(cells, a[size_t(i)], d); is += in->ToString() + ";"; ts += e->ToString() + ";"; p.emplace_back(std::move(in), std::move(e)); } want.emplace_back(ts, is); return p; }); }
    cs.ChunkLookups(); c.step(); for (auto& l : cs.lookups()) { std::string ts; for (auto& e : l.table_expressions()) ts += e->ToString() + ";"; for (auto& in : l.inputs_expressions()) { std::string is; for (auto& e : in) is += e->ToString() + ";"; got.emplace_back(ts, is); } bool ok = true; for (auto& in : l.inputs_expressions()) ok &= in.size() == l.table_expressions().size(); MC_CHECK(c, ok, "width", log); if (ok) MC_CHECK(c, l.RequiredDegree() <= cs.minimum_degree().value() && l.RequiredDegree() <= cs.ComputeDegree(), "degree", log << ": " << l.RequiredDegree()); }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); MC_CHECK(c, want == got, "chunks", log << " with a gate of degree " << gate);
  });
}

// Configuration histories with degrees and blinding factors read at every step.
MC_SECTION(histories, 8) {
  F::Init(); uint64_t id = 0; int depth = c.thorough ? 5 : 4; constexpr int kOps = 14;
  mc::tuples(depth, kOps, [&](const std::vector<int>& ops) { for (int ask : {0, 1}) {
    if (!c.mine(id++)) continue; mc::at("history", id, ask); c.states(1); c.trace(); ConstraintSystem<F> cs; AdviceColumnKey a = cs.CreateAdviceColumn(), b = cs.CreateAdviceColumn(kFirstPhase); FixedColumnKey f = cs.CreateFixedColumn(); InstanceColumnKey in = cs.CreateInstanceColumn();
    size_t gates = 0, look = 1, shuf = 1, minimum = 1; std::vector<std::pair<int, int>> adv, fix, ins; std::vector<int> equal; std::string log = "ops"; auto note = [](std::vector<std::pair<int, int>>& v, int col, int rot) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == std::pair(col, rot)) return i; v.emplace_back(col, rot); return v.size() - 1; }; auto link = [&](int k) { for (int e : equal) if (e == k) return; equal.push_back(k); };
    for (size_t step = 0; step < ops.size(); ++step) { int op = ops[step]; log += " " + std::to_string(op);
      if (op <= 2) { int d = op == 0 ? 1 : op == 1 ? 4 : 7; note(adv, op & 1, 0); gates = std::max(gates, size_t(d)); cs.CreateGate("g", [&](VirtualCells<F>& cells) { std::vector<Constraint<F>> v; v.emplace_back(Power(cells, op & 1 ? b : a, d)); return v; }); MC_CHECK(c, cs.gates().back().queried_cells().size() == size_t(d), "cells", log); }
      if (op == 3 || op == 4) { int d = op == 3 ? 1 : 4; note(adv, 0, 0); note(fix, 0, 0); look = std::max(look, size_t(std::max(4, 2 + d + 1))); cs.LookupAny("l", [&](VirtualCells<F>& cells) { lookup::Pairs<E> p; E e = Power(cells, a, d); p.emplace_back(std::move(e), cells.QueryFixed(f, Rotation::Cur())); return p; }); }
      if (op == 5) { note(adv, 1, 0); note(ins, 0, 0); shuf = std::max(shuf, size_t{5}); cs.Shuffle("s", [&](VirtualCells<F>& cells) { shuffle::Pairs<E> p; E e = Power(cells, b, 3); p.emplace_back(std::move(e), cells.QueryInstance(in, Rotation::Cur())); return p; }); }
      if (op == 6) { minimum = std::max(minimum, size_t{6}); cs.set_minimum_degree(6); }
      if (op == 7) { minimum = std::max(minimum, size_t{9}); cs.set_minimum_degree(9); }
      if (op >= 8 && op <= 10) { int rot = op == 8 ? -1 : op == 9 ? 1 : 2; size_t k = note(adv, 0, rot); MC_CHECK(c, cs.QueryAdviceIndex(a, Rotation(rot)) == k && cs.GetAdviceQueryIndex(a, Rotation(rot)) == k && cs.GetAnyQueryIndex(AnyColumnKey(a), Rotation(rot)) == k, "advice query", log); }
      if (op == 11) { size_t k = note(fix, 0, 0); cs.EnableConstant(f); link(2); MC_CHECK(c, cs.QueryFixedIndex(f, Rotation::Cur()) == k, "fixed query", log); }
      if (op == 12) { note(adv, 0, 0); cs.EnableEquality(a); link(0); }
      if (op == 13) { size_t k = note(ins, 0, 1); MC_CHECK(c, cs.QueryInstanceIndex(in, Rotation(1)) == k, "instance query", log); }
      if (!ask && step + 1 != ops.size()) continue; c.step(); size_t degree = std::max({size_t{3}, look, shuf, gates, minimum}); size_t q[2] = {0, 0}; for (auto& x : adv) ++q[x.first]; size_t blind = std::max({size_t{3}, q[0], q[1]}) + 2;
      MC_CHECK(c, cs.ComputeDegree() == degree, "degree", log << (ask ? " (read at every step)" : "") << ": " << cs.ComputeDegree() << ", should be " << degree);
      MC_CHECK(c, cs.ComputeBlindingFactors() == blind && cs.ComputeMinimumRows() == blind + 3 && cs.ComputeLastRow() == -int(blind + 1), "blinding", log << (ask ? " (read at every step)" : "") << ": " << cs.ComputeBlindingFactors() << ", should be " << blind);
      for (uint32_t k = 0; k < 5; ++k) { uint32_t e = cs.ComputeExtendedK(k); MC_CHECK(c, (size_t{1} << e) >= (size_t{1} << k) * (degree - 1) && (e == k || (size_t{1} << (e - 1)) < (size_t{1} << k) * (degree - 1)), "extended", log << ": k " << k << " gives " << e); }
      MC_CHECK(c, cs.permutation().columns().size() == equal.size() && cs.ComputePermutationProductNums() == (equal.size() + degree - 3) / (degree - 2), "products", log);
      auto same = [&](const auto& got, const std::vector<std::pair<int, int>>& want) { if (got.size() != want.size()) return false; for (size_t i = 0; i < want.size(); ++i) if (int(got[i].column().index()) != want[i].first || got[i].rotation().value() != want[i].second) return false; return true; };
      MC_CHECK(c, same(cs.advice_queries(), adv) && same(cs.fixed_queries(), fix) && same(cs.instance_queries(), ins), "queries", log); }
  } });
}
// Expressions made outside the callback are queried when they are handed over.
MC_SECTION(late_queries, 1) {
  F::Init(); for (int kind = 0; kind < 3; ++kind) for (int where = 0; where < 4; ++where) {
    mc::at("late", kind, where); c.states(1); c.step(); c.trace(); ConstraintSystem<F> cs; if (where == 3) cs.set_lookup_type(lookup::Type::kLogDerivativeHalo2); AdviceColumnKey a = cs.CreateAdviceColumn(); FixedColumnKey f = cs.CreateFixedColumn(); InstanceColumnKey in = cs.CreateInstanceColumn();
    auto make = [&] { return kind == 0 ? X::Advice(AdviceQuery(std::nullopt, Rotation(1), a)) : kind == 1 ? X::Fixed(FixedQuery(std::nullopt, Rotation(1), f)) : X::Instance(InstanceQuery(std::nullopt, Rotation(1), in)); };
    const Expression<F>* e = nullptr;
    if (where == 0) { cs.CreateGate("g", [&](VirtualCells<F>&) { std::vector<Constraint<F>> v; v.emplace_back(make()); return v; }); e = cs.gates()[0].polys()[0].get(); MC_CHECK(c, cs.gates()[0].queried_cells().size() == 1, "gate cells", kind << ": " << cs.gates()[0].queried_cells().size()); }
    if (where == 1 || where == 3) { cs.LookupAny("l", [&](VirtualCells<F>& cells) { lookup::Pairs<E> p; p.emplace_back(make(), cells.QueryFixed(f, Rotation::Cur())); return p; }); if (where == 3) cs.ChunkLookups(); e = cs.lookups()[0].input_expressions()[0].get(); }
    if (where == 2) { cs.Shuffle("s", [&](VirtualCells<F>& cells) { shuffle::Pairs<E> p; p.emplace_back(make(), cells.QueryFixed(f, Rotation::Cur())); return p; }); e = cs.shuffles()[0].input_expressions()[0].get(); }
    bool has = kind == 0 ? e->ToAdvice()->query().HasIndex() : kind == 1 ? e->ToFixed()->query().HasIndex() : e->ToInstance()->query().HasIndex(); MC_CHECK(c, has, "late", (kind == 0 ? "advice" : kind == 1 ? "fixed" : "instance") << " in " << (where == 0 ? "a gate" : where == 1 ? "a lookup" : where == 2 ? "a shuffle" : "a log-derivative lookup"));
  }
}
// Simple selectors are refused where they may not appear.
MC_SECTION(refusals, 1) {
  F::Init(); for (int type = 0; type < 2; ++type) for (int side = 0; side < 2; ++side) for (int simple = 0; simple < 2; ++simple) for (int any = 0; any < 2; ++any) { if (!any && side) continue; mc::at("refuse", type, side, simple, any); c.states(1); c.step(); c.trace();
    bool died = mc::dies([&] { ConstraintSystem<F> cs; cs.set_lookup_type(type ? lookup::Type::kLogDerivativeHalo2 : lookup::Type::kHalo2); AdviceColumnKey a = cs.CreateAdviceColumn(); LookupTableColumn t = cs.CreateLookupTableColumn(); Selector s = simple ? cs.CreateSimpleSelector() : cs.CreateComplexSelector();
      if (any) cs.LookupAny("l", [&](VirtualCells<F>& cells) { lookup::Pairs<E> p; E x = cells.QueryAdvice(a, Rotation::Cur()), y = cells.QueryFixed(t.column(), Rotation::Cur()); if (side) y = cells.QuerySelector(s) * std::move(y); else x = cells.QuerySelector(s) * std::move(x); p.emplace_back(std::move(x), std::move(y)); return p; });
      else cs.Lookup("l", [&](VirtualCells<F>& cells) { lookup::Pairs<E, LookupTableColumn> p; p.emplace_back(cells.QuerySelector(s) * cells.QueryAdvice(a, Rotation::Cur()), t); return p; }); });
    MC_CHECK(c, died == bool(simple), "refusal", (simple ? "simple" : "complex") << " selector in the " << (side ? "table" : "input") << " of a " << (type ? "log-derivative " : "") << "lookup" << (any ? " (any)" : "")); }
}
}  // namespace
