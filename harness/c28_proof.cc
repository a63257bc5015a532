// Proofs over a real curve: accepted exactly for satisfied circuits, and only unaltered.
#include "mc/c28.h"

namespace {
using namespace c28;
const bool quiet = (FLAGS_minloglevel = 3, true);
template <typename C> using Simple = SimpleFloorPlanner<C>;
template <typename C> using V1 = V1FloorPlanner<C>;
std::string Show(const std::vector<Wit>& w, const Instances& ins) {
  std::string s = "kind " + std::to_string(g_shape.kind) + "/" + std::to_string(g_shape.op) + " mask " + std::to_string(g_shape.mask) + " table " + mc::vstr(g_shape.table) + " links";
  for (auto& l : g_shape.links) s += " " + std::to_string(l.first) + "-" + std::to_string(l.second);
  for (auto& x : w) s += " cells " + mc::vstr(x.cells);
  for (auto& i : ins) for (auto& col : i) s += " instance " + mc::vstr(col);
  return s;
}
// Whether some honest run of the prover convinces a verifier that knows the shape and the instances.
template <template <typename> class P>
bool Accepted(const std::vector<Wit>& w, const Instances& ins, const Instances& claimed, Bytes* out = nullptr) {
  Checker<P> ck(w[0].cells.size() / 3);
  Bytes proof = Prove<P>(w, ins);
  if (out) *out = proof;
  return ck.Verify(proof, claimed);
}
template <template <typename> class P = Simple>
void Case(mc::Ctx& c, const std::vector<Wit>& w, const Instances& ins, bool valid, bool may_stop = false) {
  c.states(1); c.trace(); c.step(2);
  if (c.want_sample()) c.sample(Show(w, ins));
  if (valid || !may_stop) {
    MC_CHECK(c, Accepted<P>(w, ins, ins) == valid, valid ? "complete" : "sound", Show(w, ins));
  } else {
    // A prover may stop on a witness it cannot arrange.
    MC_CHECK(c, mc::dies([&] { if (!Accepted<P>(w, ins, ins)) abort(); }), "sound", Show(w, ins));
  }
}
Instances None(size_t n, size_t cols) { return Instances(n, std::vector<std::vector<int>>(cols)); }

MC_SECTION(gates_all, 8) {
  uint64_t id = 0;
  for (int op = 0; op <= 8; ++op) for (uint32_t mask : {2u, 0u}) mc::tuples(3, 3, [&](const std::vector<int>& v) { for (int fx = 1; fx <= (op == 2 || op == 6 ? 2 : 1); ++fx) {
    if (!c.mine(id++)) continue; if (mask == 0 && v != std::vector<int>{1, 2, 2}) continue; mc::at("gate", op, id);
    g_shape = {}; g_shape.op = op; g_shape.mask = mask; g_shape.table = {2, fx, 1};
    std::vector<int> w(9, 1); Instances ins = None(1, 1); int x = v[0], y = v[1], z = v[2]; bool ok = true;
    switch (op) {
      case 0: w[3] = x; w[4] = y; w[5] = z; ok = x * y == z; break;
      case 1: w[6] = x; w[3] = y; w[4] = z; ok = x == y + z; break;
      case 2: w[2] = x; w[3] = y; w[4] = z; ok = x == y * fx; break;
      case 3: w[3] = x; ins[0][0] = {z, y, z}; ok = x == y; break;
      case 4: w[3] = x + y; w[4] = z; ok = x + y <= 2; break;
      case 5: w[3] = x; w[4] = y; w[5] = z; ok = x == y && y == z; break;
      case 6: w[3] = x; w[4] = y; w[5] = z; ok = x * y * z * z == fx; break;
      case 7: w[3] = x; w[4] = y; w[5] = z; ok = x == y; break;
      case 8: w[3] = x; ins[0][0] = {y, 2, z}; ok = x == y + z; break;
    }
    if (!mask) ok = true;
    if (id % 4 == 0) Case<V1>(c, {Wit{w}}, ins, ok); else Case(c, {Wit{w}}, ins, ok);
  } });
}

MC_SECTION(copies_all, 8) {
  uint64_t id = 0; const int cell[4] = {0, 1, 4, 5}; std::vector<std::pair<int, int>> all;
  for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) all.emplace_back(cell[i], cell[j]);
  for (int i = 0; i < 4; ++i) { all.emplace_back(cell[i], c.thorough ? 100 : 100 + i % 2); all.emplace_back(cell[i], 201); if (c.thorough) { all.emplace_back(cell[i], 101); all.emplace_back(cell[i], 200); } }
  for (size_t i = 0; i < all.size(); ++i) for (size_t j = i; j < all.size(); ++j) for (uint32_t bits = 0; bits < 16; ++bits) {
    if (!c.mine(id++)) continue; mc::at("copy", id, bits);
    g_shape = {}; g_shape.kind = 1; g_shape.links = {all[i]}; if (j != i) g_shape.links.push_back(all[j]);
    std::vector<int> w = {7, 7, 8, 9, 7, 7}; for (int k = 0; k < 4; ++k) w[size_t(cell[k])] = int(bits >> k & 1);
    Instances ins = {{{1, 0}}}; auto val = [&](int x) { return x >= 200 ? x - 200 : x >= 100 ? ins[0][0][size_t(x - 100)] : w[size_t(x)]; };
    bool ok = true; for (auto& l : g_shape.links) ok &= val(l.first) == val(l.second);
    if (id % 4 == 0) Case<V1>(c, {Wit{w}}, ins, ok); else Case(c, {Wit{w}}, ins, ok);
  }
}

MC_SECTION(lookups_table, 8) {
  uint64_t id = 0; const std::vector<std::vector<int>> tables = {{1, 2, 3, 4, 5, 6}, {1, 1, 3, 2, 1, 2}, {3, 3, 3, 1, 2, 3}};
  for (auto& t : tables) for (int op = 0; op < 3; ++op) for (uint32_t mask : {7u, 5u}) mc::tuples(op ? 4 : 3, op ? 3 : 4, [&](const std::vector<int>& v) {
    if (op && mask == 5) return; if (!c.mine(id++)) return; mc::at("lookup", op, mask, id); g_shape = {}; g_shape.kind = 2; g_shape.op = op; g_shape.table = t; g_shape.mask = op ? 3 : mask;
    std::vector<int> w(9, 0); bool ok = true; size_t n = t.size() / 2;
    auto in1 = [&](int x) { return std::find(t.begin(), t.begin() + int(n), x) != t.begin() + int(n); };
    auto in2 = [&](int x, int y) { for (size_t k = 0; k < n; ++k) if (t[k] == x && t[n + k] == y) return true; return false; };
    if (!op) for (int r = 0; r < 3; ++r) { w[size_t(r) * 3] = v[size_t(r)]; if (mask >> r & 1) ok &= in1(v[size_t(r)]); }
    else for (int r = 0; r < 2; ++r) { int x = v[size_t(r) * 2] + 1, y = v[size_t(r) * 2 + 1] + (op == 1 && n && t[n] > 2 ? 4 : 1); w[size_t(r) * 3] = x; w[size_t(r) * 3 + 1] = y; ok &= op == 1 ? in2(x, y) : in1(x) && in1(y); }
    Case(c, {Wit{w}}, None(1, 0), ok, true);
  });
}
MC_SECTION(lookups_any, 8) {
  uint64_t id = 0; mc::tuples(6, 3, [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("lookup any", id); g_shape = {}; g_shape.kind = 2; g_shape.op = 3; g_shape.table = {1, 2, 3, 4}; std::vector<int> w(9, 5); bool ok = true;
    for (size_t r = 0; r < 3; ++r) { w[r * 3] = v[r]; w[r * 3 + 1] = v[3 + r]; ok &= !v[r] || std::find(v.begin() + 3, v.end(), v[r]) != v.end(); }
    Case(c, {Wit{w}}, None(1, 0), ok, true);
  });
}
MC_SECTION(shuffles_all, 8) {
  uint64_t id = 0; for (int op = 0; op < 2; ++op) mc::tuples(op ? 4 : 6, 3, [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("shuffle", op, id); g_shape = {}; g_shape.kind = 3; g_shape.op = op; size_t rows = v.size() / 2; std::vector<int> w(rows * 3, 5); std::vector<std::pair<int, int>> l, r;
    for (size_t i = 0; i < rows; ++i) { int x = v[i], y = v[rows + i]; w[i * 3] = x; w[i * 3 + 1] = y; l.emplace_back(x, op ? y : 0); r.emplace_back(y, op ? x : 0); }
    std::sort(l.begin(), l.end()); std::sort(r.begin(), r.end()); Case(c, {Wit{w}}, None(1, 0), l == r);
  });
}
MC_SECTION(phases, 2) {
  uint64_t id = 0; for (uint32_t mask : {1u, 3u}) for (int a = 0; a < 4; ++a) for (int x = 0; x < 4; ++x) { if (!c.mine(id++)) continue; mc::at("phase", mask, a, x); g_shape = {}; g_shape.kind = 4; g_shape.mask = mask; Case(c, {Wit{{a, 0, x, 2, 0, 2}}}, None(1, 0), a == x); }
}
// Several circuits in one proof: all of them have to hold.
MC_SECTION(batches, 8) {
  uint64_t id = 0; for (int n = 2; n <= 3; ++n) mc::tuples(2 * n, 2, [&](const std::vector<int>& v) {
    if (!c.mine(id++)) return; mc::at("batch", n, id); g_shape = {}; g_shape.op = 3; g_shape.mask = 2; g_shape.table = {1, 1, 1};
    std::vector<Wit> w; Instances ins; bool ok = true; for (int i = 0; i < n; ++i) { int x = v[size_t(i) * 2], y = v[size_t(i) * 2 + 1]; w.push_back(Wit{{0, 0, 0, x, 3, 4, 0, 0, 0}}); ins.push_back({{5, y, i}}); ok &= x == y; }
    Case(c, w, ins, ok);
  });
  for (int kind = 1; kind < 4; ++kind) for (int bad = 0; bad < 3; ++bad) { if (!c.mine(id++)) continue; mc::at("batch of", kind, bad); g_shape = {}; g_shape.kind = kind; g_shape.mask = 3; g_shape.table = {1, 2, 2, 3}; if (kind == 1) g_shape.links = {{0, 4}, {1, 100}};
    std::vector<Wit> w; for (int i = 0; i < 2; ++i) { Wit x{kind == 1 ? std::vector<int>{2, 3, 0, 0, 2, 0} : kind == 2 ? std::vector<int>{2, 0, 0, 1, 0, 0} : std::vector<int>{1, 2, 0, 2, 1, 0}}; if (bad == i + 1) x.cells[0] = 9; w.push_back(x); }
    Case(c, w, kind == 1 ? Instances{{{3}}, {{3}}} : None(2, 0), bad == 0, kind == 2); }
}

// An altered proof, another instance or another key is never accepted.
struct Honest { Shape shape; std::vector<Wit> w; Instances ins; };
std::vector<Honest> HonestOnes() {
  std::vector<Honest> v; Shape s; s.op = 3; s.mask = 2; s.table = {1, 1, 1}; v.push_back({s, {Wit{{0, 0, 0, 6, 3, 4, 0, 0, 0}}}, {{{5, 6, 7}}}});
  s = {}; s.kind = 1; s.links = {{0, 4}, {1, 100}, {5, 201}}; v.push_back({s, {Wit{{2, 3, 0, 0, 2, 1}}}, {{{3}}}});
  s = {}; s.kind = 2; s.op = 2; s.mask = 3; s.table = {1, 2, 2, 3}; v.push_back({s, {Wit{{2, 1, 0, 1, 1, 0}}}, {{}}});
  s = {}; s.kind = 3; v.push_back({s, {Wit{{1, 2, 0, 2, 1, 0}}}, {{}}});
  s = {}; s.kind = 4; s.mask = 1; v.push_back({s, {Wit{{3, 0, 3}}}, {{}}});
  return v;
}
void Tamper(mc::Ctx& c, size_t which) {
  uint64_t id = 0; Honest h = HonestOnes()[which]; g_shape = h.shape; size_t rows = h.w[0].cells.size() / 3; Bytes proof = Prove<Simple>(h.w, h.ins); Checker<Simple> ck(rows);
  if (c.shard == 0) MC_CHECK(c, ck.Verify(proof, h.ins), "honest", "kind " << h.shape.kind);
  c.states(1); c.trace();
  auto reject = [&](const Bytes& p, const Instances& ins, const std::string& what) { if (!c.mine(id++)) return; mc::at("tamper", which, id); c.step(); c.states(1); MC_CHECK(c, mc::dies([&] { if (!ck.Verify(p, ins)) abort(); }), "altered", "kind " << h.shape.kind << ": " << what); };
  size_t n = proof.size() / 32; MC_CHECK(c, n * 32 == proof.size(), "length", proof.size());
  for (size_t i = 0; i < proof.size(); ++i) for (int b = 0; b < 8; ++b) { if (!c.thorough && ((i % 32 == 0 && b) || (i % 32 == 31 && b < 6) || (i % 32 && i % 32 != 31 && (i % 32 != 1 + (i / 32) % 30 || b != int(i / 32 % 8))))) continue; if (i % 32 == 31 && b == 7 && std::all_of(proof.begin() + int(i / 32) * 32, proof.begin() + int(i / 32) * 32 + 32, [](uint8_t x) { return !x; })) continue;  // The point at infinity has no sign (as in halo2).
    Bytes p = proof; p[i] ^= uint8_t(1 << b); reject(p, h.ins, "byte " + std::to_string(i) + " bit " + std::to_string(b)); }
  for (size_t i = 0; i < n; ++i) {
    Bytes cut(proof.begin(), proof.begin() + int(i) * 32), skip = proof, zero = proof; skip.erase(skip.begin() + int(i) * 32, skip.begin() + int(i) * 32 + 32); std::fill(zero.begin() + int(i) * 32, zero.begin() + int(i) * 32 + 32, 0);
    reject(cut, h.ins, "cut at element " + std::to_string(i)); if (skip != proof) reject(skip, h.ins, "without element " + std::to_string(i)); if (zero != proof) reject(zero, h.ins, "zero element " + std::to_string(i));
    for (size_t j = i + 1; j < n; ++j) { Bytes p = proof; std::swap_ranges(p.begin() + int(i) * 32, p.begin() + int(i) * 32 + 32, p.begin() + int(j) * 32); if (p != proof && (c.thorough || j <= i + 2)) reject(p, h.ins, "elements " + std::to_string(i) + " and " + std::to_string(j) + " swapped"); Bytes q = proof; std::copy(proof.begin() + int(j) * 32, proof.begin() + int(j) * 32 + 32, q.begin() + int(i) * 32); if (q != proof && (c.thorough || j == i + 1)) reject(q, h.ins, "element " + std::to_string(j) + " twice"); }
  }
  for (size_t k = 0; k < h.ins.size(); ++k) for (size_t col = 0; col < h.ins[k].size(); ++col) for (size_t r = 0; r < h.ins[k][col].size(); ++r) for (int d : {1, -1, 1 << 20}) { Instances ins = h.ins; ins[k][col][r] += d; reject(proof, ins, "instance " + std::to_string(r)); }
  if (!h.ins[0].empty()) { Instances ins = h.ins; ins[0][0].push_back(9); reject(proof, ins, "longer instance"); ins = h.ins; ins[0].emplace_back(); reject(proof, ins, "another instance column"); ins = h.ins; ins[0][0].resize(14, 0); reject(proof, ins, "instance beyond the usable rows"); }
  { Instances ins = h.ins; ins.push_back(h.ins[0]); reject(proof, ins, "two circuits"); reject(proof, {}, "no circuit"); }
  for (size_t o = 0; o < HonestOnes().size(); ++o) { if (o == which) continue; g_shape = HonestOnes()[o].shape; Checker<Simple> other(HonestOnes()[o].w[0].cells.size() / 3); c.step(); c.mine(id++); if (c.shard == 0) MC_CHECK(c, mc::dies([&] { if (!other.Verify(proof, HonestOnes()[o].ins)) abort(); }) && mc::dies([&] { if (!other.Verify(proof, h.ins)) abort(); }), "other key", "kind " << h.shape.kind << " against kind " << g_shape.kind); }
  g_shape = h.shape;
}
MC_SECTION(tamper_gate, 8) { Tamper(c, 0); }
MC_SECTION(tamper_copy, 8) { Tamper(c, 1); }
MC_SECTION(tamper_lookup, 8) { Tamper(c, 2); }
MC_SECTION(tamper_shuffle, 8) { Tamper(c, 3); }
MC_SECTION(tamper_phase, 8) { Tamper(c, 4); }
}  // namespace
