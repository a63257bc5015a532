// C21: field Merkle trees of matrices of mixed heights, against the definition
// computed row by row.
#include <array>
#include <memory>
#include <numeric>

#include "mc/mc.h"
#include "mc/omp_rt.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"

namespace {
using namespace tachyon; using namespace tachyon::crypto; using math::BabyBear; using math::BabyBear4;
using Packed = math::PackedBabyBear;
constexpr size_t kN = 2;
using Digest = std::array<BabyBear, kN>;
// A toy hash: cheap, position dependent, the same on every lane.
template <typename T> void Absorb(T& a, T& b, const T& x) { a += x; T s = a * a; a = s * a + b; b += s * T(7) + T(11); }
template <typename T> struct ToyHash {
  using R = std::array<T, kN>;
  template <typename C> R Hash(const C& in) const { T a(5), b(9); for (const auto& x : in) Absorb(a, b, T(x)); Absorb(a, b, T(3)); Absorb(a, b, T(1)); return R{a, b}; }
};
template <typename T> struct ToyCompress {
  using R = std::array<T, kN>;
  template <typename C> R Compress(const C& in) const { T a(17), b(23); for (const R& d : in) for (const T& x : d) Absorb(a, b, x); Absorb(a, b, T(2)); return R{a, b}; }
};
template <typename F> using MMCS = FieldMerkleTreeMMCS<F, ToyHash<BabyBear>, ToyHash<Packed>, ToyCompress<BabyBear>, ToyCompress<Packed>, kN>;
template <typename F> using Mat = math::RowMajorMatrix<F>;
Digest H2(const Digest& a, const Digest& b) { return ToyCompress<BabyBear>().Compress(std::array<Digest, 2>{a, b}); }
void Flat(std::vector<BabyBear>& o, const BabyBear& x) { o.push_back(x); }
void Flat(std::vector<BabyBear>& o, const BabyBear4& x) { for (size_t i = 0; i < 4; ++i) o.push_back(x[i]); }
template <typename F> Digest HashRows(const std::vector<const std::vector<F>*>& rows) { std::vector<BabyBear> v; for (auto* r : rows) for (auto& x : *r) Flat(v, x); return ToyHash<BabyBear>().Hash(v); }
size_t Up(size_t n) { size_t p = 1; while (p < n) p *= 2; return p; }
struct Shape { int rows, cols; };
template <typename F> F Val(size_t m, size_t i, size_t j);
template <> BabyBear Val(size_t m, size_t i, size_t j) { return BabyBear(uint32_t(1000003 * (m + 1) + 5003 * i + 7 * j + 1)); }
template <> BabyBear4 Val(size_t m, size_t i, size_t j) { auto v = Val<BabyBear>(m, i, j); return BabyBear4(v, v + BabyBear(1), v * v, BabyBear(uint32_t(i))); }
template <typename F> std::vector<F> Row(const Mat<F>& m, size_t i) { std::vector<F> v; for (int j = 0; j < m.cols(); ++j) v.push_back(m(i, j)); return v; }
// The definition. Matrices of one padded height are hashed together in the order given.
template <typename F> std::vector<std::vector<Digest>> Layers(const std::vector<Mat<F>>& ms) {
  size_t top = 0; for (auto& m : ms) top = std::max(top, size_t(m.rows()));
  auto leaf = [&](size_t h, size_t i, Digest* out) { std::vector<std::vector<F>> rows; bool any = false; for (auto& m : ms) if (Up(m.rows()) == h) { any = true; if (i < size_t(m.rows())) rows.push_back(Row(m, i)); } std::vector<const std::vector<F>*> p; for (auto& r : rows) p.push_back(&r); *out = p.empty() ? Digest{BabyBear::Zero(), BabyBear::Zero()} : HashRows<F>(p); return any; };
  std::vector<std::vector<Digest>> l(1); for (size_t i = 0; i < Up(top); ++i) { Digest d; leaf(Up(top), i, &d); l[0].push_back(d); }
  while (l.back().size() > 1) { std::vector<Digest> n; size_t h = l.back().size() / 2; for (size_t i = 0; i < h; ++i) { Digest d = H2(l.back()[2 * i], l.back()[2 * i + 1]), e; if (leaf(h, i, &e)) d = H2(d, e); n.push_back(d); } l.push_back(n); }
  return l;
}
using Dims = std::vector<math::Dimensions>;
template <typename F> bool RefVerify(const Digest& root, const Dims& dims, size_t index, const std::vector<std::vector<F>>& open, const std::vector<Digest>& proof) {
  size_t top = 0; for (auto& d : dims) top = std::max(top, Up(d.height));
  if (index >= top || size_t(1) << proof.size() != top) return false;
  auto leaf = [&](size_t h, Digest* out) { std::vector<std::pair<int, const std::vector<F>*>> p; for (size_t i = 0; i < dims.size(); ++i) if (Up(dims[i].height) == h) p.push_back({-int(dims[i].height), &open[i]}); std::stable_sort(p.begin(), p.end(), [](auto& a, auto& b) { return a.first < b.first; }); if (p.empty()) return false; std::vector<const std::vector<F>*> q; for (auto& x : p) q.push_back(x.second); *out = HashRows<F>(q); return true; };
  Digest d, e; leaf(top, &d);
  for (auto& s : proof) { d = index & 1 ? H2(s, d) : H2(d, s); index >>= 1; top >>= 1; if (leaf(top, &e)) d = H2(d, e); }
  return d == root;
}
std::string Name(const std::vector<Shape>& s) { std::string r; for (auto& x : s) r += (r.empty() ? "" : " ") + std::to_string(x.rows) + "x" + std::to_string(x.cols); return r; }
// Heights that round up to the same power of two must be equal.
bool Valid(const std::vector<Shape>& s) { for (auto& a : s) for (auto& b : s) if (a.rows != b.rows && Up(a.rows) == Up(b.rows)) return false; return true; }

template <typename F, typename M> void One(mc::Ctx& c, const M& mmcs, const std::vector<Shape>& shape, int attack) {
  const std::string w = Name(shape); mc::at_s("matrices", w.c_str());
  std::vector<Mat<F>> ms; for (size_t k = 0; k < shape.size(); ++k) { Mat<F> m(shape[k].rows, shape[k].cols); for (int i = 0; i < shape[k].rows; ++i) for (int j = 0; j < shape[k].cols; ++j) m(i, j) = Val<F>(k, i, j); ms.push_back(m); }
  auto L = Layers(ms); Digest root = L.back()[0];
  Digest got, got2; FieldMerkleTree<F, kN> tree, owned;
  std::vector<Eigen::Map<const Mat<F>>> maps; for (auto& m : ms) maps.emplace_back(m.data(), m.rows(), m.cols());
  bool ok = mmcs.Commit(std::move(maps), &got, &tree); auto copy = ms; ok &= mmcs.CommitOwned(std::move(copy), &got2, &owned);
  c.step(2); c.state(mc::hash_bytes(w.data(), w.size(), sizeof(F))); c.trace();
  MC_CHECK(c, ok && got == root && got2 == root, "root", w); MC_CHECK(c, tree.digest_layers() == L && owned == tree, "layers", w);
  bool same = mmcs.GetMatrices(owned).size() == ms.size(); for (size_t k = 0; same && k < ms.size(); ++k) same = mmcs.GetMatrices(owned)[k] == ms[k]; MC_CHECK(c, same, "matrices", w);
  Dims dims; size_t top = 0; for (auto& s : shape) { dims.push_back({size_t(s.cols), size_t(s.rows)}); top = std::max(top, size_t(s.rows)); }
  MC_CHECK(c, mmcs.GetMaxRowSize(tree) == top, "max-row-size", w);
  uint32_t lg = 0; while (size_t(1) << lg < top) ++lg;
  auto bump = [](const F& x) { return x + F::One(); };
  for (size_t i = 0; i < Up(top) + 3; ++i) {
    std::vector<std::vector<F>> open; std::vector<Digest> proof; bool inside = i < top;
    for (auto& m : ms) { size_t r = i >> (lg - (size_t)__builtin_ctzll(Up(m.rows()))); inside = inside && r < size_t(m.rows()); }
    bool made = mmcs.CreateOpeningProof(i, owned, &open, &proof); c.step();
    MC_CHECK(c, made == inside, inside ? "opening-created" : "opening-out-of-range", w << " index " << i);
    if (!made) continue;
    std::vector<std::vector<F>> want; for (auto& m : ms) want.push_back(Row(m, i >> (lg - (size_t)__builtin_ctzll(Up(m.rows())))));
    std::vector<Digest> sib; for (uint32_t k = 0; k < lg; ++k) sib.push_back(L[k][(i >> k) ^ 1]);
    MC_CHECK(c, open == want, "opened-rows", w << " index " << i); MC_CHECK(c, proof == sib, "siblings", w << " index " << i);
    MC_CHECK(c, mmcs.VerifyOpeningProof(root, dims, i, open, proof), "honest-opening-verifies", w << " index " << i); c.step();
    if (!attack) continue;
    auto judge = [&](const Digest& r, const Dims& d, size_t at, const std::vector<std::vector<F>>& o, const std::vector<Digest>& p, bool must_reject, const std::string& what) {
      c.step(); bool ref = RefVerify<F>(r, d, at, o, p), g = mmcs.VerifyOpeningProof(r, d, at, o, p);
      MC_CHECK(c, g == ref, "altered-opening", w << " index " << i << " " << what << ": accepted " << g);
      if (must_reject) MC_CHECK(c, !g, "altered-opening-accepted", w << " index " << i << " " << what);
    };
    for (size_t m = 0; m < open.size(); ++m) {
      for (size_t j = 0; j < open[m].size(); ++j) { auto o = open; o[m][j] = bump(o[m][j]); judge(root, dims, i, o, proof, true, "value"); o = open; o[m].erase(o[m].begin() + j); judge(root, dims, i, o, proof, true, "dropped value"); }
      auto o = open; o[m].push_back(F::Zero()); judge(root, dims, i, o, proof, true, "added value");
      for (size_t q = 0; q < m; ++q) if (open[m] != open[q]) { o = open; std::swap(o[m], o[q]); judge(root, dims, i, o, proof, true, "swapped rows"); }
      for (size_t h = 1; h <= 2 * Up(top) + 1; ++h) { auto d = dims; d[m].height = h; bool known = Up(h) == Up(dims[m].height); judge(root, d, i, open, proof, !known, "height " + std::to_string(h)); }
    }
    for (size_t k = 0; k < proof.size(); ++k) {
      for (size_t e = 0; e < kN; ++e) { auto p = proof; p[k][e] += BabyBear::One(); judge(root, dims, i, open, p, true, "sibling"); }
      auto p = proof; p.erase(p.begin() + k); judge(root, dims, i, open, p, true, "dropped sibling");
      p = proof; p.insert(p.begin() + k, proof[k]); judge(root, dims, i, open, p, true, "doubled sibling");
      for (size_t q = 0; q < k; ++q) if (proof[q] != proof[k]) { p = proof; std::swap(p[q], p[k]); judge(root, dims, i, open, p, true, "swapped siblings"); }
    }
    auto p = proof; p.push_back(root); judge(root, dims, i, open, p, true, "added sibling");
    for (size_t e = 0; e < kN; ++e) { Digest r = root; r[e] += BabyBear::One(); judge(r, dims, i, open, proof, true, "root"); }
    for (size_t at = 0; at < 4 * Up(top); ++at) if (at != i) judge(root, dims, at, open, proof, true, "index " + std::to_string(at));
    for (uint32_t b = lg; b < 64; ++b) judge(root, dims, i | size_t(1) << b, open, proof, true, "index bit " + std::to_string(b));
  }
}
struct Setup { MMCS<BabyBear> base{ToyHash<BabyBear>(), ToyHash<Packed>(), ToyCompress<BabyBear>(), ToyCompress<Packed>()}; ExtensionFieldMerkleTreeMMCS<BabyBear4, MMCS<BabyBear4>> ext{MMCS<BabyBear4>(ToyHash<BabyBear>(), ToyHash<Packed>(), ToyCompress<BabyBear>(), ToyCompress<Packed>())}; };
void Init() { BabyBear::Init(); BabyBear4::Init(); Packed::Init(); }
template <typename F, typename M> void All(mc::Ctx& c, const M& mmcs, bool ext) {
  static const int hs[] = {1, 2, 3, 4, 5, 8, 9, 16}; uint64_t id = 0;
  for (int n = 1; n <= 3; ++n) mc::tuples(n, 8, [&](const std::vector<int>& h) {
    mc::tuples(n, n == 3 ? 2 : 3, [&](const std::vector<int>& wd) {
      std::vector<Shape> s; for (int i = 0; i < n; ++i) s.push_back({hs[h[i]], wd[i] + 1});
      if (!Valid(s) || !c.mine(id++)) return;
      if (ext && !c.thorough && n == 3 && (h[0] > 5 || h[1] > 5 || h[2] > 5)) return;
      int big = 0; for (auto& x : s) big = std::max(big, x.rows);
      One<F>(c, mmcs, s, c.thorough ? big <= 16 : n <= 2 || big <= 4);
    });
  });
  for (int r : {17, 31, 32, 33, 63, 64, 65, 100, 128}) for (int r2 : {0, 1, 7, 8, 9, 16, 24, 32}) for (int wd : {1, 5, 9}) if (c.mine(id++)) { std::vector<Shape> s{{r, wd}}; if (r2) { s.push_back({r2, 2}); s.insert(s.begin(), {r2, 1}); } if (Valid(s)) One<F>(c, mmcs, s, 0); }
}
#if !defined(TACHYON_HAS_OPENMP)
MC_SECTION(base_field, 8) { Init(); Setup s; All<BabyBear>(c, s.base, false); }
MC_SECTION(extension_field, 8) { Init(); Setup s; All<BabyBear4>(c, s.ext, true); }
#else
// Layers built by a team, packed lanes next to remainders.
template <typename F, typename M> void Teams(mc::Ctx& c, const M& mmcs) {
  uint64_t id = 0;
  for (auto& shape : std::vector<std::vector<Shape>>{{{1, 1}}, {{8, 1}}, {{9, 2}}, {{16, 1}, {8, 2}}, {{3, 1}, {17, 2}}, {{33, 1}, {9, 2}, {33, 1}}, {{64, 1}, {16, 1}, {1, 1}}})
    for (int team : {2, 3, 4, 8}) for (bool rev : {false, true}) {
      if (!c.mine(id++)) continue;
      std::vector<Mat<F>> ms; for (size_t k = 0; k < shape.size(); ++k) { Mat<F> m(shape[k].rows, shape[k].cols); for (int i = 0; i < shape[k].rows; ++i) for (int j = 0; j < shape[k].cols; ++j) m(i, j) = Val<F>(k, i, j); ms.push_back(m); }
      auto L = Layers(ms); const std::string w = Name(shape) + " team of " + std::to_string(team); mc::at_s("matrices", w.c_str());
      omc::set_threads(team); omc::set_reverse(rev);
      omc::explore(team <= 3 ? 1 : 0, [&](const std::string& sched) {
        Digest got; FieldMerkleTree<F, kN> tree; std::vector<Eigen::Map<const Mat<F>>> maps; for (auto& m : ms) maps.emplace_back(m.data(), m.rows(), m.cols());
        bool ok = mmcs.Commit(std::move(maps), &got, &tree); c.trace(); c.states(1); c.step();
        auto races = omc::take_races(); MC_CHECK(c, races.empty(), "race", w << " schedule " << sched << ": " << races[0]);
        MC_CHECK(c, ok && tree.digest_layers() == L, "layers", w << " schedule " << sched);
      }, c.thorough ? 4000 : 200);
      omc::set_threads(1); omc::set_reverse(false);
    }
}
MC_SECTION(teams, 8) { Init(); Setup s; Teams<BabyBear>(c, s.base); Teams<BabyBear4>(c, s.ext); }
#endif
}  // namespace
