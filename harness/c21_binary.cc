// C21: binary Merkle trees over an injective symbolic hash, every shape and every
// single alteration of an opening.
#include <set>

#include "mc/mc.h"
#include "mc/omp_rt.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"

namespace {
using namespace tachyon::crypto;
using H = uint64_t;
struct Hasher : BinaryMerkleHasher<int, H> {
  static H leaf(int x) { return mc::mix(0x1eaf, uint64_t(x)); }
  static H node(H a, H b) { return mc::mix(mc::mix(0x90de, a), b); }
  H ComputeLeafHash(const int& x) const override { return leaf(x); }
  H ComputeParentHash(const H& a, const H& b) const override { return node(a, b); }
};
// Counts misuse of the storage: every slot written once, read only after.
struct Storage : BinaryMerkleTreeStorage<H> {
  std::vector<H> h; std::vector<int> writes; mutable int bad = 0;
  void Allocate(size_t n) override { h.assign(n, 0); writes.assign(n, 0); }
  size_t GetSize() const override { return h.size(); }
  const H& GetHash(size_t i) const override { static const H none = 0; if (i >= h.size() || !writes[i]) { ++bad; return none; } return h[i]; }
  void SetHash(size_t i, const H& v) override { if (i >= h.size()) { ++bad; return; } if (writes[i]++ && h[i] != v) ++bad; h[i] = v; }
};
constexpr size_t kMax = 4096;
using Tree = BinaryMerkleTree<int, H, kMax>;
using Proof = BinaryMerkleProof<H>;
// The definition: every layer of hashes, root last.
std::vector<std::vector<H>> Layers(const std::vector<int>& leaves) {
  std::vector<std::vector<H>> l(1); for (int x : leaves) l[0].push_back(Hasher::leaf(x));
  while (l.back().size() > 1) { std::vector<H> n; for (size_t i = 0; i < l.back().size(); i += 2) n.push_back(Hasher::node(l.back()[i], l.back()[i + 1])); l.push_back(n); }
  return l;
}
H Fold(H x, const Proof& p) { for (auto& s : p.paths) x = s.left ? Hasher::node(s.hash, x) : Hasher::node(x, s.hash); return x; }
std::string Name(const std::vector<int>& v, size_t par) { return (v.size() > 16 ? std::to_string(v.size()) + " leaves" : mc::vstr(v)) + " parallel from " + std::to_string(par); }

// How hard the openings are attacked: 0 none, 1 the honest ones, 2 every alteration.
void One(mc::Ctx& c, Tree& tree, Storage& st, Hasher&, const std::vector<int>& v, size_t par, int attack) {
  const std::string w = Name(v, par); mc::at_s("tree", w.c_str());
  tree.set_leaves_size_for_parallelization(par);
  size_t n = v.size(); bool ok = n > 0 && (n & (n - 1)) == 0 && n <= kMax;
  H root = 77; std::vector<H> before = st.h; st.bad = 0;
  bool got = tree.Commit(v, &root); c.step();
  MC_CHECK(c, got == ok, "commit-result", w << ": " << got);
  if (!ok) { MC_CHECK(c, root == 77 && st.h == before, "commit-rejected-untouched", w); return; }
  auto L = Layers(v);
  MC_CHECK(c, root == L.back()[0], "root", w); MC_CHECK(c, st.bad == 0, "storage-misuse", w << ": " << st.bad);
  std::vector<H> flat; for (size_t i = L.size(); i-- > 0;) flat.insert(flat.end(), L[i].begin(), L[i].end());
  MC_CHECK(c, st.h == flat, "stored-tree", w);
  if (!attack) return;
  for (size_t extra : {n, n + 1, 2 * n - 1, 2 * n, 4 * n, size_t(-1), size_t(-1) / 2, (size_t(1) << 63)}) if (extra >= n) { Proof p; MC_CHECK(c, !tree.CreateOpeningProof(extra, &p), "opening-out-of-range", w << " index " << extra); c.step(); }
  st.bad = 0;
  std::set<H> pool{0, root}; if (n <= 8) for (auto& l : L) for (H h : l) pool.insert(h);
  for (size_t i = 0; i < n; ++i) {
    Proof p; MC_CHECK(c, tree.CreateOpeningProof(i, &p), "opening-created", w << " index " << i);
    Proof ref; for (size_t k = 0; k + 1 < L.size(); ++k) { size_t j = i >> k; ref.paths.push_back({bool(j & 1), L[k][j ^ 1]}); }
    MC_CHECK(c, p == ref, "opening", w << " index " << i); MC_CHECK(c, st.bad == 0, "storage-misuse", w);
    MC_CHECK(c, tree.VerifyOpeningProof(root, L[0][i], p), "honest-opening-verifies", w << " index " << i); c.step(2);
    if (attack < 2) continue;
    auto judge = [&](H r, H x, const Proof& q, const char* what) { c.step(); bool want = Fold(x, q) == r, g = tree.VerifyOpeningProof(r, x, q);
      MC_CHECK(c, g == want, "altered-opening", w << " index " << i << " " << what << ": accepted " << g);
      // whatever is accepted is the leaf committed at the position its directions spell
      if (g) { size_t at = 0; for (size_t k = 0; k < q.paths.size(); ++k) at |= size_t(q.paths[k].left) << k; MC_CHECK(c, r == root && q.paths.size() + 1 == L.size() && at < n && L[0][at] == x, "altered-opening-accepted", w << " index " << i << " " << what); } };
    for (H x : pool) { if (x != L[0][i]) judge(root, x, p, "leaf"); if (x != root) judge(x, L[0][i], p, "root"); }
    for (size_t k = 0; k < p.paths.size(); ++k) {
      Proof q = p; q.paths[k].left = !q.paths[k].left; judge(root, L[0][i], q, "direction");
      for (H x : pool) if (x != p.paths[k].hash) { q = p; q.paths[k].hash = x; judge(root, L[0][i], q, "sibling"); q.paths[k].left = !q.paths[k].left; judge(root, L[0][i], q, "sibling and direction"); }
      q = p; q.paths.erase(q.paths.begin() + k); judge(root, L[0][i], q, "dropped");
      q = p; q.paths.insert(q.paths.begin() + k, p.paths[k]); judge(root, L[0][i], q, "doubled");
      for (size_t m = 0; m < k; ++m) { q = p; std::swap(q.paths[k], q.paths[m]); if (!(q == p)) judge(root, L[0][i], q, "swapped"); }
    }
    for (size_t m = 0; m < n; ++m) if (m != i) { Proof o; (void)tree.CreateOpeningProof(m, &o); judge(root, L[0][i], o, "another leaf's proof"); }
    Proof q = p; q.paths.push_back({false, root}); judge(root, L[0][i], q, "extended"); Proof e; judge(root, L[0][i], e, "emptied");
  }
}
MC_SECTION(trees, 8) {
  uint64_t id = 0;
  for (int n = 0; n <= 9; ++n) for (size_t par = 1; par <= 32; par *= 2) {
    int alphabet = n <= 4 ? 3 : 2;
    mc::tuples(n, alphabet, [&](const std::vector<int>& v) {
      if (!c.mine(id++)) return;
      if (n > 0 && (n & (n - 1)) && v[0] != v[n - 1]) return;  // rejected by size alone
      Storage st; Hasher h; Tree t(&st, &h); c.state(mc::hash_bytes(v.data(), n * 4, par)); c.trace();
      One(c, t, st, h, v, par, n <= 4 || v[0] ? 2 : 1);
    });
  }
  for (size_t n : {8, 16, 32, 64, 128, 1024, 2048, 4096, 8192, 3, 100, 4095, 4097}) for (size_t par = 1; par <= 8192; par *= 2) if (c.mine(id++)) {
    if (par < 8 && n > 128 && !c.thorough) continue;
    std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(int(i * 7 + 1));
    Storage st; Hasher h; Tree t(&st, &h); c.state(mc::mix(n, par)); c.trace(); One(c, t, st, h, v, par, n <= (c.thorough ? 32u : 16u) ? 2 : n <= 1024 ? 1 : 0);
  }
}
// One tree object committing again and again.
MC_SECTION(recommit, 4) {
  uint64_t id = 0;
  mc::tuples(c.thorough ? 4 : 3, 8, [&](const std::vector<int>& seq) {
    if (!c.mine(id++)) return; static const int sizes[] = {1, 2, 4, 8, 16, 3, 0, 6};
    Storage st; Hasher h; Tree t(&st, &h); c.state(mc::hash_bytes(seq.data(), seq.size() * 4)); c.trace();
    for (size_t k = 0; k < seq.size(); ++k) { std::vector<int> v(sizes[seq[k]]); for (size_t i = 0; i < v.size(); ++i) v[i] = int(i + 100 * k); One(c, t, st, h, v, k & 1 ? 2 : 1024, 1); }
  });
  // nothing committed yet: nothing to open
  Storage st; Hasher h; Tree t(&st, &h); for (size_t i : {0, 1, 7}) { Proof p; MC_CHECK(c, !t.CreateOpeningProof(i, &p), "opening-out-of-range", "before any commitment, index " << i); }
  // the library's own storage
  for (int n = 1; n <= 64; n *= 2) {
    SimpleBinaryMerkleTreeStorage<H> s; BinaryMerkleTree<int, H, 64> tt(&s, &h); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i * i); H root; c.state(900 + n);
    bool ok = tt.Commit(v, &root); auto L = Layers(v); std::vector<H> flat; for (size_t i = L.size(); i-- > 0;) flat.insert(flat.end(), L[i].begin(), L[i].end());
    MC_CHECK(c, ok && root == L.back()[0] && s.hashes() == flat, "simple-storage", n);
  }
}
#if defined(TACHYON_HAS_OPENMP)
// Subtrees built by a team.
MC_SECTION(teams, 8) {
  uint64_t id = 0;
  for (size_t n : {1, 2, 4, 8, 16}) for (size_t par = 1; par <= n; par *= 2) for (int team : {2, 3, 4, 8}) for (bool rev : {false, true}) {
    if (!c.mine(id++)) continue;
    std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(int(i * 7 + 1));
    const std::string w = Name(v, par) + " team of " + std::to_string(team); mc::at_s("team", w.c_str());
    H ref = Layers(v).back()[0]; omc::set_threads(team); omc::set_reverse(rev);
    omc::explore(team <= 3 ? (c.thorough ? 3 : 2) : 1, [&](const std::string& s) {
      SimpleBinaryMerkleTreeStorage<H> st; Hasher h; BinaryMerkleTree<int, H, kMax> t(&st, &h); t.set_leaves_size_for_parallelization(par);
      H root = 0; bool ok = t.Commit(v, &root); c.trace(); c.states(1); c.step();
      auto races = omc::take_races(); MC_CHECK(c, races.empty(), "race", w << " schedule " << s << ": " << races[0]);
      MC_CHECK(c, ok && root == ref, "root", w << " schedule " << s);
    }, c.thorough ? 20000 : 600);
    omc::set_threads(1); omc::set_reverse(false);
  }
}
#endif
}  // namespace
