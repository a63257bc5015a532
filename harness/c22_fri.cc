// C22: two-adic FRI: folding, cosets, honest proofs of every shape, altered proofs, codewords of too high a degree.
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>

#include "mc/mc.h"
#include "mc/omp_rt.h"
#include "tachyon/crypto/challenger/duplex_challenger.h"
#include "tachyon/crypto/commitments/fri/two_adic_fri.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/extension_field_merkle_tree_mmcs.h"
#include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"

namespace {
using namespace tachyon; using namespace tachyon::crypto;
using F = math::BabyBear; using E = math::BabyBear4; using Packed = math::PackedBabyBear;
constexpr size_t kN = 2;
using Digest = std::array<F, kN>;
template <typename T> void Absorb(T& a, T& b, const T& x) { a += x; T s = a * a; a = s * a + b; b += s * T(7) + T(11); }
template <typename T> struct ToyHash { using R = std::array<T, kN>; template <typename C> R Hash(const C& in) const { T a(5), b(9); for (const auto& x : in) Absorb(a, b, T(x)); Absorb(a, b, T(3)); Absorb(a, b, T(1)); return R{a, b}; } };
template <typename T> struct ToyCompress { using R = std::array<T, kN>; template <typename C> R Compress(const C& in) const { T a(17), b(23); for (const R& d : in) for (const T& x : d) Absorb(a, b, x); Absorb(a, b, T(2)); return R{a, b}; } };
template <typename T> using Tree = FieldMerkleTreeMMCS<T, ToyHash<F>, ToyHash<Packed>, ToyCompress<F>, ToyCompress<Packed>, kN>;
using MMCS = Tree<F>; using Challenge = ExtensionFieldMerkleTreeMMCS<E, Tree<E>>;
using Perm = Poseidon2Sponge<Poseidon2Params<Poseidon2Vendor::kPlonky3, Poseidon2Vendor::kPlonky3, F, 15, 7>>;
using Chal = DuplexChallenger<Perm, 8>;
using PCS = TwoAdicFRI<E, MMCS, Challenge, Chal>;
using Proof = FRIProof<PCS>; using Domain = PCS::Domain; using Data = MMCS::ProverData;
template <typename T> using Mat = math::RowMajorMatrix<T>;
using Commits = std::vector<MMCS::Commitment>;
using Rounds = std::vector<std::vector<int>>;  // log rows of every matrix, by round

void Init() { static bool once = [] { E::Init(); math::PackedBabyBear4::Init(); return true; }(); (void)once; }
F G() { return F::FromMontgomery(F::Config::kSubgroupGenerator); }
F W(size_t lg) { F w; CHECK(F::GetRootOfUnity(size_t{1} << lg, &w)); return w; }
size_t Rev(size_t i, size_t lg) { size_t r = 0; for (size_t b = 0; b < lg; ++b) if (i >> b & 1) r |= size_t{1} << (lg - 1 - b); return r; }
template <typename X> X Pw(X x, size_t n) { X r = X::One(); while (n--) r *= x; return r; }
F Num(uint64_t k) { return F(uint32_t(mc::mix(k, 77) % 2013265921u)); }
E ENum(uint64_t k) { return E(Num(4 * k), Num(4 * k + 1), Num(4 * k + 2), Num(4 * k + 3)); }
template <typename C, typename X> X Eval(const std::vector<C>& p, const X& x) { X r = X::Zero(); for (size_t i = p.size(); i--;) r = r * x + X(p[i]); return r; }
Chal Start(uint64_t tag) { static Perm perm = [] { return Perm(); }(); Perm p = perm; Chal ch(std::move(p)); ch.Observe(Num(tag)); return ch; }

// 0: rejected, 1: accepted, 2: crashed on something else than a failed check.
int Verdict(const std::function<bool()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { for (int g : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE}) signal(g, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); alarm(60); try { bool r = f(); _exit(r ? 10 : 11); } catch (...) { _exit(12); } }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 10 ? 1 : WEXITSTATUS(st) == 11 ? 0 : 2;
  int s = WTERMSIG(st); return s == SIGABRT || s == SIGTRAP || s == SIGILL ? 0 : 2;
}

struct Case {
  Rounds logs; int cols = 2; int points = 1; uint32_t blowup = 1; size_t queries = 2; size_t pow = 2;
  std::string name() const { std::string s; for (auto& r : logs) s += mc::vstr(r); return s + " cols " + std::to_string(cols) + " points " + std::to_string(points) + " blowup " + std::to_string(blowup) + " queries " + std::to_string(queries); }
};
struct Run {
  PCS pcs; Commits commits; std::vector<std::unique_ptr<Data>> data; std::vector<std::vector<Domain>> domains; PCS::OpeningPoints points; PCS::OpenedValues values; Proof proof; std::vector<std::vector<std::vector<std::vector<F>>>> coeffs; E zeta; bool made = false;
};
Chal After(const Run& r) { Chal ch = Start(1); ch.ObserveContainer2D(r.commits); return ch; }
bool Verify(const Run& r, const Commits& cm, const std::vector<std::vector<Domain>>& d, const PCS::OpeningPoints& pt, const PCS::OpenedValues& v, const Proof& p) { Chal ch = After(r); (void)ch.SampleExtElement<E>(); return r.pcs.VerifyOpeningProof(cm, d, pt, v, p, ch); }
std::vector<std::vector<Domain>> Domains(const Run& r, const Rounds& logs) { (void)r; std::vector<std::vector<Domain>> d; for (auto& l : logs) { d.emplace_back(); for (int k : l) d.back().emplace_back(uint32_t(k), F::One()); } return d; }
// Points of matrix k: zeta, zeta times the generator of its domain, another point; 3 points skip every other matrix.
std::vector<E> PointsOf(const Case& k, const E& zeta, int lg, int idx) { std::vector<E> all{zeta, zeta * W(lg), zeta + E::One()}; int n = k.points == 3 ? (idx % 2 ? 3 : 0) : k.points; if (k.points == 4) return {idx % 2 ? all[1] : all[0]}; return {all.begin(), all.begin() + n}; }
void Build(const Case& k, Run& r, int spoil = -1) {
  Init(); r.pcs = PCS(MMCS(), FRIConfig<Challenge>{k.blowup, k.queries, k.pow, Challenge()});
  uint64_t id = 0; r.commits.resize(k.logs.size()); int idx = 0;
  for (size_t i = 0; i < k.logs.size(); ++i) {
    std::vector<Domain> ds; std::vector<Mat<F>> ms; std::vector<Mat<F>> ldes; r.coeffs.emplace_back();
    for (int lg : k.logs[i]) {
      size_t n = size_t{1} << lg; ds.push_back(r.pcs.GetNaturalDomainForDegree(n)); Mat<F> m(n, k.cols); std::vector<std::vector<F>> co(k.cols);
      for (int c = 0; c < k.cols; ++c) { for (size_t t = 0; t < n; ++t) co[c].push_back(Num(++id)); F x = F::One(); for (size_t t = 0; t < n; ++t, x *= W(lg)) m(t, c) = Eval(co[c], x); }
      size_t big = n << k.blowup; Mat<F> l(big, k.cols); for (size_t t = 0; t < big; ++t) for (int c = 0; c < k.cols; ++c) l(t, c) = Eval(co[c], G() * Pw(W(lg + k.blowup), Rev(t, lg + k.blowup)));
      r.coeffs.back().push_back(co); ms.push_back(m); ldes.push_back(l);
    }
    if (spoil >= 0 && i == 0) { Mat<F>& l = ldes[0]; l(spoil % l.rows(), spoil / l.rows() % l.cols()) += F(3); }
    r.data.push_back(std::make_unique<Data>());
    if (spoil >= 0) CHECK(MMCS().CommitOwned(std::move(ldes), &r.commits[i], r.data[i].get()));
    else { CHECK(r.pcs.Commit(ds, ms, &r.commits[i], r.data[i].get())); MMCS::Commitment want; Data wd; CHECK(MMCS().CommitOwned(std::move(ldes), &want, &wd)); r.made = want == r.commits[i] && (i == 0 || r.made); }
    r.domains.push_back(std::move(ds));
  }
  Chal ch = After(r); r.zeta = ch.SampleExtElement<E>();
  for (auto& l : k.logs) { r.points.emplace_back(); for (int lg : l) r.points.back().push_back(PointsOf(k, r.zeta, lg, idx++)); }
  CHECK(r.pcs.CreateOpeningProof(r.data, r.points, ch, &r.values, &r.proof));
}
std::vector<Rounds> Shapes(int top, int mats, bool zero) {
  std::vector<std::vector<int>> one; int lo = zero ? 0 : 1;
  for (int n = 1; n <= mats; ++n) mc::tuples(n, top + 1 - lo, [&](const std::vector<int>& v) { std::vector<int> x(v); for (int& y : x) y += lo; one.push_back(x); });
  std::vector<Rounds> r; for (auto& a : one) { r.push_back({a}); for (auto& b : one) if (a.size() + b.size() <= size_t(mats) + 1) r.push_back({a, b}); }
  for (int a = lo; a <= top; ++a) for (int b = lo; b <= top; ++b) for (int d = lo; d <= top; ++d) r.push_back({{a}, {b}, {d}});
  return r;
}
// Matrices of one row are refused by the batch FFT.
void Honest(mc::Ctx& c, bool zero) {
  uint64_t id = 0;
  for (auto& s : Shapes(3, 2, zero)) {
    bool has0 = false; for (auto& r : s) for (int l : r) has0 |= l == 0; if (zero != has0) continue;
    for (int cols : {1, 2, 3}) for (int pts : {1, 2, 3, 4, 0}) for (uint32_t bl : {1u, 2u, 3u}) for (size_t q : {size_t{1}, size_t{3}}) {
      if (!c.thorough && (pts == 0 || pts == 4) && cols > 1) continue;
      if (!c.mine(id++)) continue;
      Case k{s, cols, pts, bl, q, 3}; mc::at_s("shape", k.name().c_str()); Run r; Build(k, r); c.states(1); c.trace(); c.step(3);
      MC_CHECK(c, r.made, "commitment", k.name());
      int idx = 0; for (size_t i = 0; i < s.size(); ++i) for (size_t m = 0; m < s[i].size(); ++m) { auto ps = PointsOf(k, r.zeta, s[i][m], idx++); bool ok = r.values[i].size() == s[i].size() && r.values[i][m].size() == ps.size(); for (size_t p = 0; ok && p < ps.size(); ++p) { ok = r.values[i][m][p].size() == size_t(cols); for (int q = 0; ok && q < cols; ++q) ok = r.values[i][m][p][q] == Eval(r.coeffs[i][m][q], ps[p]); } MC_CHECK(c, ok, "opened-values", k.name()); }
      int top = 0; for (auto& x : s) for (int l : x) top = std::max(top, l);
      MC_CHECK(c, r.proof.commit_phase_commits.size() == size_t(top) && r.proof.query_proofs.size() == q, "proof-shape", k.name());
      int v = Verdict([&] { return Verify(r, r.commits, r.domains, r.points, r.values, r.proof); });
      MC_CHECK(c, v == 1, "honest", k.name() << " verdict " << v);
    }
  }
}
MC_SECTION(honest, 8) { Honest(c, false); }

template <typename L> void EachElem(E& e, L l) { for (size_t i = 0; i < 4; ++i) { E o = e; e[i] += F::One(); l(); e = o; } }
void Tamper(mc::Ctx& c, const Case& k, uint64_t& id) {
  Run r; Build(k, r); mc::at_s("shape", k.name().c_str()); c.states(1); c.trace();
  auto judge = [&](const Commits& cm, const std::vector<std::vector<Domain>>& d, const PCS::OpeningPoints& pt, const PCS::OpenedValues& v, const Proof& p, const std::string& what) {
    if (!c.mine(id++)) return; c.step();
    int g = Verdict([&] { return Verify(r, cm, d, pt, v, p); });
    MC_CHECK(c, g != 1, "altered-accepted", k.name() << ": " << what); MC_CHECK(c, g != 2, "altered-crashes", k.name() << ": " << what);
  };
  Proof p = r.proof; Commits cm = r.commits; auto pt = r.points; auto v = r.values; auto& d = r.domains;
  auto go = [&](const std::string& what) { judge(cm, d, pt, v, p, what); };
  auto vec = [&](auto& x, const std::string& what, bool grow = true) {  // dropped, doubled and swapped elements
    auto o = x; for (size_t i = 0; i < o.size(); ++i) { x = o; x.erase(x.begin() + i); go("dropped " + what); if (grow) { x = o; x.insert(x.begin() + i, o[i]); go("doubled " + what); } for (size_t j = 0; j < i; ++j) if (!(o[i] == o[j])) { x = o; std::swap(x[i], x[j]); go("swapped " + what); } } x = o;
  };
  auto dig = [&](auto& x, const std::string& what) { for (auto& e : x) { e += F::One(); go(what); e -= F::One(); } };
  for (auto& x : cm) dig(x, "commitment"); vec(cm, "commitment", false);
  for (auto& x : p.commit_phase_commits) dig(x, "folding commitment"); vec(p.commit_phase_commits, "folding commitment");
  EachElem(p.final_eval, [&] { go("final value"); });
  p.final_eval = E::Zero(); go("final value 0"); p.final_eval = r.proof.final_eval;
  vec(p.query_proofs, "query");
  for (auto& q : p.query_proofs) {
    vec(q.input_proof, "round of a query"); vec(q.commit_phase_openings, "folding step");
    for (auto& b : q.input_proof) {
      vec(b.opened_values, "opened row"); vec(b.opening_proof, "sibling");
      for (auto& row : b.opened_values) { dig(row, "opened row value"); auto o = row; row.pop_back(); go("shortened opened row"); row = o; row.push_back(F::Zero()); go("extended opened row"); row = o; }
      for (auto& x : b.opening_proof) dig(x, "sibling");
    }
    for (auto& s : q.commit_phase_openings) { EachElem(s.sibling_value, [&] { go("folding sibling value"); }); vec(s.opening_proof, "folding sibling"); for (auto& x : s.opening_proof) dig(x, "folding sibling"); }
  }
  // Another proof-of-work witness is as good as this one if it passes and selects the same positions.
  for (uint32_t t = 1; t < 9; ++t) {
    Proof w = r.proof; w.pow_witness += F(t);
    auto same = [&] { auto pos = [&](const Proof& x, std::vector<uint32_t>& o) { Chal ch = After(r); (void)ch.SampleExtElement<E>(); (void)ch.SampleExtElement<E>(); for (auto& cmt : x.commit_phase_commits) { ch.ObserveContainer(cmt); (void)ch.SampleExtElement<E>(); } ch.ObserveContainer(x.final_eval); bool ok = ch.CheckWitness(k.pow, x.pow_witness); for (size_t q = 0; q < k.queries; ++q) o.push_back(ch.SampleBits(x.commit_phase_commits.size() + k.blowup)); return ok; }; std::vector<uint32_t> a, b; bool x = pos(r.proof, a), y = pos(w, b); return x && y && a == b; }();
    if (!same) judge(cm, d, pt, v, w, "proof of work witness +" + std::to_string(t));
  }
  for (size_t i = 0; i < v.size(); ++i) for (size_t m = 0; m < v[i].size(); ++m) for (size_t q = 0; q < v[i][m].size(); ++q) {
    for (auto& x : v[i][m][q]) EachElem(x, [&] { go("opened value"); });
    EachElem(pt[i][m][q], [&] { go("opening point"); }); auto& x = v[i][m][q]; auto o = x; x.pop_back(); go("shortened opened values"); x = o; x.push_back(E::Zero()); go("extended opened values"); x = o;
  }
  for (size_t i = 0; i < v.size(); ++i) { for (auto& m : v[i]) vec(m, "opened point"); vec(v[i], "opened matrix"); } vec(v, "opened round");
  for (size_t i = 0; i < k.logs.size(); ++i) for (size_t m = 0; m < k.logs[i].size(); ++m) for (int lg = 0; lg <= 4; ++lg) if (lg != k.logs[i][m]) { Rounds l = k.logs; l[i][m] = lg; auto dd = Domains(r, l); judge(cm, dd, pt, v, p, "domain of 2^" + std::to_string(lg)); }
}
MC_SECTION(tamper, 8) {
  uint64_t id = 0; std::vector<Rounds> s{{{1}}, {{2}}, {{3}}, {{1, 2}}, {{2, 2}}, {{3, 1}}, {{1}, {2}}, {{2}, {1}}, {{3}, {2, 1}}};
  for (auto& x : s) for (int pts : {1, 2}) for (uint32_t bl : {1u, 2u}) { if (bl == 2 && !c.thorough && pts == 2) continue; Tamper(c, Case{x, 2, pts, bl, 6, 3}, id); }
}
// Two opened values changed so that their combination under the batching challenge stays.
MC_SECTION(compensated, 2) {
  uint64_t id = 0; for (auto& x : Shapes(2, 2, false)) for (int pts : {1, 2}) {
    if (!c.mine(id++)) continue; Case k{x, 2, pts, 1, 4, 2}; Run r; Build(k, r); c.states(1); c.trace(); c.step();
    Chal ch = After(r); (void)ch.SampleExtElement<E>(); E alpha = ch.SampleExtElement<E>();
    auto v = r.values; v[0][0][0][0] += alpha; v[0][0][0][1] -= E::One();
    int g = Verdict([&] { return Verify(r, r.commits, r.domains, r.points, v, r.proof); });
    MC_CHECK(c, g == 0, "compensated-values-accepted", k.name() << " verdict " << g);
  }
}
// A committed matrix that is not the evaluation of a low-degree polynomial.
MC_SECTION(high_degree, 4) {
  uint64_t id = 0; for (auto& x : std::vector<Rounds>{{{1}}, {{2}}, {{3}}, {{2, 1}}, {{1, 3}}, {{2}, {2}}, {{1}, {3}}}) for (uint32_t bl : {1u, 2u}) for (int at = 0; at < (2 << bl << x[0][0]); ++at) {
    if (!c.mine(id++)) continue; Case k{x, 2, 1, bl, bl == 1 ? size_t{30} : size_t{70}, 2}; c.states(1); c.trace(); c.step();
    int g = Verdict([&] { Run r; Build(k, r, at); return Verify(r, r.commits, r.domains, r.points, r.values, r.proof); });
    MC_CHECK(c, g == 0, "high-degree-accepted", k.name() << " spoiled at " << at << " verdict " << g);
  }
}
// Folding: even part plus beta times odd part.
MC_SECTION(fold, 2) {
  Init(); uint64_t id = 0; std::vector<E> betas{E::Zero(), E::One(), -E::One(), E::TwoInv(), E(F::Zero(), F::One(), F::Zero(), F::Zero()), ENum(5), E(G())};
  for (uint32_t lg = 0; lg <= 6; ++lg) for (size_t deg = 0; deg < size_t{2} << lg; ++deg) for (int e = 0; e < 5; ++e) for (auto& beta : betas) {
    if (!c.mine(id++)) continue;
    size_t rows = size_t{1} << lg; E co = e == 4 ? ENum(deg) : E::Zero(); if (e < 4) co[e] = F::One();
    std::vector<E> p(deg + 1, E::Zero()); p[deg] = co; if (e == 4) for (size_t i = 0; i < deg; ++i) p[i] = ENum(i + 100);
    std::vector<E> want(rows + 1, E::Zero()); for (size_t i = 0; i < p.size(); ++i) want[i / 2] += i % 2 ? beta * p[i] : p[i];
    Mat<E> m(rows, 2); for (size_t i = 0; i < 2 * rows; ++i) m(i / 2, i % 2) = Eval(p, E(Pw(W(lg + 1), Rev(i, lg + 1))));
    auto got = FoldMatrix(beta, m); c.states(1); c.step(1 + rows); c.trace(); bool ok = got.size() == rows, one = true;
    for (size_t i = 0; ok && i < rows; ++i) { E x = Eval(want, E(Pw(W(lg), Rev(i, lg)))); ok = got[i] == x; one &= FoldRow(i, lg, beta, std::vector<E>{m(i, 0), m(i, 1)}) == x; }
    MC_CHECK(c, ok, "fold-matrix", "rows 2^" << lg << " degree " << deg << " kind " << e); MC_CHECK(c, one, "fold-row", "rows 2^" << lg << " degree " << deg << " kind " << e);
  }
}
// Cosets and their selectors, against the products that define them.
MC_SECTION(coset, 2) {
  Init(); uint64_t id = 0; std::vector<F> shifts{F::One(), G(), F(2), F(7), G() * G(), Num(3)};
  for (uint32_t lg = 0; lg <= 5; ++lg) for (auto& s : shifts) {
    if (!c.mine(id++)) continue; size_t n = size_t{1} << lg; std::string w = "2^" + std::to_string(lg) + " shift " + s.ToString(); mc::at_s("coset", w.c_str()); c.states(1); c.trace();
    Domain d(lg, s); std::vector<F> el; for (size_t i = 0; i < n; ++i) el.push_back(s * Pw(W(lg), i));
    auto zp = [&](auto x) { auto r = decltype(x)::One(); for (auto& y : el) r *= x - decltype(x)(y); return r * decltype(x)(*Pw(s, n).Inverse()); };
    std::vector<E> pts; for (int i = 0; i < 12; ++i) pts.push_back(i < 6 ? ENum(i) : E(Num(i))); for (auto& y : el) pts.push_back(E(y));
    for (auto& x : pts) {
      c.step(3); MC_CHECK(c, d.GetZpAtPoint(x) == zp(x), "vanishing", w); MC_CHECK(c, d.GetNextPoint(x) == x * E(W(lg)), "next-point", w);
      bool in = false; for (auto& y : el) in |= E(y) == x; if (in) continue;
      auto g = d.GetSelectorsAtPoint(x); E u = x * E(*s.Inverse()), z = zp(x); E last = u - E(*W(lg).Inverse());
      MC_CHECK(c, g.first_row * (u - E::One()) == z && g.last_row * last == z && g.transition == last && g.inv_zeroifier * z == E::One(), "selectors-at-point", w);
    }
    for (size_t min = 1; min <= 2 * n; ++min) { Domain o = d.CreateDisjointDomain(min); size_t p = 1; while (p < min) p *= 2; c.step(); MC_CHECK(c, o.domain()->size() == p && o.domain()->offset() == s * G(), "disjoint", w << " min " << min); }
    for (size_t ch = 1; ch <= n; ch *= 2) { auto v = d.SplitDomains(ch); c.step(); bool ok = v.size() == ch; for (size_t i = 0; ok && i < ch; ++i) { ok = v[i].domain()->size() == n / ch; for (size_t j = 0; ok && j < n / ch; ++j) ok = v[i].domain()->GetElement(j) == el[i + j * ch]; } MC_CHECK(c, ok, "split", w << " into " << ch); }
    if (s.IsOne()) for (uint32_t big = lg; big <= lg + 3; ++big) for (auto& t : shifts) { if (t.IsOne()) continue; Domain o(big, t); auto g = d.GetSelectorsOnCoset(o); size_t m = size_t{1} << big; c.step(); bool ok = g.first_row.size() == m && g.last_row.size() == m && g.transition.size() == m && g.inv_zeroifier.size() == m; F wi = *W(lg).Inverse(); for (size_t i = 0; ok && i < m; ++i) { F x = t * Pw(W(big), i), z = zp(x); ok = g.first_row[i] * (x - F::One()) == z && g.last_row[i] * (x - wi) == z && g.transition[i] == x - wi && g.inv_zeroifier[i] * z == F::One(); } MC_CHECK(c, ok, "selectors-on-coset", w << " on 2^" << big << " shift " << t.ToString()); }
  }
}
#if defined(TACHYON_HAS_OPENMP)
// Proofs do not depend on the number of threads.
MC_SECTION(teams, 2) {
  uint64_t id = 0; for (auto& s : std::vector<Rounds>{{{1}}, {{3}}, {{2, 1}}, {{3}, {2}}}) for (int pts : {1, 2}) for (int t : {2, 3, 4, 8}) {
    if (!c.mine(id++)) continue; Case k{s, 2, pts, 1, 2, 3}; omc::set_threads(1); Run a; Build(k, a); omc::set_threads(t); Run b; Build(k, b); omc::set_threads(1); c.states(1); c.step(2); c.trace();
    a.proof.pow_witness = b.proof.pow_witness; bool same = a.values == b.values && a.commits == b.commits && a.proof.commit_phase_commits == b.proof.commit_phase_commits && a.proof.final_eval == b.proof.final_eval;
    MC_CHECK(c, same && Verdict([&] { return Verify(b, b.commits, b.domains, b.points, b.values, b.proof); }) == 1, "teams", k.name() << " threads " << t);
  }
}
#endif
}  // namespace
