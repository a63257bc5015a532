// C23: KZG commitments, GWC and SHPLONK openings, Pedersen commitments. The
// setup's secret is known here, so a commitment has to be p(tau) * G.
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>

#include "mc/mc.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"

namespace {
using namespace tachyon; using namespace tachyon::crypto; using namespace tachyon::math;
constexpr size_t N = 8, kMax = N - 1;
using Curve = bn254::BN254Curve; using G = bn254::G1AffinePoint; using F = bn254::Fr;
using GWC_ = GWC<Curve, kMax, G>; using SH = SHPlonk<Curve, kMax, G>;
using Poly = GWC_::Poly; using Writer = zk::plonk::halo2::Blake2bWriter<G>; using Reader = zk::plonk::halo2::Blake2bReader<G>;
F Tau() { return F(123457); }
template <typename P> P& Pcs() { static P* p = [] { Curve::Init(); KZG<G, kMax, G> k; P* q = new P(std::move(k)); CHECK(q->UnsafeSetup(N, Tau())); return q; }(); return *p; }
F Num(uint64_t k) { return F(mc::mix(k, 5)) * F(mc::mix(k, 9)); }
F Ev(const std::vector<F>& c, const F& x) { F r = F::Zero(); for (size_t i = c.size(); i--;) r = r * x + c[i]; return r; }
G Mul(const F& k) { return (G::Generator() * k).ToAffine(); }
Poly MakePoly(const std::vector<F>& c) { std::vector<F> d = c; return Poly(Poly::Coefficients(std::move(d), /*cleanup=*/true)); }
// 0: rejected, 1: accepted, 2: crashed on something else than a failed check.
int Verdict(const std::function<bool()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { for (int g : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE}) signal(g, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); alarm(60); try { bool r = f(); _exit(r ? 10 : 11); } catch (...) { _exit(12); } }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 10 ? 1 : WEXITSTATUS(st) == 11 ? 0 : 2;
  int s = WTERMSIG(st); return s == SIGABRT || s == SIGTRAP || s == SIGILL ? 0 : 2;
}
template <typename P> void Commitments(mc::Ctx& c, const char* name) {
  auto& pcs = Pcs<P>(); auto domain = P::Domain::Create(N); uint64_t id = 0; const F w = domain->group_gen();
  MC_CHECK(c, pcs.N() == N, "n", name);
  for (size_t i = 0; i < N; ++i) { F t = F::One(); for (size_t k = 0; k < i; ++k) t *= Tau(); MC_CHECK(c, pcs.kzg().g1_powers_of_tau()[i] == Mul(t), "powers", name << i); F num = F::One(), den = F::One(), x = F::One(), wi = F::One(); for (size_t k = 0; k < i; ++k) wi *= w; for (size_t k = 0; k < N; ++k, x *= w) if (k != i) { num *= Tau() - x; den *= wi - x; } MC_CHECK(c, pcs.kzg().g1_powers_of_tau_lagrange()[i] == Mul(num * *den.Inverse()), "lagrange-powers", name << i); c.step(2); }
  // Every coefficient list up to the setup size over {0, 1, -1, large}, sparse beyond length 3.
  std::vector<F> al{F::Zero(), F::One(), -F::One(), Num(1)};
  std::vector<std::vector<F>> lists;
  for (int n = 0; n <= 3; ++n) mc::tuples(n, 4, [&](const std::vector<int>& v) { std::vector<F> x; for (int i : v) x.push_back(al[i]); lists.push_back(x); });
  for (size_t n = 4; n <= N; ++n) { for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) for (auto& a : al) { std::vector<F> x(n, F::Zero()); x[i] = a; x[j] += Num(2); lists.push_back(x); } std::vector<F> x; for (size_t i = 0; i < n; ++i) x.push_back(Num(i + 50)); lists.push_back(x); }
  for (auto& x : lists) {
    if (!c.mine(id++)) continue; std::string what = std::string(name) + " length " + std::to_string(x.size()) + " case " + std::to_string(id); mc::at_s("poly", what.c_str()); c.states(1); c.trace(); c.step(4);
    G want = Mul(Ev(x, Tau())), a, b, d; MC_CHECK(c, pcs.kzg().Commit(x, &a) && a == want, "commit", what); Poly p = MakePoly(x); MC_CHECK(c, pcs.Commit(p, &b) && b == want, "commit-poly", what);
    std::vector<F> ev; F z = F::One(); for (size_t i = 0; i < N; ++i, z *= w) ev.push_back(Ev(x, z)); MC_CHECK(c, pcs.CommitLagrange(typename P::Evals(std::vector<F>(ev)), &d) && d == want, "commit-lagrange", what);
    if (id % 16 == 0) for (size_t n = 1; n <= 3; ++n) { pcs.SetBatchMode(n); bool ok = true; std::vector<G> w2; for (size_t i = 0; i < n; ++i) { auto y = x; for (auto& e : y) e *= F(i + 1); w2.push_back(Mul(Ev(y, Tau()))); if (id % 32) ok &= pcs.Commit(MakePoly(y), i); else { auto e = ev; for (auto& q : e) q *= F(i + 1); ok &= pcs.CommitLagrange(typename P::Evals(std::move(e)), i); } } auto got = pcs.GetBatchCommitments(); MC_CHECK(c, ok && got == w2, "batch", what << " of " << n); c.step(n); }
  }
}
MC_SECTION(commit_gwc, 4) { Commitments<GWC_>(c, "gwc"); }
MC_SECTION(commit_shplonk, 4) { Commitments<SH>(c, "shplonk"); }

struct Op { int poly, point; };
template <typename P> void Openings(mc::Ctx& c, const char* name, bool full) {
  auto& pcs = Pcs<P>(); uint64_t id = 0;
  std::vector<std::vector<F>> co(4); for (size_t i = 0; i < N; ++i) { co[0].push_back(Num(i)); if (i < 5) co[1].push_back(Num(i + 20)); if (i < 2) co[2].push_back(Num(i + 40)); } co[3] = {F(9)};
  std::vector<Poly> polys; std::vector<G> cms; for (auto& x : co) { polys.push_back(MakePoly(x)); cms.push_back(Mul(Ev(x, Tau()))); }
  const std::vector<F> pts{F(3), -F(5), Num(77), F::Zero()};
  std::vector<std::vector<Op>> lists;
  for (int n = 1; n <= 3; ++n) mc::tuples(n, 7, [&](const std::vector<int>& v) { std::vector<Op> a, b; for (int q = 0; q < n; ++q) for (int x = 0; x < 3; ++x) if ((v[q] + 1) >> x & 1) a.push_back({q, x}); for (int x = 2; x >= 0; --x) for (int q = 0; q < n; ++q) if ((v[q] + 1) >> x & 1) b.push_back({q, x}); lists.push_back(a); lists.push_back(b); });
  lists.push_back({{0, 3}}); lists.push_back({{1, 3}, {0, 2}}); lists.push_back({{0, 3}, {1, 2}, {2, 1}, {0, 0}}); for (auto& l : std::vector<std::vector<Op>>{{{0, 0}, {3, 0}}, {{3, 1}, {0, 0}, {0, 1}}, {{0, 0}, {1, 1}, {3, 2}}}) lists.push_back(l);
  for (auto& l : lists) {
    if (!c.mine(id++)) continue;
    std::string w = name; for (auto& o : l) w += " p" + std::to_string(o.poly) + "@" + std::to_string(o.point); mc::at_s("openings", w.c_str()); c.states(1); c.trace(); c.step(2);
    std::vector<PolynomialOpening<Poly>> po; for (auto& o : l) po.emplace_back(base::Ref<const Poly>(&polys[o.poly]), pts[o.point], Ev(co[o.poly], pts[o.point]));
    Writer wr{base::Uint8VectorBuffer()}; for (auto& g : cms) CHECK(wr.WriteToTranscript(g));
    MC_CHECK(c, pcs.CreateOpeningProof(po, &wr), "create", w); std::vector<uint8_t> bytes = wr.buffer().owned_buffer(); bytes.resize(wr.buffer().buffer_offset());
    auto verify = [&](const std::vector<F>& at, const std::vector<F>& val, const std::vector<int>& which, const std::vector<G>& cm, std::vector<uint8_t> b) {
      Reader rd{base::Buffer(b.data(), b.size())}; for (auto& g : cms) CHECK(rd.WriteToTranscript(g));
      std::vector<PolynomialOpening<Poly, G>> vo; for (size_t i = 0; i < at.size(); ++i) vo.emplace_back(base::Ref<const G>(&cm[which[i]]), at[i], val[i]);
      return pcs.VerifyOpeningProof(vo, &rd);
    };
    std::vector<F> at, val; std::vector<int> which; for (auto& o : l) { at.push_back(pts[o.point]); val.push_back(Ev(co[o.poly], pts[o.point])); which.push_back(o.poly); }
    int honest = Verdict([&] { return verify(at, val, which, cms, bytes); }); MC_CHECK(c, honest == 1, "honest", w << " verdict " << honest);
    auto reject = [&](const std::vector<F>& a, const std::vector<F>& v, const std::vector<int>& wh, const std::vector<G>& cm, const std::vector<uint8_t>& b, const std::string& what) { c.step(); int g = Verdict([&] { return verify(a, v, wh, cm, b); }); MC_CHECK(c, g != 1, "altered-accepted", w << ": " << what); MC_CHECK(c, g != 2, "altered-crashes", w << ": " << what); };
    for (size_t i = 0; i < l.size(); ++i) {
      auto v = val; v[i] += F::One(); reject(at, v, which, cms, bytes, "opening " + std::to_string(i));
      if (!full) continue;
      v[i] = F::Zero(); if (!val[i].IsZero()) reject(at, v, which, cms, bytes, "opening 0 " + std::to_string(i));
      auto a = at; a[i] += F::One(); if (Ev(co[which[i]], a[i]) != val[i]) reject(a, val, which, cms, bytes, "point " + std::to_string(i));
      for (size_t j = 0; j < i; ++j) if (val[i] != val[j]) { v = val; std::swap(v[i], v[j]); reject(at, v, which, cms, bytes, "openings swapped"); }
      // Two openings changed so that their plain sum stays.
      for (size_t j = 0; j < i; ++j) { v = val; v[i] += F::One(); v[j] -= F::One(); reject(at, v, which, cms, bytes, "openings compensated"); }
    }
    std::vector<int> used = which; std::sort(used.begin(), used.end()); used.erase(std::unique(used.begin(), used.end()), used.end());
    for (int k : used) { auto cm = cms; cm[k] = (cm[k] + G::Generator()).ToAffine(); reject(at, val, which, cm, bytes, "commitment"); if (full) { cm[k] = -cms[k]; reject(at, val, which, cm, bytes, "commitment negated"); } }
    size_t len = bytes.size() / 32; MC_CHECK(c, len * 32 == bytes.size() && len > 0, "proof-size", w);
    for (size_t k = 0; k < len; ++k) {
      auto b = bytes; std::string other; { Writer t{base::Uint8VectorBuffer()}; CHECK(t.WriteToProof(Mul(F(k + 31337)))); auto o = t.buffer().owned_buffer(); std::copy(o.begin(), o.begin() + 32, b.begin() + 32 * k); } reject(at, val, which, cms, b, "proof element " + std::to_string(k));
      // The legacy encoding of infinity has no meaningful sign bit.
      bool inf; { Writer t{base::Uint8VectorBuffer()}; CHECK(t.WriteToProof(G::Zero())); auto o = t.buffer().owned_buffer(); inf = std::equal(o.begin(), o.begin() + 32, bytes.begin() + 32 * k); }
      if (!inf) { b = bytes; b[32 * k + 31] ^= 0x40; reject(at, val, which, cms, b, "proof element sign"); b = bytes; b[32 * k + 31] ^= 0x80; reject(at, val, which, cms, b, "proof element top bit"); }
      for (size_t j = 0; j < k; ++j) if (!std::equal(bytes.begin() + 32 * k, bytes.begin() + 32 * k + 32, bytes.begin() + 32 * j)) { b = bytes; std::swap_ranges(b.begin() + 32 * k, b.begin() + 32 * k + 32, b.begin() + 32 * j); reject(at, val, which, cms, b, "proof elements swapped"); }
    }
    auto b = bytes; b.pop_back(); reject(at, val, which, cms, b, "shortened"); b.resize(b.size() - 31); reject(at, val, which, cms, b, "last element dropped");
  }
}
MC_SECTION(open_gwc, 8) { Openings<GWC_>(c, "gwc", true); }
MC_SECTION(open_shplonk, 8) { Openings<SH>(c, "shplonk", true); }

// Shrinking a setup keeps both bases.
MC_SECTION(downsize, 2) {
  Curve::Init(); uint64_t id = 0;
  for (size_t from : {2, 4, 8}) for (size_t to = 1; to <= 9; ++to) for (int twice = 0; twice < 2; ++twice) {
    if (!c.mine(id++)) continue; std::string w = std::to_string(from) + " to " + std::to_string(to); mc::at_s("downsize", w.c_str()); c.states(1); c.trace(); c.step();
    KZG<G, kMax, G> k; CHECK(k.UnsafeSetup(from, Tau())); if (twice) { if (from != 8 || to > 2) continue; CHECK(k.Downsize(4)); }
    bool ok = k.Downsize(to); MC_CHECK(c, ok ? to < from : to >= from || (to & (to - 1)), "downsize-result", w); size_t n = ok ? to : from; if (!ok) continue;
    MC_CHECK(c, k.N() == n && k.g1_powers_of_tau().size() == n && k.g1_powers_of_tau_lagrange().size() == n, "downsize-size", w);
    auto d = GWC_::Domain::Create(n); for (size_t i = 0; i < n; ++i) { std::vector<F> co(n, F::Zero()), ev; co[i] = F::One(); if (i) co[0] = Num(i); F x = F::One(); for (size_t j = 0; j < n; ++j, x *= d->group_gen()) ev.push_back(Ev(co, x)); G a, b, want = Mul(Ev(co, Tau())); c.step(2); MC_CHECK(c, k.Commit(co, &a) && a == want, "downsize-commit", w); MC_CHECK(c, k.CommitLagrange(ev, &b) && b == want, "downsize-commit-lagrange", w); }
  }
}
// Saving and loading a scheme, every truncation refused.
template <typename P> void Copies(mc::Ctx& c) {
  auto& pcs = Pcs<P>(); std::vector<F> co; for (size_t i = 0; i < N; ++i) co.push_back(Num(i)); Poly poly = MakePoly(co); G cm = Mul(Ev(co, Tau())); F at(3);
  auto works = [&](P& made, P& seen) { std::vector<PolynomialOpening<Poly>> po; po.emplace_back(base::Ref<const Poly>(&poly), at, Ev(co, at)); Writer w{base::Uint8VectorBuffer()}; if (!made.CreateOpeningProof(po, &w)) return false; std::vector<uint8_t> b = w.buffer().owned_buffer(); b.resize(w.buffer().buffer_offset()); for (int d = 0; d < 2; ++d) { Reader r{base::Buffer(b.data(), b.size())}; std::vector<PolynomialOpening<Poly, G>> vo; vo.emplace_back(base::Ref<const G>(&cm), at, Ev(co, at) + F(d)); if (Verdict([&] { return seen.VerifyOpeningProof(vo, &r); }) != !d) return false; } return true; };
  base::Uint8VectorBuffer b; size_t len = base::EstimateSize(pcs); MC_CHECK(c, b.Grow(len) && b.Write(pcs) && b.Done(), "write", "");
  std::vector<uint8_t> bytes = b.owned_buffer();
  for (size_t n = 0; n <= len; ++n) { if (n < len && n > 400 && n % 37 && len - n > 400) continue; c.states(1); c.step(); c.trace(); std::vector<uint8_t> cut(bytes.begin(), bytes.begin() + n); base::ReadOnlyBuffer r(cut.data(), cut.size()); P got; bool ok = r.Read(&got); MC_CHECK(c, ok == (n == len), "read", "prefix of " << n); if (ok) MC_CHECK(c, got.kzg().g1_powers_of_tau() == pcs.kzg().g1_powers_of_tau() && got.kzg().g1_powers_of_tau_lagrange() == pcs.kzg().g1_powers_of_tau_lagrange() && got.s_g2() == pcs.s_g2() && works(pcs, got) && works(got, pcs) && works(got, got), "copy", ""); }
}
MC_SECTION(copy_gwc, 1) { Copies<GWC_>(c); }
MC_SECTION(copy_shplonk, 1) { Copies<SH>(c); }

MC_SECTION(pedersen, 2) {
  Curve::Init(); uint64_t id = 0; using V = Pedersen<G, N, G>; std::vector<F> al{F::Zero(), F::One(), -F::One(), Num(3)};
  for (size_t n = 1; n <= N; ++n) {
    std::vector<F> g; std::vector<G> gen; for (size_t i = 0; i < n; ++i) { g.push_back(Num(i + 100)); gen.push_back(Mul(g.back())); } F h = Num(7);
    std::vector<std::vector<F>> lists; if (n <= 3) mc::tuples(n, 4, [&](const std::vector<int>& v) { std::vector<F> x; for (int i : v) x.push_back(al[i]); lists.push_back(x); }); else for (size_t i = 0; i < n; ++i) for (auto& a : al) { std::vector<F> x(n, Num(i)); x[i] = a; lists.push_back(x); }
    V v(Mul(h), gen);
    for (auto& x : lists) for (auto& r : al) { if (!c.mine(id++)) continue; c.states(1); c.step(); c.trace(); F s = r * h; for (size_t i = 0; i < n; ++i) s += x[i] * g[i]; G out; MC_CHECK(c, v.Commit(x, r, &out) && out == Mul(s), "pedersen", "size " << n << " case " << id); }
  }
}
}  // namespace
