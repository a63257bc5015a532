// C12: multi-scalar multiplication against the sum of scalar products.
#include <list>

#include "mc/fields/l127.h"
#include "mc/fields/l33.h"
#include "mc/fields/x64.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m257.h"
#include "mc/fields/m65537.h"
#include "mc/fields/m7.h"
#include "mc/fields/m97.h"
#include "mc/fields/p13.h"
#include "mc/mccurve.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif

namespace {
using namespace tachyon::math;
using namespace tachyon::math::mcf;
using namespace mccurve;
#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif
int g_team = 1;

template <typename F> struct Env {
  Group<F> g;
  std::vector<std::vector<int>> add, mul;  // index tables
  std::vector<F> zs;
  Env(uint64_t p, int a, int b) {
    F::Init();
    auto el = Elements<F>(p);
    g = Make(el[a], el[b], el);
    zs = {el[1], el[2], el[5], el[p - 1]};
    size_t n = g.pts.size();
    auto idx = [&](const Pt<F>& q) { for (size_t i = 0; i < n; ++i) if (g.pts[i] == q) return int(i); abort(); };
    add.assign(n, std::vector<int>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) add[i][j] = idx(g.add(g.pts[i], g.pts[j]));
    mul.assign(n, std::vector<int>(n, 0));  // mul[k][i] = k * point i, k < n
    for (size_t k = 1; k < n; ++k) for (size_t i = 0; i < n; ++i) mul[k][i] = add[mul[k - 1][i]][i];
  }
  size_t n() const { return g.pts.size(); }
};
// k modulo the group order, from the canonical integer of the scalar.
template <typename S> int Mod(const S& s, int n) {
  auto b = s.ToBigInt();
  unsigned __int128 r = 0;
  for (size_t i = b.kLimbNums; i-- > 0;) r = ((r << 64) | b.limbs[i]) % unsigned(n);
  return int(r);
}
template <typename P, typename F> P Rep(const Env<F>& e, int i, int salt) {
  auto v = Reps<P>(e.g.pts[i], e.zs);
  return v[salt % v.size()];
}

// Every implementation on one (points, scalars) problem.
template <typename P, typename F, typename S>
void Run(mc::Ctx& c, const Env<F>& e, const std::vector<int>& pi, const std::vector<S>& s, bool few = false) {
  using B = typename Pippenger<P>::Bucket;
  int w = 0;
  std::vector<P> b;
  for (size_t i = 0; i < pi.size(); ++i) {
    w = e.add[w][e.mul[Mod(s[i], e.n())][pi[i]]];
    b.push_back(Rep<P>(e, pi[i], i));
  }
  const Pt<F>& want = e.g.pts[w];
  auto msg = [&] {
    std::string m = "team " + std::to_string(g_team) + " n=" + std::to_string(s.size()) + ":";
    for (size_t i = 0; i < s.size(); ++i) if (!s[i].IsZero()) m += " " + std::to_string(i) + ":" + s[i].ToString() + "*" + Str(e.g.pts[pi[i]]);
    return m;
  };
  mc::at("msm n", int(s.size()), g_team);
  for (int naf = 0; naf < 2; ++naf)
    for (int par = 0; par < 2; ++par) {
      if (few && par) continue;
      Pippenger<P> p;
      p.SetUseMSMWindowNAForTesting(naf);
      p.SetParallelWindows(par);
      B r;
      bool ok = p.Run(b.begin(), b.end(), s.begin(), s.end(), &r);
      MC_CHECK(c, ok && Is(r, want), naf ? "pippenger_naf" : "pippenger", msg());
    }
  for (auto st : {PippengerParallelStrategy::kNone, PippengerParallelStrategy::kParallelWindow,
                  PippengerParallelStrategy::kParallelTerm, PippengerParallelStrategy::kParallelWindowAndTerm}) {
    if (few && st == PippengerParallelStrategy::kNone) continue;
    PippengerAdapter<P> a;
    B r;
    bool ok = a.RunWithStrategy(b.begin(), b.end(), s.begin(), s.end(), st, &r);
    MC_CHECK(c, ok && Is(r, want), "adapter", msg() + " strategy " + std::to_string(int(st)));
    Team(g_team);  // the adapter may change the number of threads
  }
  VariableBaseMSM<P> v;
  B r;
  bool ok = v.Run(b, s, &r);
  MC_CHECK(c, ok && Is(r, want), "variable_base", msg());
  if (!few) {
    std::list<P> lb(b.begin(), b.end());
    std::list<S> ls(s.begin(), s.end());
    Pippenger<P> p;
    B r2;
    bool ok2 = p.Run(lb.begin(), lb.end(), ls.begin(), ls.end(), &r2);
    MC_CHECK(c, ok2 && Is(r2, want), "list_input", msg());
  }
  c.states(1);
}
template <typename S> S Sc(uint64_t v) { return S(v); }

// All problems with up to nmax terms over one curve.
template <typename S, bool AZ> void Small(mc::Ctx& c, int a, int b, uint64_t sp, int nmax, int stride) {
  using F = M13;
  using C = SWCurve<Cfg<F, S, AZ>>;
  Env<F> e(13, a, b);
  S::Init();
  C::Config::kA = Elements<F>(13)[a];
  C::Config::kB = Elements<F>(13)[b];
  uint64_t id = 0;
  for (int t : kTeams) {
    Team(g_team = t);
    for (int n = 0; n <= nmax; ++n) {
      uint64_t cnt = 0;
      mc::tuples(n, int(e.n()), [&](const std::vector<int>& pi) {
        mc::tuples(n, int(sp), [&](const std::vector<int>& si) {
          if (n == 2 ? cnt++ % stride : n > 2 ? cnt++ % (stride * 401) : 0) return;
          if (!c.mine(id++)) return;
          std::vector<S> s;
          for (int x : si) s.push_back(S(uint64_t(x)));
          Run<AffinePoint<C>, F, S>(c, e, pi, s);
          if (n < 2) {
            Run<JacobianPoint<C>, F, S>(c, e, pi, s);
            Run<ProjectivePoint<C>, F, S>(c, e, pi, s);
            Run<PointXYZZ<C>, F, S>(c, e, pi, s);
          }
          if (c.want_sample()) c.sample("points " + mc::vstr(pi) + " scalars " + mc::vstr(si));
        });
      });
    }
  }
}
#if defined(TACHYON_HAS_OPENMP)
constexpr int kThin = 29;
#else
constexpr int kThin = 1;
#endif
MC_SECTION(small_m7, 8) { Small<M7, true>(c, 0, 7, 7, c.thorough ? 4 : 3, kThin); }
MC_SECTION(small_m17, 8) { Small<M17, false>(c, 3, 4, 17, 3, (c.thorough ? 1 : 7) * kThin); }
MC_SECTION(small_p13, 8) { Small<P13, true>(c, 0, 2, 13, 3, (c.thorough ? 1 : 5) * kThin); }

// One non-trivial scalar among n terms, and vectors of many, for all window
// sizes reached by n; every scalar of fields of up to 17 bits.
template <typename S> std::vector<S> Alphabet() {
  std::vector<S> v;
  S one = S::One(), m1 = -one;
  for (uint64_t i = 0; i < 9; ++i) v.push_back(S(i));
  for (S x : {m1, m1 - one, m1 - one - one}) v.push_back(x);
  S h = *S(uint64_t(2)).Inverse();
  v.push_back(h); v.push_back(h - one);
  // 2^i and 2^i - 1, and runs of ones 2^i - 2^j
  S p = one;
  std::vector<S> pw;
  for (size_t i = 0; i < S::Config::kModulusBits; ++i) { pw.push_back(p); v.push_back(p); v.push_back(p - one); v.push_back(-p); p = p + p; }
  for (size_t i = 0; i < pw.size(); i += 3) for (size_t j = i % 5; j < i; j += 7) v.push_back(pw[i] - pw[j]);
  // the digit patterns of every window size: all digits equal to d
  for (unsigned w = 3; w <= 10; ++w)
    for (uint64_t d : {uint64_t{1} << (w - 1), (uint64_t{1} << (w - 1)) - 1, (uint64_t{1} << w) - 1, uint64_t{1}}) {
      S x = S::Zero();
      for (size_t o = 0; o + w < S::Config::kModulusBits; o += w) x = x + pw[o] * S(d % 65536);
      v.push_back(x);
    }
  return v;
}
template <typename S> void Windows(mc::Ctx& c, bool all, uint64_t sp, std::vector<int> ns) {
  using F = M13;
  using C = SWCurve<Cfg<F, S, true>>;
  Env<F> e(13, 0, 2);
  S::Init();
  C::Config::kA = F::Zero();
  C::Config::kB = Elements<F>(13)[2];
  std::vector<S> al;
  if (all) { S x = S::Zero(); for (uint64_t i = 0; i < sp; ++i, x = x + S::One()) al.push_back(x); }
  else al = Alphabet<S>();
  uint64_t id = 0;
  for (int t : kTeams) {
    Team(g_team = t);
    for (int n : ns) {
      // a block of scalars at a time: the whole alphabet in vectors of n
      for (size_t o = 0; o < al.size(); o += n) {
        if (!c.mine(id++)) continue;
        std::vector<S> s;
        std::vector<int> pi;
        for (int i = 0; i < n; ++i) { s.push_back(al[(o + i) % al.size()]); pi.push_back((i * 5 + o + 1) % e.n()); }
        Run<AffinePoint<C>, F, S>(c, e, pi, s, true);
        if (o == 0) { Run<JacobianPoint<C>, F, S>(c, e, pi, s, true); Run<ProjectivePoint<C>, F, S>(c, e, pi, s, true); Run<PointXYZZ<C>, F, S>(c, e, pi, s, true); }
      }
      // each scalar alone in the first / last place
      for (size_t o = 0; o < al.size(); o += (n > 40 ? 17 : n > 3 ? 3 : 1)) {
        if (!c.mine(id++)) continue;
        for (int at : {0, n - 1}) {
          std::vector<S> s(n, S::Zero());
          std::vector<int> pi;
          for (int i = 0; i < n; ++i) pi.push_back((i * 3 + 2) % e.n());
          s[at] = al[o];
          Run<AffinePoint<C>, F, S>(c, e, pi, s, true);
        }
      }
    }
  }
}
#define NS {1, 2, 31, 32, 50, 99, 132, 300, 600}
MC_SECTION(windows_m257, 4) { Windows<M257>(c, true, 257, NS); }
MC_SECTION(windows_m12289, 8) { Windows<M12289>(c, true, c.thorough ? 12289 : 2500, {1, 3, 40, 150}); }
MC_SECTION(windows_m65537, 4) { Windows<M65537>(c, false, 0, NS); }
MC_SECTION(windows_l33, 4) { Windows<L33>(c, false, 0, NS); }
MC_SECTION(windows_x64, 4) { Windows<X64>(c, false, 0, NS); }
MC_SECTION(windows_l127, 4) { Windows<L127>(c, false, 0, NS); }
MC_SECTION(windows_bn254, 8) { Windows<bn254::Fr>(c, false, 0, {1, 31, 32, 99, 200}); }
MC_SECTION(windows_bls, 8) { Windows<bls12_381::Fr>(c, false, 0, {1, 31, 32, 99, 700}); }

// Unequal lengths are an error.
MC_SECTION(mismatch, 1) {
  using F = M13;
  using C = SWCurve<Cfg<F, M7, true>>;
  using P = AffinePoint<C>;
  Env<F> e(13, 0, 2);
  M7::Init();
  C::Config::kA = F::Zero();
  C::Config::kB = Elements<F>(13)[2];
  for (int n = 0; n <= 5; ++n)
    for (int m = 0; m <= 5; ++m) {
      if (n == m) continue;
      std::vector<P> b;
      for (int i = 0; i < n; ++i) b.push_back(Rep<P>(e, 1 + i % 3, i));
      std::vector<M7> s(m, M7::One());
      typename Pippenger<P>::Bucket r;
      Pippenger<P> p;
      MC_CHECK(c, !p.Run(b.begin(), b.end(), s.begin(), s.end(), &r), "pippenger", std::to_string(n) + " " + std::to_string(m));
      for (auto st : {PippengerParallelStrategy::kNone, PippengerParallelStrategy::kParallelWindow,
                      PippengerParallelStrategy::kParallelTerm, PippengerParallelStrategy::kParallelWindowAndTerm}) {
        PippengerAdapter<P> a;
        MC_CHECK(c, !a.RunWithStrategy(b.begin(), b.end(), s.begin(), s.end(), st, &r), "adapter", std::to_string(n) + " " + std::to_string(m));
      }
      VariableBaseMSM<P> v;
      MC_CHECK(c, !v.Run(b, s, &r), "variable_base", std::to_string(n) + " " + std::to_string(m));
      FixedBaseMSM<P> f;
      f.Reset(n, e.n() > 1 ? Rep<P>(e, 1, 0) : P::Zero());
      std::vector<typename FixedBaseMSM<P>::AddResult> o(n);
      MC_CHECK(c, !f.Run(s, &o), "fixed_base", std::to_string(n) + " " + std::to_string(m));
      MC_CHECK(c, !f.RunSerial(s, o), "fixed_base_serial", std::to_string(n) + " " + std::to_string(m));
      c.states(1);
    }
}

// Fixed-base multiplication.
template <typename P, typename S, typename F> void Fixed(mc::Ctx& c, const Env<F>& e, const std::vector<S>& al, int size, int pi) {
  FixedBaseMSM<P> f;
  f.Reset(1, Rep<P>(e, (pi + 1) % e.n(), 1));  // a table is replaced entirely
  f.Reset(size, Rep<P>(e, pi, pi));
  using R = typename FixedBaseMSM<P>::AddResult;
  std::string m0 = "size " + std::to_string(size) + " base " + Str(e.g.pts[pi]) + " team " + std::to_string(g_team);
  mc::at(m0.c_str());
  for (const S& s : al) MC_CHECK(c, Is(f.ScalarMul(s), e.g.pts[e.mul[Mod(s, e.n())][pi]]), "fixed_scalar_mul", m0 + " k=" + s.ToString());
  std::vector<R> o(al.size()), o2(al.size());
  std::list<R> o3(al.size());
  bool ok = f.Run(al, &o), ok2 = f.RunSerial(al, o2), ok3 = f.Run(al, &o3);
  MC_CHECK(c, ok && ok2 && ok3, "fixed_status", m0);
  auto it = o3.begin();
  for (size_t i = 0; i < al.size(); ++i, ++it) {
    const Pt<F>& w = e.g.pts[e.mul[Mod(al[i], e.n())][pi]];
    MC_CHECK(c, Is(o[i], w), "fixed_run", m0 + " k=" + al[i].ToString());
    MC_CHECK(c, Is(o2[i], w), "fixed_run_serial", m0 + " k=" + al[i].ToString());
    MC_CHECK(c, Is(*it, w), "fixed_run_list", m0 + " k=" + al[i].ToString());
  }
  c.states(al.size());
}
template <typename S> void FixedAll(mc::Ctx& c, bool all, uint64_t sp) {
  using F = M13;
  using C = SWCurve<Cfg<F, S, true>>;
  Env<F> e(13, 0, 2);
  S::Init();
  C::Config::kA = F::Zero();
  C::Config::kB = Elements<F>(13)[2];
  std::vector<S> al;
  if (all) { S x = S::Zero(); for (uint64_t i = 0; i < sp; ++i, x = x + S::One()) al.push_back(x); }
  else al = Alphabet<S>();
  uint64_t id = 0;
  for (int t : kTeams) {
    Team(g_team = t);
    for (int size : {0, 1, 31, 32, 50, 99, 132, 300, 600, 3000, 9000})
      for (int pi = 0; pi < int(e.n()); ++pi) {
        if (size > 32 && pi > 2) continue;
        if (!c.mine(id++)) continue;
        Fixed<AffinePoint<C>, S>(c, e, al, size, pi);
        Fixed<JacobianPoint<C>, S>(c, e, al, size, pi);
        Fixed<ProjectivePoint<C>, S>(c, e, al, size, pi);
        Fixed<PointXYZZ<C>, S>(c, e, al, size, pi);
        std::vector<S> none;
        Fixed<AffinePoint<C>, S>(c, e, none, size, pi);
      }
  }
}
MC_SECTION(fixed_m7, 2) { FixedAll<M7>(c, true, 7); }
MC_SECTION(fixed_m97, 2) { FixedAll<M97>(c, true, 97); }
MC_SECTION(fixed_m257, 2) { FixedAll<M257>(c, true, 257); }
MC_SECTION(fixed_m65537, 4) { FixedAll<M65537>(c, false, 0); }
MC_SECTION(fixed_l33, 4) { FixedAll<L33>(c, false, 0); }
MC_SECTION(fixed_x64, 4) { FixedAll<X64>(c, false, 0); }
MC_SECTION(fixed_l127, 4) { FixedAll<L127>(c, false, 0); }
MC_SECTION(fixed_bn254, 4) { FixedAll<bn254::Fr>(c, false, 0); }
}  // namespace
