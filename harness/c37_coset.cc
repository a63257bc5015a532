// C37: trace domains and Lagrange selectors against their definitions, at every
// point of every small coset and outside it.
#include <set>

#include "glog/logging.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "mc/fields/m193.h"
#include "mc/fields/m257.h"
#include "mc/fields/m97.h"
#include "mc/mc.h"
#include "tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h"

namespace tachyon::math {
// Small fields have no packed form of their own.
template <typename F> struct Two {
  static constexpr size_t N = 2;
  F a, b;
  static Two Broadcast(const F& f) { return {f, f}; }
  Two& operator*=(const Two& o) { a *= o.a; b *= o.b; return *this; }
  Two& operator+=(const Two& o) { a += o.a; b += o.b; return *this; }
  Two operator-(const Two& o) const { return {a - o.a, b - o.b}; }
};
#define TWO(f) template <> struct PackedFieldTraits<f, void> { using PackedField = Two<f>; };
TWO(mcf::M97) TWO(mcf::M193) TWO(mcf::M257)
}  // namespace tachyon::math
#if defined(TACHYON_HAS_OPENMP)
#include "mc/omp_rt.h"
#endif
namespace {
#if defined(TACHYON_HAS_OPENMP)
constexpr int kTeams[] = {1, 2, 3, 4, 8};
void Team(int t) { omc::set_threads(t); omc::set_reverse(t & 1); }
#else
constexpr int kTeams[] = {1};
void Team(int) {}
#endif
using namespace tachyon; using namespace tachyon::math; using crypto::TwoAdicMultiplicativeCoset;
[[maybe_unused]] const bool quiet = (FLAGS_minloglevel = 3, true);
template <typename F> std::vector<F> Points(const TwoAdicMultiplicativeCoset<F>& d) { std::vector<F> r; F x = d.domain()->offset(); for (size_t i = 0; i < d.domain()->size(); ++i) { r.push_back(x); x = d.GetNextPoint(x); } return r; }
template <typename F> bool Has(const std::vector<F>& v, const F& x) { return std::find(v.begin(), v.end(), x) != v.end(); }
template <typename F> F Pow(F x, size_t n) { F r = F::One(); while (n--) r *= x; return r; }
template <typename F> void CheckAt(mc::Ctx& c, const TwoAdicMultiplicativeCoset<F>& d, const std::vector<F>& pts, const F& s, const F& x, const char* what) {
  // Selectors are defined up to the normalisation Z_H(u) / (u - row), u = x / shift.
  c.step(); F u = x * *s.Inverse(), z = Pow(u, pts.size()) - F::One(); F zp = d.GetZpAtPoint(x); MC_CHECK(c, zp == z && zp.IsZero() == Has(pts, x), "zp", what << " at " << x.ToString() << " shift " << s.ToString() << " size " << pts.size()); if (z.IsZero()) return;
  F last = pts.back() * *s.Inverse(); auto sel = d.GetSelectorsAtPoint(x);
  MC_CHECK(c, sel.first_row * (u - F::One()) == z && sel.last_row * (u - last) == z && sel.transition == u - last && sel.inv_zeroifier * z == F::One(), "selectors", what << " at " << x.ToString() << " shift " << s.ToString() << " size " << pts.size());
}
template <typename F> void Cosets(mc::Ctx& c, const char* name, uint32_t max_log, const std::vector<F>& shifts, const std::vector<F>& others) {
  uint64_t id = 0; F::Init();
  for (uint32_t log = 0; log <= max_log; ++log) for (const F& s : shifts) {
    if (!c.mine(id++)) continue; mc::at("coset", log, id); c.states(1); c.trace(); TwoAdicMultiplicativeCoset<F> d(log, s); auto pts = Points(d); size_t n = size_t{1} << log;
    std::string what = std::string(name) + " 2^" + std::to_string(log) + " shift " + s.ToString(); bool distinct = true; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) distinct &= pts[i] != pts[j];
    MC_CHECK(c, pts.size() == n && distinct && d.GetNextPoint(pts.back()) == s, "points", what);
    for (const F& x : others) CheckAt(c, d, pts, s, x, name);
    for (uint32_t k = 0; k <= log; ++k) { auto parts = d.SplitDomains(size_t{1} << k); MC_CHECK(c, parts.size() == size_t{1} << k, "split", what << " into " << (1u << k)); for (size_t i = 0; i < parts.size(); ++i) { auto q = Points(parts[i]); c.step(); MC_CHECK(c, q.size() == n >> k, "split size", what); for (size_t j = 0; j < q.size(); ++j) MC_CHECK(c, q[j] == pts[i + (j << k)], "split point", what << " into " << (1u << k) << " part " << i << " point " << j); } }
    for (size_t m = 1; m <= size_t{1} << max_log; ++m) { auto o = d.CreateDisjointDomain(m); auto q = Points(o); c.step(); bool disjoint = true; for (const F& x : q) disjoint &= !Has(pts, x); MC_CHECK(c, disjoint && q.size() >= m && (m == 1 || q.size() / 2 < m), "disjoint", what << " for " << m); }
  }
}
// Selectors on a shifted coset at least as large as the trace domain.
template <typename F> void OnCoset(mc::Ctx& c, const char* name, uint32_t max_log, const std::vector<F>& shifts) {
  uint64_t id = 0; F::Init();
  for (uint32_t a = 0; a <= max_log; ++a) for (uint32_t b = a; b <= max_log; ++b) for (const F& s : shifts) {
    if (!c.mine(id++)) continue; if (s == F::One()) continue; mc::at("on coset", a, b, id); TwoAdicMultiplicativeCoset<F> d(a, F::One()), o(b, s); auto pts = Points(d), q = Points(o); bool meet = false; for (const F& x : q) meet |= d.GetZpAtPoint(x).IsZero(); if (meet) continue;
    std::string what = std::string(name) + " 2^" + std::to_string(a) + " on 2^" + std::to_string(b) + " shift " + s.ToString(); c.states(1); c.trace(); bool died = mc::dies([&] { d.GetSelectorsOnCoset(o); }); MC_CHECK(c, !died, "refused", what); if (died) continue;
    for (int team : kTeams) { Team(team); auto sel = d.GetSelectorsOnCoset(o); size_t n = q.size(); bool sizes = sel.first_row.size() == n && sel.last_row.size() == n && sel.transition.size() == n && sel.inv_zeroifier.size() == n; MC_CHECK(c, sizes, "size", what); if (!sizes) continue;
      for (size_t i = 0; i < n; ++i) { c.step(); auto at = d.GetSelectorsAtPoint(q[i]); MC_CHECK(c, sel.first_row[i] == at.first_row && sel.last_row[i] == at.last_row && sel.transition[i] == at.transition && sel.inv_zeroifier[i] == at.inv_zeroifier, "on coset", what << " row " << i << ", " << team << " threads"); } }
  }
}
template <typename F> std::vector<F> All(uint32_t p) { std::vector<F> v; for (uint32_t i = 1; i < p; ++i) v.push_back(F(i)); return v; }
std::vector<BabyBear> Some() { BabyBear::Init(); std::vector<BabyBear> v; for (uint32_t x : {1u, 2u, 3u, 31u, 32u, 2013265920u, 2013265919u, 1006632961u, 7u, 12345u}) v.push_back(BabyBear(x)); return v; }
MC_SECTION(coset_m97, 4) { mcf::M97::Init(); auto v = All<mcf::M97>(97); Cosets<mcf::M97>(c, "m97", 4, v, v); }
MC_SECTION(coset_m257, 8) { mcf::M257::Init(); auto v = All<mcf::M257>(257); std::vector<mcf::M257> s(v.begin(), v.begin() + (c.thorough ? 256 : 40)); Cosets<mcf::M257>(c, "m257", c.thorough ? 6 : 4, s, v); }
MC_SECTION(coset_babybear, 4) { auto v = Some(); Cosets<BabyBear>(c, "babybear", c.thorough ? 8 : 6, v, v); }
MC_SECTION(selectors_m97, 4) { mcf::M97::Init(); OnCoset<mcf::M97>(c, "m97", 5, All<mcf::M97>(97)); }
MC_SECTION(selectors_m193, 4) { mcf::M193::Init(); OnCoset<mcf::M193>(c, "m193", 6, All<mcf::M193>(193)); }
MC_SECTION(selectors_babybear, 4) { OnCoset<BabyBear>(c, "babybear", c.thorough ? 9 : 6, Some()); }
// Extension points, as the prover samples them.
MC_SECTION(coset_babybear4, 2) {
  BabyBear4::Init(); auto shifts = Some(); uint64_t id = 0;
  for (uint32_t log = 0; log <= 5; ++log) for (const BabyBear& s : shifts) { TwoAdicMultiplicativeCoset<BabyBear> d(log, s); auto pts = Points(d);
    mc::tuples(4, 3, [&](const std::vector<int>& k) { if (!c.mine(id++)) return; mc::at("ext", log, id); c.states(1); c.step(); c.trace(); BabyBear4 x{BabyBear(uint32_t(k[0])), BabyBear(uint32_t(k[1])), BabyBear(uint32_t(k[2])), BabyBear(uint32_t(k[3]))}; BabyBear si = *s.Inverse(); BabyBear4 u = x * si, z = BabyBear4::One(); for (size_t i = 0; i < pts.size(); ++i) z *= u; z -= BabyBear4::One();
      MC_CHECK(c, d.GetZpAtPoint(x) == z && d.GetNextPoint(x) == x * d.domain()->group_gen(), "zp", "log " << log << " at " << x.ToString()); if (z.IsZero()) return; auto sel = d.GetSelectorsAtPoint(x); BabyBear4 last = BabyBear4(pts.back() * si);
      MC_CHECK(c, sel.first_row * (u - BabyBear4::One()) == z && sel.last_row * (u - last) == z && sel.transition == u - last && sel.inv_zeroifier * z == BabyBear4::One(), "selectors", "log " << log << " at " << x.ToString()); }); }
}
}  // namespace
