// C19: Poseidon: parameters from the Grain LFSR, the optimised permutation
// against the round-by-round definition.
#include "mc/c19.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m257.h"
#include "mc/fields/m97.h"
#include "mc/fields/p13.h"
#include "mc/fields/p17.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"

namespace {
using namespace c19; using namespace tachyon::math::mcf;
template <typename F, size_t R, uint32_t A, size_t RF, size_t RP, size_t C = 1> void Conf(mc::Ctx& c, uint64_t* id, const char* field, uint64_t limit = 70000) {
  if (!c.mine((*id)++)) return;
  using P = PoseidonParams<F, R, A, RF, RP, C>; constexpr int t = int(R + C); if constexpr (F::Config::kModulusBits < 64 || true) F::Init();
  std::string name = std::string(field) + " rate " + std::to_string(R) + " capacity " + std::to_string(C) + " alpha " + std::to_string(A) + " rounds " + std::to_string(RF) + "+" + std::to_string(RP); mc::at_s("configuration", name.c_str());
  for (size_t first = 0; first < 3;) {
    RefPoseidon<F> ref(t, A, RF, RP, first); first = ref.skip + 1;
    // the plain round constants and matrix
    PoseidonGrainLFSRConfig lc; lc.prime_num_bits = F::Config::kModulusBits; lc.state_len = t; lc.num_full_rounds = RF; lc.num_partial_rounds = RP;
    math::Matrix<F> ark, mds; FindPoseidonARKAndMDS<F>(lc, ref.skip, ark, mds); bool same = ark.rows() == int(RF + RP) && ark.cols() == t && mds.rows() == t && mds.cols() == t;
    for (int i = 0; same && i < int(RF + RP); ++i) for (int j = 0; j < t; ++j) same = same && ark(i, j) == ref.ark[i][j]; for (int i = 0; same && i < t; ++i) for (int j = 0; j < t; ++j) same = same && mds(i, j) == ref.mds[i][j];
    MC_CHECK(c, same, "parameters", name << " skip " << ref.skip); c.step();
    auto cfg = PoseidonConfig<P>::Create(ref.skip); bool valid = cfg.IsValid(); MC_CHECK(c, valid, "config-valid", name); MC_CHECK(c, cfg.mds == mds, "parameters", name << " mds"); if (!valid) return;
    PoseidonSponge<P> sponge(cfg); Compare(c, name + " skip " + std::to_string(ref.skip), sponge, ref, limit, SBoxInjective<F>(A));
    // a copy through a buffer permutes alike
    base::Uint8VectorBuffer buf; PoseidonSponge<P> back; bool io = buf.Grow(base::EstimateSize(sponge)) && buf.Write(sponge); buf.set_buffer_offset(0); io = io && buf.Read(&back); MC_CHECK(c, io && back == sponge && buf.Done(), "copyable", name);
    if (F::Config::kModulusBits > 20) break;
  }
}
#define CONF(F, ...) Conf<F, __VA_ARGS__>(c, &id, #F)
MC_SECTION(poseidon_small, 8) {
  uint64_t id = 0;
  CONF(M17, 1, 3, 2, 0); CONF(M17, 1, 3, 2, 1); CONF(M17, 1, 5, 4, 3); CONF(M17, 2, 3, 2, 1); CONF(M17, 2, 3, 2, 2); CONF(M17, 2, 5, 4, 5); CONF(M17, 2, 7, 8, 3); CONF(M17, 2, 3, 6, 13); CONF(M17, 3, 3, 4, 4); CONF(M17, 3, 7, 2, 2);
  CONF(M13, 1, 5, 4, 2); CONF(M13, 2, 5, 4, 4); CONF(M13, 3, 5, 8, 5); CONF(M13, 2, 7, 2, 3);
  CONF(P13, 2, 5, 4, 4); CONF(P13, 1, 7, 8, 1); CONF(P17, 2, 3, 4, 4); CONF(P17, 2, 5, 4, 7); CONF(P17, 1, 11, 4, 2);
  CONF(M257, 1, 3, 8, 5); CONF(M97, 2, 5, 4, 3); CONF(M97, 3, 5, 8, 9); CONF(M97, 7, 5, 8, 9); CONF(M97, 4, 11, 8, 22); CONF(M257, 7, 3, 8, 22);
  CONF(M17, 1, 3, 4, 2, 2); CONF(M17, 2, 3, 4, 3, 2); CONF(M13, 1, 5, 2, 2, 3); CONF(M97, 2, 5, 8, 6, 3);
}
MC_SECTION(poseidon_real, 8) {
  uint64_t id = 0; using math::BabyBear; using math::KoalaBear; using math::Goldilocks; using BN = math::bn254::Fr; using BLS = math::bls12_381::Fr;
  CONF(BabyBear, 15, 7, 8, 22); CONF(BabyBear, 23, 7, 8, 22); CONF(KoalaBear, 15, 3, 8, 20); CONF(Goldilocks, 7, 7, 8, 22); CONF(BN, 8, 5, 8, 63); CONF(BN, 4, 5, 8, 60); CONF(BLS, 2, 5, 8, 31); CONF(BLS, 2, 17, 8, 29); CONF(BN, 2, 5, 8, 57); CONF(BLS, 2, 5, 8, 31, 2); CONF(BabyBear, 8, 7, 8, 13, 8);
}
// The generator itself.
template <typename F> void Lfsr(mc::Ctx& c, const char* f) {
  F::Init(); for (bool inv : {false, true}) for (int t : {1, 2, 3, 12, 24, 4095}) for (int rf : {0, 8, 1023}) for (int rp : {0, 1, 56, 1023}) {
    PoseidonGrainLFSRConfig lc; lc.is_sbox_an_inverse = inv; lc.prime_num_bits = F::Config::kModulusBits; lc.state_len = t; lc.num_full_rounds = rf; lc.num_partial_rounds = rp;
    PoseidonGrainLFSR<F> l(lc); Grain g(inv, int(F::Config::kModulusBits), t, rf, rp); c.state(mc::mix(mc::mix(t, rf), mc::mix(rp, inv + 2 * F::Config::kModulusBits)));
    for (int k = 0; k < 6; ++k) {
      if (k & 1) { auto v = l.GetFieldElementsModP(3); for (int i = 0; i < 3; ++i) { c.step(); MC_CHECK(c, v[i] == SampleMod<F>(g), "lfsr-mod-p", f << " t " << t << " rounds " << rf << "+" << rp << " inverse " << inv << " draw " << k); } }
      else if (k == 2) { size_t n = F::Config::kModulusBits; auto b = l.GetBits(n); auto r = g.bits(int(n)); bool ok = true; for (size_t i = 0; i < n; ++i) ok &= b[i] == r[i]; c.step(); MC_CHECK(c, ok, "lfsr-bits", f << " t " << t); }
      else { auto v = l.GetFieldElementsRejectionSampling(4); for (int i = 0; i < 4; ++i) { c.step(); MC_CHECK(c, v[i] == Sample<F>(g), "lfsr-rejection", f << " t " << t << " rounds " << rf << "+" << rp << " inverse " << inv << " draw " << k); } }
    }
    c.trace();
  }
}
MC_SECTION(lfsr, 2) { if (c.shard) { Lfsr<M17>(c, "M17"); Lfsr<P13>(c, "P13"); Lfsr<M257>(c, "M257"); Lfsr<math::BabyBear>(c, "BabyBear"); } else { Lfsr<math::Goldilocks>(c, "Goldilocks"); Lfsr<math::bn254::Fr>(c, "BN254"); Lfsr<math::bls12_381::Fr>(c, "BLS12-381"); } }
// Sparse matrices.
template <typename F, int T> void Sparse(mc::Ctx& c, const char* f, uint32_t alphabet) {
  F::Init(); uint64_t id = 0;
  mc::tuples(2 * T - 1, int(alphabet), [&](const std::vector<int>& e) {
    if (!c.mine(id++)) return; math::Vector<F> row(T), col(T - 1); for (int i = 0; i < T; ++i) row[i] = F(uint32_t(e[i])) - F::One(); for (int i = 0; i + 1 < T; ++i) col[i] = F(uint32_t(e[T + i])) - F::One();
    SparseMDSMatrix<F> m(row, col); auto full = m.Construct(); c.state(mc::hash_bytes(e.data(), e.size() * 4, F::Config::kModulusBits)); c.trace();
    bool ok = true; for (int i = 0; i < T; ++i) for (int j = 0; j < T; ++j) ok &= full(i, j) == (i == 0 ? row[j] : j == 0 ? col[i - 1] : i == j ? F::One() : F::Zero());
    MC_CHECK(c, ok && SparseMDSMatrix<F>::FromMDSMatrix(full) == m, "sparse-construct", f << " " << mc::vstr(e));
    mc::tuples(T, 3, [&](const std::vector<int>& x) { math::Vector<F> v(T); for (int i = 0; i < T; ++i) v[i] = F(uint32_t(x[i])) - F::One(); auto w = v; m.Apply(w); c.step(); for (int i = 0; i < T; ++i) { F s = F::Zero(); for (int j = 0; j < T; ++j) s += full(i, j) * v[j]; ok &= s == w[i]; } MC_CHECK(c, ok, "sparse-apply", f << " " << mc::vstr(e) << " on " << mc::vstr(x)); });
  });
}
MC_SECTION(sparse, 4) { Sparse<M17, 2>(c, "M17", 8); Sparse<M17, 3>(c, "M17", 4); Sparse<M97, 4>(c, "M97", 3); Sparse<math::BabyBear, 3>(c, "BabyBear", 3); }
}  // namespace
