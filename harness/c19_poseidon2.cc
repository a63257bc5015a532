// C19: Poseidon2: the external and internal layers of both vendors, the whole
// permutation against the round-by-round definition, and the published parameters.
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "mc/c19.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m257.h"
#include "mc/fields/m97.h"
#include "mc/fields/p13.h"
#include "mc/fields/p17.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_vesta.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"

namespace {
using namespace c19; using namespace tachyon::math::mcf; using V = Poseidon2Vendor;
template <typename Spg> void Buffers(mc::Ctx& c, const Spg& sponge, const std::string& name) {
  base::Uint8VectorBuffer buf; Spg back; bool io = buf.Grow(base::EstimateSize(sponge)) && buf.Write(sponge); buf.set_buffer_offset(0); io = io && buf.Read(&back); MC_CHECK(c, io && back == sponge && !(back != sponge) && buf.Done(), "copyable", name);
  MC_CHECK(c, back.config.internal_diagonal_minus_one == sponge.config.internal_diagonal_minus_one && back.config.internal_shifts == sponge.config.internal_shifts, "copyable-internal", name); c.step();
}
template <V E, typename F, size_t R, uint32_t A, size_t RF, size_t RP, size_t C> std::string Name(const char* f, const char* i) { return std::string(f) + (E == V::kHorizen ? " Horizen" : " Plonky3") + " external, " + i + " internal, rate " + std::to_string(R) + " capacity " + std::to_string(C) + " alpha " + std::to_string(A) + " rounds " + std::to_string(RF) + "+" + std::to_string(RP); }
// A diagonal.
template <V E, typename F, size_t R, uint32_t A, size_t RF, size_t RP, size_t C = 1, bool published = false> void Diagonal(mc::Ctx& c, uint64_t* id, const char* f, const std::array<F, R + C>& diag, uint64_t limit = 70000) {
  if (!c.mine((*id)++)) return; using P = Poseidon2Params<E, V::kHorizen, F, R, A, C, RF, RP>; std::string name = Name<E, F, R, A, RF, RP, C>(f, "diagonal"); mc::at_s("configuration", name.c_str());
  RefPoseidon2<F> ref(int(R + C), A, RF, RP, E == V::kPlonky3, {diag.begin(), diag.end()}, F::One());
  auto cfg = Poseidon2Config<P>::Create(diag); bool ok = cfg.ark.rows() == int(RF + RP) && cfg.ark.cols() == int(R + C); for (size_t i = 0; ok && i < RF + RP; ++i) for (size_t j = 0; j < R + C; ++j) ok = ok && cfg.ark(int(i), int(j)) == ref.ark[i][j]; MC_CHECK(c, ok, "round-constants", name); if (!ok) return;
  bool bij = Invertible(ref.in) && Invertible(ref.ext) && SBoxInjective<F>(A); if (published) MC_CHECK(c, bij, "published-bijective", name << ": internal " << Invertible(ref.in) << " external " << Invertible(ref.ext) << " s-box " << SBoxInjective<F>(A));
  Poseidon2Sponge<P> sponge(cfg); Compare(c, name, sponge, ref, limit, bij); if constexpr (published) Buffers(c, sponge, name);
}
// Shifts, for Montgomery fields and Mersenne31.
template <typename F> F ShiftScale() { if constexpr (!F::Config::kUseMontgomery) return F::One(); else { F two32 = F::One(); for (int i = 0; i < 32; ++i) two32 = two32 + two32; return *two32.Inverse(); } }
template <V E, typename F, size_t R, uint32_t A, size_t RF, size_t RP, size_t C = 1, bool published = false> void Shifts(mc::Ctx& c, uint64_t* id, const char* f, const std::array<uint8_t, R>& shifts, uint64_t limit = 70000) {
  if (!c.mine((*id)++)) return; using P = Poseidon2Params<E, V::kPlonky3, F, R, A, C, RF, RP>; std::string name = Name<E, F, R, A, RF, RP, C>(f, "shift"); mc::at_s("configuration", name.c_str());
  std::vector<F> diag{-F::One() - F::One()}; for (uint8_t s : shifts) { F x = F::One(); while (s--) x = x + x; diag.push_back(x); }
  RefPoseidon2<F> ref(int(R + C), A, RF, RP, E == V::kPlonky3, diag, ShiftScale<F>());
  auto cfg = Poseidon2Config<P>::Create(shifts); bool bij = Invertible(ref.in) && Invertible(ref.ext) && SBoxInjective<F>(A); if (published) MC_CHECK(c, bij, "published-bijective", name << ": internal " << Invertible(ref.in) << " external " << Invertible(ref.ext) << " s-box " << SBoxInjective<F>(A));
  Poseidon2Sponge<P> sponge(cfg); Compare(c, name, sponge, ref, limit, bij); if constexpr (published) Buffers(c, sponge, name);
  // explicit round constants
  auto ark = cfg.ark; for (int i = 0; i < ark.rows(); ++i) ark(i, 0) += F::One(); auto ark2 = ark; auto own = Poseidon2Config<P>::Create(shifts, std::move(ark2)); MC_CHECK(c, own.ark == ark && own.internal_shifts == cfg.internal_shifts, "own-round-constants", name); RefPoseidon2<F> ref2 = ref; for (auto& r : ref2.ark) r[0] += F::One(); Poseidon2Sponge<P> sponge2(own); Compare(c, name + " with own round constants", sponge2, ref2, limit / 16, bij);
}
template <typename F, size_t N> std::array<F, N> Diag(int seed) { std::array<F, N> d; for (size_t i = 0; i < N; ++i) d[i] = F(uint32_t((size_t(seed) * 5 + i * i * 3 + i + 1) % 11)); return d; }
#define DIAG(E, F, R, A, RF, RP, ...) F::Init(); for (int seed = 0; seed < 3; ++seed) Diagonal<V::E, F, R, A, RF, RP, ##__VA_ARGS__>(c, &id, #F, Diag<F, Width<R, ##__VA_ARGS__>>(seed))
template <size_t R, size_t C = 1> constexpr size_t Width = R + C;
MC_SECTION(poseidon2_small, 8) {
  uint64_t id = 0;
  DIAG(kHorizen, M17, 1, 3, 2, 0); DIAG(kHorizen, M17, 1, 3, 2, 1); DIAG(kPlonky3, M17, 1, 5, 4, 3); DIAG(kHorizen, M17, 2, 3, 2, 1); DIAG(kPlonky3, M17, 2, 3, 6, 13); DIAG(kHorizen, M17, 3, 3, 4, 4); DIAG(kPlonky3, M17, 3, 7, 4, 4); DIAG(kHorizen, M13, 3, 5, 8, 5); DIAG(kHorizen, M13, 2, 7, 2, 3);
  DIAG(kHorizen, P13, 2, 5, 4, 4); DIAG(kPlonky3, P13, 3, 7, 4, 1); DIAG(kHorizen, P17, 2, 11, 4, 4); DIAG(kHorizen, M257, 1, 3, 8, 5); DIAG(kHorizen, M97, 3, 5, 8, 9); DIAG(kPlonky3, M97, 3, 5, 8, 9);
  DIAG(kHorizen, M97, 7, 5, 8, 13); DIAG(kPlonky3, M97, 7, 5, 8, 13); DIAG(kHorizen, M97, 11, 5, 8, 13); DIAG(kPlonky3, M257, 11, 3, 8, 13); DIAG(kHorizen, M257, 15, 3, 8, 13); DIAG(kPlonky3, M257, 15, 7, 8, 13); DIAG(kHorizen, M97, 19, 7, 8, 13); DIAG(kPlonky3, M97, 19, 11, 8, 13); DIAG(kHorizen, M97, 23, 5, 8, 13); DIAG(kPlonky3, M257, 23, 9, 8, 13);
  DIAG(kHorizen, M17, 1, 3, 4, 2, 2); DIAG(kPlonky3, M17, 2, 3, 4, 3, 2); DIAG(kHorizen, M97, 6, 5, 8, 6, 2); DIAG(kPlonky3, M97, 4, 5, 8, 6, 4);
  { using F = M17; F::Init(); for (uint8_t a = 0; a < 5; ++a) for (uint8_t b = 0; b < 3; ++b) { Shifts<V::kPlonky3, F, 2, 3, 4, 3>(c, &id, "M17", {a, b}); Shifts<V::kHorizen, F, 1, 3, 4, 3>(c, &id, "M17", {uint8_t(a + b * 5)}); Shifts<V::kPlonky3, F, 3, 3, 2, 3>(c, &id, "M17", {b, a, uint8_t(a + 9)}, 100000); } }
  { using F = M257; F::Init(); for (uint8_t a = 0; a < 20; ++a) Shifts<V::kPlonky3, F, 1, 3, 4, 3>(c, &id, "M257", {a}); }
}
template <typename P> auto DiagOf() { return GetPoseidon2InternalDiagonalArray<P>(); }
template <typename F, size_t R, uint32_t A> uint64_t DiagDigest() { uint64_t h = 0; for (auto& x : Poseidon2ParamsTraits<F, R, A>::GetPoseidon2InternalDiagonalArray()) { std::string s = x.ToString(); h = mc::hash_bytes(s.data(), s.size(), h); } return h; }
template <typename F, size_t R, uint32_t A> uint64_t ShiftDigest() { uint64_t h = 0; for (uint8_t x : Poseidon2ParamsTraits<F, R, A>::GetPoseidon2InternalShiftArray()) h = mc::mix(h, x); return h; }
#define PUBD(F, R, A, RF, RP, DIGEST) F::Init(); Diagonal<V::kHorizen, F, R, A, RF, RP, 1, true>(c, &id, #F, Poseidon2ParamsTraits<F, R, A>::GetPoseidon2InternalDiagonalArray(), 0); MC_CHECK(c, (DiagDigest<F, R, A>() == DIGEST##ull), "published-constants-" #F #R, #F " rate " #R " alpha " #A ": digest " << (DiagDigest<F, R, A>()))
#define PUBS(F, R, A, RF, RP, DIGEST) F::Init(); Shifts<V::kPlonky3, F, R, A, RF, RP, 1, true>(c, &id, #F, Poseidon2ParamsTraits<F, R, A>::GetPoseidon2InternalShiftArray(), 0); MC_CHECK(c, (ShiftDigest<F, R, A>() == DIGEST##ull), "published-constants-" #F #R, #F " rate " #R " alpha " #A " shifts: digest " << (ShiftDigest<F, R, A>()))
using math::BabyBear; using math::KoalaBear; using math::Mersenne31; using math::Goldilocks; using BLS = math::bls12_381::Fr; using BN = math::bn254::Fr; using Pallas = math::pallas::Fr; using Vesta = math::vesta::Fr;
MC_SECTION(poseidon2_published, 8) {
  uint64_t id = 0;
  PUBD(BabyBear, 15, 7, 8, 13, 3421863385574557677); PUBD(BabyBear, 23, 7, 8, 21, 10363303922434874974); PUBS(BabyBear, 15, 7, 8, 13, 8654169229487324063); PUBS(BabyBear, 23, 7, 8, 21, 12309920677944493397);
  PUBS(KoalaBear, 15, 7, 8, 13, 8654169229487324063); PUBS(KoalaBear, 23, 7, 8, 21, 12466039604045521076); PUBS(Mersenne31, 15, 5, 8, 14, 8514632387125999381); PUBS(Mersenne31, 23, 5, 8, 22, 12416974822444365309);
  PUBD(Goldilocks, 7, 7, 8, 22, 13974542644505808524); PUBD(Goldilocks, 11, 7, 8, 22, 17620335102256880674); PUBD(Goldilocks, 15, 7, 8, 22, 13123444686921552474); PUBD(Goldilocks, 19, 7, 8, 22, 11704706942945418723);
  PUBD(BLS, 1, 5, 8, 56, 5868347939756534394); PUBD(BLS, 2, 5, 8, 56, 15360674416709692704); PUBD(BLS, 3, 5, 8, 56, 2567047387715995675); PUBD(BLS, 7, 5, 8, 56, 11142823872483055615); PUBD(BN, 2, 5, 8, 56, 15360674416709692704); PUBD(Pallas, 2, 5, 8, 56, 15360674416709692704); PUBD(Pallas, 3, 5, 8, 56, 3873314147599132372); PUBD(Pallas, 7, 5, 8, 56, 8371862361037049895); PUBD(Vesta, 2, 5, 8, 56, 15360674416709692704);
  // The default sponge is the published one.
  if (c.shard == 0) {
    using S = Poseidon2Params<V::kPlonky3, V::kPlonky3, BabyBear, 15, 7>; using D = Poseidon2Params<V::kHorizen, V::kHorizen, BabyBear, 15, 7>; using N = Poseidon2Params<V::kHorizen, V::kHorizen, BN, 2, 5>; using G = Poseidon2Params<V::kHorizen, V::kPlonky3, Goldilocks, 7, 7>;
    MC_CHECK(c, S::kPartialRounds == 13 && S::kFullRounds == 8 && N::kPartialRounds == 56 && G::kPartialRounds == 22, "default-rounds", "BabyBear, BN254, Goldilocks");
    MC_CHECK(c, (Poseidon2Sponge<S>().config == Poseidon2Config<S>::Create(GetPoseidon2InternalShiftArray<S>())), "default-config", "BabyBear shifts"); MC_CHECK(c, (Poseidon2Sponge<D>().config == Poseidon2Config<D>::Create(GetPoseidon2InternalDiagonalArray<D>())), "default-config", "BabyBear diagonal");
    MC_CHECK(c, (Poseidon2Sponge<N>().config == Poseidon2Config<N>::Create(GetPoseidon2InternalDiagonalArray<N>())), "default-config", "BN254"); MC_CHECK(c, (Poseidon2Sponge<G>().config == Poseidon2Config<G>::Create(GetPoseidon2InternalDiagonalArray<G>())), "default-config", "Goldilocks"); c.step(5);
  }
}
// Every lane of a packed sponge is the scalar sponge.
template <V E, V I, typename PF, size_t R, uint32_t A> void Packed(mc::Ctx& c, uint64_t* id, const char* f) {
  using F = typename math::FiniteFieldTraits<PF>::PrimeField; PF::Init(); F::Init(); using P = Poseidon2Params<E, I, PF, R, A>; using S = Poseidon2Params<E, I, F, R, A>; if (!c.mine((*id)++)) return; mc::at_s("packed", f);
  Poseidon2Sponge<P> packed; Poseidon2Sponge<S> scalar; auto states = States<F>(int(R + 1));
  for (size_t k = 0; k < states.size(); ++k) {
    SpongeState<P> p; std::vector<SpongeState<S>> s(PF::N); for (size_t l = 0; l < PF::N; ++l) for (size_t i = 0; i <= R; ++i) { s[l][i] = states[(k + l * 3) % states.size()][i]; p[i][l] = s[l][i]; }
    packed.Permute(p); for (size_t l = 0; l < PF::N; ++l) { scalar.Permute(s[l]); bool ok = true; for (size_t i = 0; i <= R; ++i) ok &= p[i][l] == s[l][i]; c.step(); MC_CHECK(c, ok, "packed-lane", f << " rate " << R << " lane " << l << " of " << PF::N << ": " << s[l].ToString()); }
  }
  c.states(states.size()); c.trace();
}
MC_SECTION(poseidon2_packed, 4) {
  uint64_t id = 0;
  Packed<V::kPlonky3, V::kPlonky3, math::PackedBabyBear, 15, 7>(c, &id, "BabyBear shifts"); Packed<V::kHorizen, V::kHorizen, math::PackedBabyBear, 15, 7>(c, &id, "BabyBear diagonal"); Packed<V::kHorizen, V::kPlonky3, math::PackedBabyBear, 23, 7>(c, &id, "BabyBear shifts"); Packed<V::kPlonky3, V::kHorizen, math::PackedBabyBear, 23, 7>(c, &id, "BabyBear diagonal");
  Packed<V::kPlonky3, V::kPlonky3, math::PackedKoalaBear, 15, 7>(c, &id, "KoalaBear shifts"); Packed<V::kPlonky3, V::kPlonky3, math::PackedKoalaBear, 23, 7>(c, &id, "KoalaBear shifts"); Packed<V::kPlonky3, V::kPlonky3, math::PackedMersenne31, 15, 5>(c, &id, "Mersenne31 shifts"); Packed<V::kHorizen, V::kPlonky3, math::PackedMersenne31, 23, 5>(c, &id, "Mersenne31 shifts");
}
// The matrices that describe the layers are the layers.
template <V E, typename F, size_t T> void External(mc::Ctx& c, const char* f) {
  F::Init(); using X = std::conditional_t<E == V::kHorizen, Poseidon2ExternalMatrix<Poseidon2HorizenExternalMatrix<F>>, Poseidon2ExternalMatrix<Poseidon2Plonky3ExternalMatrix<F>>>; RefPoseidon2<F> ref(int{T}, 3, 2, 0, E == V::kPlonky3, std::vector<F>(T, F::One()), F::One());
  auto m = X::template Construct<T>(T); bool ok = m.rows() == int(T) && m.cols() == int(T); for (size_t i = 0; ok && i < T; ++i) for (size_t j = 0; j < T; ++j) ok = ok && m(int(i), int(j)) == ref.ext[i][j]; MC_CHECK(c, ok, "external-matrix", f << " width " << T << " vendor " << int(E));
  for (auto& s : States<F>(int(T))) { math::Vector<F> v(T); for (size_t i = 0; i < T; ++i) v[int(i)] = s[i]; auto r = s; Mul(ref.ext, r); X::template Apply<T>(v); ok = true; for (size_t i = 0; i < T; ++i) ok &= v[int(i)] == r[i]; c.step(); MC_CHECK(c, ok, "external-apply", f << " width " << T << " vendor " << int(E) << " of " << Show(s)); } c.states(1); c.trace();
}
MC_SECTION(external, 1) {
#define EXT(F) External<V::kHorizen, F, 2>(c, #F); External<V::kHorizen, F, 3>(c, #F); External<V::kHorizen, F, 4>(c, #F); External<V::kHorizen, F, 8>(c, #F); External<V::kHorizen, F, 12>(c, #F); External<V::kHorizen, F, 16>(c, #F); External<V::kHorizen, F, 20>(c, #F); External<V::kHorizen, F, 24>(c, #F); External<V::kPlonky3, F, 2>(c, #F); External<V::kPlonky3, F, 3>(c, #F); External<V::kPlonky3, F, 4>(c, #F); External<V::kPlonky3, F, 8>(c, #F); External<V::kPlonky3, F, 12>(c, #F); External<V::kPlonky3, F, 16>(c, #F); External<V::kPlonky3, F, 20>(c, #F); External<V::kPlonky3, F, 24>(c, #F)
  EXT(M17); EXT(BabyBear); EXT(Goldilocks); EXT(BN);
}
}  // namespace
