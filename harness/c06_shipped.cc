#include "mc/c06_ext.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq12.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks2.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
namespace {
using namespace tachyon::math;
// The towers the shipped fields declare in their public documentation.
template <typename F> void Declared(mc::Ctx& c, const char* name, std::vector<long> nr) {
  F::Init(); ExtOra<F> o; size_t d = F::Config::kDegreeOverBaseField, bd = o.n / d;
  auto e = o.zero(); for (size_t i = 0; i < nr.size(); ++i) e[i] = o.sc.norm(nr[i]);
  MC_CHECK(c, o.pow(o.unit(bd), d) == e, "declared_non_residue", name);
}
}
#define T(F, n, s, u, p, y, ...) MC_SECTION(tower_##n, s) { Declared<F>(c, #n, {__VA_ARGS__}); Tower<F>(c, u, p, y); }
T(bn254::Fq2, bn254_fq2, 2, 100, 150, 1, -1) T(bn254::Fq6, bn254_fq6, 4, 800, 70, 10, 9, 1) T(bn254::Fq12, bn254_fq12, 8, 60, 60, 12, 0, 0, 1)
T(bls12_381::Fq2, bls12_381_fq2, 2, 100, 150, 1, -1) T(bls12_381::Fq6, bls12_381_fq6, 4, 800, 70, 10, 1, 1) T(bls12_381::Fq12, bls12_381_fq12, 8, 60, 60, 12, 0, 0, 1)
T(Goldilocks2, goldilocks2, 2, 100, 150, 1, 7) T(BabyBear4, baby_bear4, 4, 2e4, 700, 7, 11) T(KoalaBear4, koala_bear4, 4, 2e4, 700, 7, 3)
