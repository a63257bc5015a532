#include "mc/c04_field.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#define G(ns, F, n) MC_SECTION(ns##_##F, n) { Large<tachyon::math::ns::F>(c); }
G(bn254, Fq, 2) G(bn254, Fr, 2) G(bls12_381, Fq, 4) G(bls12_381, Fr, 2) G(secp256k1, Fq, 2) G(secp256k1, Fr, 2)
G(pallas, Fq, 2) G(pallas, Fr, 2) G(vesta, Fq, 1) G(vesta, Fr, 1) G(bn384_small_two_adicity, Fq, 4) G(bn384_small_two_adicity, Fr, 4)
MC_SECTION(Goldilocks, 2) { Large<tachyon::math::Goldilocks>(c); }
