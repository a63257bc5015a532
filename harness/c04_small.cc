#include "mc/c04_field.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m193.h"
#include "mc/fields/m2147483629.h"
#include "mc/fields/m2147483647.h"
#include "mc/fields/m257.h"
#include "mc/fields/m3.h"
#include "mc/fields/m41.h"
#include "mc/fields/m5.h"
#include "mc/fields/m65537.h"
#include "mc/fields/m7.h"
#include "mc/fields/m97.h"
#include "mc/fields/p103.h"
#include "mc/fields/p13.h"
#include "mc/fields/p17.h"
#include "mc/fields/p3.h"
#include "mc/fields/p31.h"
#include "mc/fields/p7.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
using tachyon::math::BabyBear; using tachyon::math::KoalaBear; using tachyon::math::Mersenne31;
#define T(F) MC_SECTION(tiny_##F, 1) { Tiny<F>(c); }
T(M3) T(M5) T(M7) T(M13) T(M17) T(M41) T(M97) T(M193) T(M257) T(M12289) T(M65537) T(M2147483647) T(M2147483629)
T(P3) T(P7) T(P13) T(P17) T(P31) T(P103) T(BabyBear) T(KoalaBear) T(Mersenne31)
#define A(F) MC_SECTION(all_##F, 8) { AllElements<F>(c); } MC_SECTION_THOROUGH(inverses_##F, 16) { AllInverses<F>(c); }
A(BabyBear) A(KoalaBear) A(Mersenne31)
