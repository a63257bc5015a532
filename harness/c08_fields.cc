#include "mc/c08_roots.h"
#include "mc/fields/m3.h"
#include "mc/fields/m5.h"
#include "mc/fields/m7.h"
#include "mc/fields/m13.h"
#include "mc/fields/m17.h"
#include "mc/fields/m41.h"
#include "mc/fields/m97.h"
#include "mc/fields/m193.h"
#include "mc/fields/m257.h"
#include "mc/fields/m12289.h"
#include "mc/fields/m65537.h"
#include "mc/fields/m2147483647.h"
#include "mc/fields/m2147483629.h"
#include "mc/fields/p3.h"
#include "mc/fields/p7.h"
#include "mc/fields/p13.h"
#include "mc/fields/p17.h"
#include "mc/fields/p31.h"
#include "mc/fields/p103.h"
#include "mc/fields/l33.h"
#include "mc/fields/l63.h"
#include "mc/fields/l127.h"
#include "mc/fields/l192.h"
#include "mc/fields/l256.h"
#include "mc/fields/l320.h"
#include "mc/fields/l448.h"
#include "mc/fields/l512.h"
#include "mc/fields/l521.h"
#include "mc/fields/l576.h"
#include "mc/fields/x33.h"
#include "mc/fields/x41.h"
#include "mc/fields/x64.h"
#include "mc/fields/x128.h"
#include "mc/fields/xgold.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
using namespace tachyon::math;
#define T(F, n) MC_SECTION(roots_##F, n) { All<F>(c); }
T(M3, 1) T(M5, 1) T(M7, 1) T(M13, 1) T(M17, 1) T(M41, 1) T(M97, 1) T(M193, 1) T(M257, 1) T(M12289, 2) T(M65537, 4) T(M2147483647, 2) T(M2147483629, 2)
T(P3, 1) T(P7, 1) T(P13, 1) T(P17, 1) T(P31, 1) T(P103, 1) T(L33, 1) T(L63, 1) T(L127, 2) T(L192, 2) T(L256, 2) T(L320, 4) T(L448, 4) T(L512, 4) T(L521, 4) T(L576, 4)
T(X33, 1) T(X41, 1) T(X64, 1) T(X128, 2) T(XGold, 2) T(BabyBear, 2) T(KoalaBear, 2) T(Mersenne31, 2) T(Goldilocks, 2)
