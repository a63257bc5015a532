#include "mc/c06_ext.h"
#include "mc/ext/m12289_2.h"
#include "mc/ext/m13_2.h"
#include "mc/ext/m17_2.h"
#include "mc/ext/m2147483629_2.h"
#include "mc/ext/m7_2.h"
#include "mc/ext/m97_2.h"
#include "mc/ext/p103_2.h"
#include "mc/ext/p31_2.h"
#include "mc/ext/p7_2.h"
#include "mc/ext/m12289_3.h"
#include "mc/ext/m13_3.h"
#include "mc/ext/m7_3.h"
#include "mc/ext/m97_3.h"
#include "mc/ext/p31_3.h"
#include "mc/ext/p7_3.h"
#define T(F, s, u, p, y) MC_SECTION(tower_##F, s) { Tower<F>(c, u, p, y); }
T(M7_2, 1, 1e4, 400, 1) T(P7_2, 1, 1e4, 400, 1) T(M13_2, 1, 1e4, 400, 1) T(M17_2, 1, 1e4, 400, 1) T(P31_2, 2, 1e4, 961, 1)
T(M97_2, 4, 1e4, 900, 1) T(P103_2, 4, 1.1e4, 900, 1) T(M12289_2, 4, 1e4, 900, 4) T(M2147483629_2, 4, 1e4, 900, 4)
T(M7_3, 2, 1e4, 400, 0) T(P7_3, 2, 1e4, 400, 0) T(M13_3, 8, 1e4, 2200, 0) T(P31_3, 8, 3e4, 1000, 0) T(M97_3, 4, 1e4, 1000, 0) T(M12289_3, 4, 1e4, 1000, 0)
