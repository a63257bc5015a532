#include "mc/c06_ext.h"
#include "mc/ext/m12289_2_4.h"
#include "mc/ext/m12289_2_6.h"
#include "mc/ext/m12289_3_6.h"
#include "mc/ext/m12289_4.h"
#include "mc/ext/m13_2_4.h"
#include "mc/ext/m13_2_6.h"
#include "mc/ext/m13_3_6.h"
#include "mc/ext/m13_4.h"
#include "mc/ext/m17_2_4.h"
#include "mc/ext/m17_4.h"
#include "mc/ext/m7_2_6.h"
#include "mc/ext/m7_3_6.h"
#include "mc/ext/m97_2_4.h"
#include "mc/ext/m97_2_6.h"
#include "mc/ext/m97_3_6.h"
#include "mc/ext/m97_4.h"
#include "mc/ext/p103_2_6.h"
#include "mc/ext/p13_4.h"
#include "mc/ext/p31_2_6.h"
#include "mc/ext/p31_3_6.h"
#define T(F, s, u, p, y) MC_SECTION(tower_##F, s) { Tower<F>(c, u, p, y); }
T(M13_4, 8, 3e4, 700, 7) T(P13_4, 8, 3e4, 700, 7) T(M17_4, 4, 1e4, 700, 7) T(M97_4, 4, 1e4, 700, 7) T(M12289_4, 4, 1e4, 700, 7)
T(M13_2_4, 8, 3e4, 700, 3) T(M17_2_4, 4, 1e4, 700, 3) T(M97_2_4, 4, 1e4, 700, 3) T(M12289_2_4, 4, 1e4, 700, 3)
T(M7_3_6, 8, 1.2e5, 730, 16) T(M13_3_6, 4, 2e4, 730, 5) T(P31_3_6, 4, 2e4, 730, 5) T(M97_3_6, 4, 2e4, 730, 5) T(M12289_3_6, 4, 2e4, 730, 5)
T(M7_2_6, 8, 1.2e5, 730, 16) T(M13_2_6, 4, 2e4, 730, 5) T(P31_2_6, 4, 2e4, 730, 5) T(M97_2_6, 4, 2e4, 730, 5) T(P103_2_6, 4, 2e4, 730, 5) T(M12289_2_6, 4, 2e4, 730, 5)
