#include "mc/c06_ext.h"
#include "mc/ext/m12289_12.h"
#include "mc/ext/m13_12.h"
#include "mc/ext/m7_12.h"
#include "mc/ext/m97_12.h"
#include "mc/ext/p103_12.h"
#include "mc/ext/p31_12.h"
#define T(F, s, u, p, y) MC_SECTION(tower_##F, s) { Tower<F>(c, u, p, y); }
T(M7_12, 8, 4100, 160, 9) T(M13_12, 8, 4100, 160, 9) T(P31_12, 8, 4100, 160, 9) T(M97_12, 8, 4100, 160, 9) T(P103_12, 8, 4100, 160, 9) T(M12289_12, 8, 4100, 160, 9)
